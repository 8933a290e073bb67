package checks

import (
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/sa6mwa/krypto431"
	"verif/fault"
	"verif/kit"
)

// C29: the store, the key, the password and the salt that are used are the
// ones that were named, by option before environment before default.

// ---------------------------------------------------------------- which store

// The stores there are, by place below the scratch directory, each with one
// key and one message of its own.
var nmStores = []struct{ Place, Key, Msg string }{
	{"home/.krypto431.gob", "HOMED", "mHOM"},
	{"home/other", "HOMEO", "mHOO"},
	{"work/a", "WORKA", "mWRA"},
	{"work/a b", "WORKB", "mWRB"},
	{"work/~", "TILDE", "mTIL"},
	{"work/~other", "TILDO", "mTIO"},
	{"work/-l", "DASHL", "mDSH"},
	{"work/.krypto431.gob", "WORKD", "mWRD"},
	{"a", "UPPER", "mUPP"},
}

// How a store may be named, and the place meant.
var nmNames = []struct{ Arg, Place string }{
	{"a", "work/a"},
	{"./a b", "work/a b"},
	{"../a", "a"},
	{"DIR/work/a", "work/a"},
	{"~/other", "home/other"},
	{"~/.krypto431.gob", "home/.krypto431.gob"},
	{"~other", "work/~other"},
	{"~", "work/~"},
	{"-l", "work/-l"},
	{".krypto431.gob", "work/.krypto431.gob"},
	{"~/work/new", "home/work/new"}, // directory is not there
	{"new", "work/new"},
	{"~/new", "home/new"},
	{"$HOME/other", "work/$HOME/other"},
	{"", ""},
}

const nmDefault = "home/.krypto431.gob"

var nmCmds = []string{"list", "messages", "generate", "delete", "forget", "send", "export", "print", "init", "init -y", "change"}

type nmFile struct {
	Opt, Env int    // number of the name; -1: not given
	Form     int    // -f X, --file X, --file=X, -f=X
	Home     string // set, unset, empty
	Cmd      string
}

var nmBytes = map[string][]byte{}

func nmStoreBytes(r *kit.Run, key, msg string) []byte {
	if nmBytes[key] == nil {
		dir, done := r.Dir()
		defer done()
		k := blank(5, 60, "AA")
		addKey(k, mkKey(key, keyLetters(int(key[0])*256+int(key[4]), 60), "BB"))
		m := newMsg(k, "TEXT "+key, "BB")
		m.Id = []rune(msg)
		k.Messages = append(k.Messages, *m)
		k.SetPersistence(filepath.Join(dir, "s"))
		kit.Must(k.SetPFKFromString(pfkHex))
		kit.Must(k.Save())
		b, err := os.ReadFile(filepath.Join(dir, "s"))
		kit.Must(err)
		nmBytes[key] = b
	}
	return nmBytes[key]
}

func nmLay(r *kit.Run, dir string) {
	for _, d := range []string{"home", "work"} {
		kit.Must(os.Mkdir(filepath.Join(dir, d), 0700))
	}
	for _, s := range nmStores {
		kit.Must(os.WriteFile(filepath.Join(dir, s.Place), nmStoreBytes(r, s.Key, s.Msg), 0600))
	}
}

// filesBelow reads all files below dir.
func filesBelow(dir string) map[string][]byte {
	o := map[string][]byte{}
	kit.Must(filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return err
		}
		rel, err := filepath.Rel(dir, p)
		if err != nil {
			return err
		}
		o[rel], err = os.ReadFile(p)
		return err
	}))
	return o
}

func crashed(res fault.Result) error {
	if res.Hung || strings.Contains(res.Out+res.Err, "goroutine ") || res.Code < 0 || res.Code == 2 {
		return kit.Fail("the program hangs or crashes (exit %d): %s", res.Code, trunc(res.Out+res.Err))
	}
	return nil
}

func execNmFile(r *kit.Run, c nmFile) error {
	dir, done := r.Dir()
	defer done()
	nmLay(r, dir)
	name, place := "~/.krypto431.gob", nmDefault
	at := func(n int) (string, string) {
		return strings.Replace(nmNames[n].Arg, "DIR", dir, 1), nmNames[n].Place
	}
	env := []string{"PATH=/usr/bin:/bin", "TZ=UTC", "LANG=C.UTF-8", "KRYPTO_PFK=" + pfkHex}
	switch c.Home {
	case "set":
		env = append(env, "HOME="+filepath.Join(dir, "home"))
	case "empty":
		env = append(env, "HOME=")
	}
	if c.Env >= 0 {
		name, place = at(c.Env)
		env = append(env, "KRYPTO_FILE="+name)
	}
	var args []string
	if c.Opt >= 0 {
		name, place = at(c.Opt)
		switch c.Form {
		case 0:
			args = []string{"-f", name}
		case 1:
			args = []string{"--file", name}
		case 2:
			args = []string{"--file=" + name}
		case 3:
			args = []string{"-f=" + name}
		}
	}
	usable := place != "" && (c.Home == "set" || !strings.HasPrefix(name, "~/"))
	key, msg := "", ""
	for _, s := range nmStores {
		if s.Place == place {
			key, msg = s.Key, s.Msg
		}
	}
	stdin := ""
	switch c.Cmd {
	case "list":
		args = append(args, "keys", "-l", "--all")
	case "messages":
		args = append(args, "messages", "-l", "--all")
	case "generate":
		args = append(args, "keys", "-n", "1", "-k", "CC")
	case "delete":
		args = append(args, "keys", "-d", "-y")
		for _, s := range nmStores {
			args = append(args, "-i", s.Key)
		}
	case "forget":
		args = append(args, "messages", "-d", "-y")
		for _, s := range nmStores {
			args = append(args, "-i", s.Msg)
		}
	case "send":
		args = append(args, "messages", "-n")
		stdin = "BB DE AA 041200 = SENT = K"
	case "export":
		args = append(args, "keys", "--all", "-E", filepath.Join(dir, "out"))
	case "print":
		args = append(args, "keys", "--all", "-o", filepath.Join(dir, "out.txt"))
	case "init", "init -y":
		args = append(args, strings.Fields(c.Cmd)...)
		args = append(args, "-c", "QQ")
	case "change":
		args = append(args, "pfk", "-y", "-k", pfkHex2, "-c", name)
	}
	if strings.HasPrefix(c.Cmd, "init") {
		usable = usable && (key == "" || c.Cmd == "init -y") && place != "home/work/new" && place != "work/$HOME/other"
	} else {
		usable = usable && key != ""
	}
	before := filesBelow(dir)
	sp := fault.Spec{Bin: builtBin("krypto431"), Args: args, Env: env, Dir: filepath.Join(dir, "work"), Root: dir, Stdin: stdin}
	res := plain(sp)
	r.Step(1)
	r.StateOf(c.Cmd, place, usable, res.Code)
	what := fmt.Sprintf("HOME %s, KRYPTO_FILE %s: %s", c.Home, func() string {
		if c.Env < 0 {
			return "not set"
		}
		return fmt.Sprintf("%q", nmNames[c.Env].Arg)
	}(), strings.ReplaceAll(strings.Join(args, " "), dir, "DIR"))
	if err := crashed(res); err != nil {
		return kit.Fail("%s: %v", what, err)
	}
	after := filesBelow(dir)
	changed := map[string]bool{}
	for f, b := range after {
		if was, ok := before[f]; !ok || string(was) != string(b) {
			changed[f] = true
		}
	}
	for f := range before {
		if _, ok := after[f]; !ok {
			return kit.Fail("%s: %s is gone", what, f)
		}
	}
	only := func(f string) error {
		for x := range changed {
			if x != f {
				return kit.Fail("%s: the store meant is %q, and %s is written", what, place, x)
			}
		}
		if f != "" && !changed[f] {
			return kit.Fail("%s: %s is not written", what, f)
		}
		return nil
	}
	if !usable {
		if res.Code == 0 {
			return kit.Fail("%s: the store meant is %q, can not be used, and the program succeeds: %s", what, place, trunc(res.Out+res.Err))
		}
		return only("")
	}
	if res.Code != 0 {
		return kit.Fail("%s: the store meant is %q, and the program fails: %s", what, place, trunc(res.Err))
	}
	others := func(out string) error {
		for _, s := range nmStores {
			if (s.Key != key && strings.Contains(out, s.Key)) || (s.Msg != msg && strings.Contains(out, s.Msg)) {
				return kit.Fail("%s: the store meant is %q, and shown is %s", what, place, s.Place)
			}
		}
		return nil
	}
	open := func(f, pfk string) (*K, error) {
		k, err := openAs(filepath.Join(dir, f), pfk)
		if err != nil {
			return nil, kit.Fail("%s: %s does not open: %v", what, f, err)
		}
		return k, nil
	}
	switch c.Cmd {
	case "list", "messages":
		id := key
		if c.Cmd == "messages" {
			id = msg
		}
		if !strings.Contains(res.Out, id) {
			return kit.Fail("%s: the store meant is %q, and %s is not shown: %s", what, place, id, trunc(res.Out))
		}
		if err := others(res.Out); err != nil {
			return err
		}
		return only("")
	case "export":
		if err := only("out"); err != nil {
			return err
		}
		k, err := open("out", pfkHex)
		if err != nil {
			return err
		}
		if len(k.Keys) != 1 || string(k.Keys[0].Id) != key {
			return kit.Fail("%s: the store meant is %q, and exported is %s", what, place, storeSnap(k))
		}
		return nil
	case "print":
		if err := only("out.txt"); err != nil {
			return err
		}
		if !strings.Contains(string(after["out.txt"]), key) {
			return kit.Fail("%s: the store meant is %q, and key %s is not printed", what, place, key)
		}
		return others(string(after["out.txt"]))
	}
	if err := only(place); err != nil {
		return err
	}
	pfk := pfkHex
	if c.Cmd == "change" {
		pfk = pfkHex2
	}
	k, err := open(place, pfk)
	if err != nil {
		return err
	}
	keys, msgs := 1, 1
	call := "AA"
	switch c.Cmd {
	case "generate":
		keys = 2
	case "delete":
		keys = 0
	case "forget":
		msgs = 0
	case "send":
		msgs = 2
	case "init", "init -y":
		keys, msgs, call, key, msg = 0, 0, "QQ", "", ""
	}
	if len(k.Keys) != keys || len(k.Messages) != msgs || string(k.CallSign) != call ||
		keys > 0 && string(k.Keys[0].Id) != key || msgs > 0 && string(k.Messages[0].Id) != msg {
		return kit.Fail("%s: the store meant is %q, and it is now %s", what, place, storeSnap(k))
	}
	return nil
}

func enumNmFile(r *kit.Run, yield func(nmFile) bool) {
	for _, cmd := range nmCmds {
		for opt := -1; opt < len(nmNames); opt++ {
			for env := -1; env < len(nmNames); env++ {
				for form := 0; form < 4; form++ {
					if opt < 0 && form > 0 {
						continue
					}
					if cmd == "change" && (env >= 0 || opt < 0 || nmNames[opt].Arg == "") {
						continue // names it with an option of its own
					}
					for _, home := range []string{"set", "unset", "empty"} {
						if !r.Thorough() && home != "set" && (form > 0 || env >= 0 && opt >= 0) {
							continue
						}
						if !r.Thorough() && form > 0 && env > 1 {
							continue
						}
						if !yield(nmFile{opt, env, form, home, cmd}) {
							return
						}
					}
				}
			}
		}
	}
}

// ---------------------------------------------------------------- which secret

// A secret may be named by the option, in the environment, in both or not at
// all. Values are numbers into a table; -1: not given.
type nmSecret struct {
	PfkOpt, PfkEnv   int
	PwOpt, PwEnv     int
	SaltOpt, SaltEnv int
	Cmd              string
	Form             int  // -K x, --pfk x, --pfk=x
	Typed            bool `json:",omitempty"` // the password is typed
}

var (
	nmPfks  = []string{pfkHex, pfkHex2, "", "0102", strings.ToUpper(pfkHex)}
	nmPws   = []string{chOldPw, chNewPw, ""}
	nmSalts = []string{chSalt1, chSalt2, "", chSalt1[:62], "xx"}
)

func nmPick(opt, env int, from []string) (string, bool) {
	switch {
	case opt >= 0:
		return from[opt], true
	case env >= 0:
		return from[env], true
	}
	return "", false
}

// means gives the key of the store that is meant, in hex, and whether the
// secrets can be used.
func (c nmSecret) means() (string, bool) {
	pfk, hasPfk := nmPick(c.PfkOpt, c.PfkEnv, nmPfks)
	pw, hasPw := nmPick(c.PwOpt, c.PwEnv, nmPws)
	salt, hasSalt := nmPick(c.SaltOpt, c.SaltEnv, nmSalts)
	if hasPfk && hasPw {
		return "", false
	}
	if hasSalt {
		if b, err := hex.DecodeString(salt); err != nil || len(b) < krypto431.MinimumSaltLength {
			return "", false
		}
	} else {
		salt = krypto431.DefaultSalt
	}
	switch {
	case hasPfk:
		b, err := hex.DecodeString(pfk)
		return strings.ToLower(pfk), err == nil && len(b) == 32
	case hasPw:
		return derived(pw, salt), true
	case c.Typed:
		return derived(chNewPw, salt), true
	}
	return "", false
}

func (c nmSecret) line() (args, env []string) {
	add := func(n int, from []string, short, long string) {
		if n < 0 {
			return
		}
		switch c.Form {
		case 0:
			args = append(args, short, from[n])
		case 1:
			args = append(args, long, from[n])
		case 2:
			args = append(args, long+"="+from[n])
		}
	}
	add(c.PfkOpt, nmPfks, "-K", "--pfk")
	add(c.PwOpt, nmPws, "-P", "--password")
	add(c.SaltOpt, nmSalts, "-S", "--salt")
	set := func(n int, from []string, name string) {
		if n >= 0 {
			env = append(env, name+"="+from[n])
		}
	}
	set(c.PfkEnv, nmPfks, "KRYPTO_PFK")
	set(c.PwEnv, nmPws, "KRYPTO_PASSWORD")
	set(c.SaltEnv, nmSalts, "KRYPTO_SALT")
	return
}

// others are the keys a store could be under by one of the secrets named, but
// not by the one meant.
func (c nmSecret) others(meant string) []string {
	seen := map[string]bool{meant: true}
	var o []string
	add := func(k string) {
		if !seen[k] {
			seen[k] = true
			o = append(o, k)
		}
	}
	add(pfkHex)
	add(pfkHex2)
	salts := []string{krypto431.DefaultSalt}
	for _, n := range []int{c.SaltOpt, c.SaltEnv} {
		if n == 0 || n == 1 {
			salts = append(salts, nmSalts[n])
		}
	}
	var pws []string
	for _, n := range []int{c.PwOpt, c.PwEnv} {
		if n >= 0 {
			pws = append(pws, nmPws[n])
		}
	}
	if c.Typed {
		pws = append(pws, chNewPw)
	}
	for _, pw := range pws {
		for _, s := range salts {
			add(derived(pw, s))
		}
	}
	return o
}

var nmSealed = map[string][]byte{}

func nmSeal(r *kit.Run, pfk string) []byte {
	if nmSealed[pfk] == nil {
		dir, done := r.Dir()
		defer done()
		f := filepath.Join(dir, "s")
		sealed(r, f, 1, pfk)
		b, err := os.ReadFile(f)
		kit.Must(err)
		nmSealed[pfk] = b
	}
	return nmSealed[pfk]
}

func execNmSecret(r *kit.Run, c nmSecret) error {
	meant, ok := c.means()
	opts, more := c.line()
	var cmd []string
	stdin := ""
	change := false
	opening := true
	switch c.Cmd {
	case "list":
		cmd = []string{"keys", "-l"}
	case "generate":
		cmd, change = []string{"keys", "-n", "1"}, true
	case "send":
		cmd, change = []string{"messages", "-n"}, true
		stdin = "AA DE BB 041200 = RECEIVED = K"
	case "init":
		cmd, change, opening = []string{"init", "-c", "QQ", "-n", "1"}, true, false
	case "init -y":
		cmd, change, opening = []string{"init", "-y", "-c", "QQ"}, true, false
	case "change":
		cmd, change = []string{"pfk", "-y", "-k", strings.Repeat("c3", 32)}, true
	}
	what := strings.Join(append(append(append([]string{}, more...), opts...), cmd...), " ")
	if c.Typed {
		what += " and " + chNewPw + " typed"
	}
	under := []string{meant}
	if !ok {
		under[0] = pfkHex
	}
	if opening {
		under = append(under, c.others(meant)...)
	}
	for _, pfk := range under {
		err := func() error {
			dir, done := r.Dir()
			defer done()
			store := filepath.Join(dir, "store")
			if c.Cmd != "init" {
				kit.Must(os.WriteFile(store, nmSeal(r, pfk), 0600))
			}
			before := tree(dir)
			args := append(append([]string{}, opts...), "-f", store)
			if c.Cmd == "change" {
				args = append([]string{}, opts...)
				args = append(append(args, cmd...), "-c", store)
			} else {
				args = append(args, cmd...)
			}
			sp := cli(dir, stdin, args...)
			sp.Env = append(append([]string{}, sp.Env...), more...)
			var res fault.Result
			if c.Typed {
				p := "decryption key: "
				if !opening {
					p = "encryption key: "
				}
				script := []say{{Wait: p, Send: chNewPw + enter}}
				if !opening {
					script = append(script, say{Wait: "(repeat) ", Send: chNewPw + enter})
				}
				res = talk(sp, script...)
			} else {
				res = plain(sp)
			}
			r.Step(1)
			r.StateOf(c.Cmd, ok, pfk == meant, res.Code)
			if err := crashed(res); err != nil {
				return kit.Fail("%s: %v", what, err)
			}
			good := ok && (pfk == meant || !opening)
			if !good {
				if res.Code == 0 {
					if !ok {
						return kit.Fail("%s: no secret that can be used is named, and the program succeeds: %s", what, trunc(res.Out+res.Err))
					}
					return kit.Fail("%s: the key meant is %s, and a store under %s is opened", what, meant, pfk)
				}
				if after := tree(dir); after != before {
					return kit.Fail("%s: refused, and the files changed:\n%s\n---\n%s", what, before, after)
				}
				return nil
			}
			if res.Code != 0 {
				return kit.Fail("%s: a store under the key meant is refused: %s", what, trunc(res.Out+res.Err))
			}
			if !change {
				if after := tree(dir); after != before {
					return kit.Fail("%s: the files changed:\n%s\n---\n%s", what, before, after)
				}
				return nil
			}
			end := meant
			if c.Cmd == "change" {
				end = strings.Repeat("c3", 32)
			}
			k, err := openAs(store, end)
			if err != nil {
				return kit.Fail("%s: afterwards the store does not open with the key meant, %s: %v", what, end, err)
			}
			if !opening && string(k.CallSign) != "QQ" {
				return kit.Fail("%s: succeeds and makes no store", what)
			}
			return nil
		}()
		if err != nil {
			return err
		}
	}
	return nil
}

func enumNmSecret(r *kit.Run, yield func(nmSecret) bool) {
	// one or two ways to name each
	pfks := [][2]int{{-1, -1}, {0, -1}, {-1, 0}, {1, 0}, {0, 1}, {0, 2}, {0, 3}, {3, 0}, {2, -1}, {-1, 2}, {2, 0}, {4, 1}}
	pws := [][2]int{{-1, -1}, {0, -1}, {-1, 0}, {1, 0}, {0, 1}, {0, 2}, {-1, 2}, {2, 1}}
	salts := [][2]int{{-1, -1}, {0, -1}, {-1, 0}, {1, 0}, {0, 2}, {-1, 2}, {2, 0}, {3, 0}, {0, 4}, {-1, 3}}
	for _, cmd := range []string{"init", "init -y", "list", "generate", "send", "change"} {
		for pi, p := range pfks {
			for wi, w := range pws {
				for si, s := range salts {
					for form := 0; form < 3; form++ {
						if !r.Thorough() {
							if form > 0 && (pi+wi+si)%3 != form {
								continue
							}
							if cmd != "init" && cmd != "list" && (form > 0 || pi > 5 || wi > 4 || si > 5) {
								continue
							}
							if pi > 1 && wi > 2 && si > 1 {
								continue // refused whatever the salt
							}
						}
						c := nmSecret{PfkOpt: p[0], PfkEnv: p[1], PwOpt: w[0], PwEnv: w[1], SaltOpt: s[0], SaltEnv: s[1], Cmd: cmd, Form: form}
						if !yield(c) {
							return
						}
					}
				}
			}
		}
	}
}

func enumNmTyped(r *kit.Run, yield func(nmSecret) bool) {
	salts := [][2]int{{-1, -1}, {0, -1}, {-1, 0}, {1, 0}, {0, 2}, {0, 4}, {0, 1}}
	for _, cmd := range []string{"init", "init -y", "list", "generate", "change"} {
		for _, s := range salts {
			for form := 0; form < kit.Pick(r, 1, 3); form++ {
				c := nmSecret{PfkOpt: -1, PfkEnv: -1, PwOpt: -1, PwEnv: -1, SaltOpt: s[0], SaltEnv: s[1], Cmd: cmd, Form: form, Typed: true}
				if !yield(c) {
					return
				}
			}
		}
	}
}

// ---------------------------------------------------------------- odd lines

// nmLine is a command line with something in it that can not be understood.
type nmLine struct {
	Args []string
	Help bool // asks for help: nothing may happen, and no secret is needed
	Any  bool // may be either
}

var nmFlags = map[string][]string{ // takes a value, number, none
	"":         {"file s", "f s", "salt s", "S s", "pfk s", "K s", "password s", "P s", "minimum-entropy f", "M f"},
	"init":     {"yes b", "y b", "call s", "c s", "keys i", "n i", "expire s", "x s", "keepers s", "k s", "key-length i", "l i", "groupsize i", "g i", "key-columns i", "columns i"},
	"pfk":      {"gen-pfk b", "g b", "gen-salt b", "G b", "random b", "r b", "change s", "c s", "p s", "new-salt s", "s s", "new-pfk s", "k s", "old s", "P s", "new s", "N s", "yes b", "y b"},
	"keys":     {"list b", "l b", "new i", "n i", "expire s", "x s", "delete b", "d b", "import s", "I s", "export s", "E s", "output s", "o s", "type s", "t s", "keepers s", "k s", "or b", "id s", "i s", "all b", "valid i", "invalid b", "expired b", "compromised b", "C b", "used b", "u b", "unused b", "U b", "yes b", "y b"},
	"messages": {"list b", "l b", "new b", "n b", "delete b", "d b", "output s", "o s", "type s", "to s", "t s", "from s", "f s", "id s", "i s", "or b", "all b", "yes b", "y b"},
}

var nmChanging = map[string][]string{
	"init": {"init", "-y", "-c", "QQ"}, "keys": {"keys", "-n", "1"}, "messages": {"messages", "-n"}, "pfk": {"pfk", "-c", "STORE", "-y", "-k", pfkHex2},
}

func execNmLine(r *kit.Run, c nmLine) error {
	dir, done := r.Dir()
	defer done()
	store := filepath.Join(dir, "store")
	kit.Must(os.WriteFile(store, nmSeal(r, pfkHex), 0600))
	kit.Must(os.WriteFile(filepath.Join(dir, ".krypto431.gob"), nmSeal(r, pfkHex), 0600))
	before := tree(dir)
	var args []string
	for _, a := range c.Args {
		args = append(args, strings.Replace(a, "STORE", store, 1))
	}
	sp := cli(dir, "AA DE BB 041200 = RECEIVED = K", args...)
	if !c.Help {
		sp.Env = append(append([]string{}, sp.Env...), "KRYPTO_PFK="+pfkHex)
	}
	res := plain(sp)
	r.Step(1)
	r.StateOf(c.Help, len(c.Args), res.Code, len(res.Out) > 0)
	what := strings.Join(c.Args, " ")
	if err := crashed(res); err != nil {
		return kit.Fail("%q: %v", what, err)
	}
	if after := tree(dir); after != before {
		return kit.Fail("%q can not be understood, and changes files:\n%s\n---\n%s", what, before, after)
	}
	switch {
	case c.Any:
	case c.Help && res.Code != 0:
		return kit.Fail("%q: asked for help, and fails: %s", what, trunc(res.Err))
	case c.Help && res.Out == "":
		return kit.Fail("%q: asked for help, and says nothing", what)
	case !c.Help && res.Code == 0:
		return kit.Fail("%q can not be understood, and succeeds: %s", what, trunc(res.Out))
	}
	return nil
}

func enumNmLine(r *kit.Run, yield func(nmLine) bool) {
	dash := func(f string) string {
		if len(f) == 1 {
			return "-" + f
		}
		return "--" + f
	}
	base := []string{"-f", "STORE"}
	for _, cmd := range []string{"init", "keys", "messages", "pfk"} {
		do := nmChanging[cmd]
		put := func(in ...string) []string { // before the command
			return append(append(append([]string{}, base...), in...), do...)
		}
		end := func(in ...string) []string { // behind it
			return append(append(append([]string{}, base...), do...), in...)
		}
		front := func(in ...string) []string { // first of its options
			a := append(append([]string{}, base...), do[0])
			return append(append(a, in...), do[1:]...)
		}
		for _, where := range []string{"", cmd} {
			for _, f := range nmFlags[where] {
				name, kind, _ := strings.Cut(f, " ")
				var odd [][]string
				switch kind {
				case "s":
					odd = [][]string{{dash(name)}}
				case "i":
					odd = [][]string{{dash(name)}, {dash(name), "x"}, {dash(name) + "="}, {dash(name), "1.5"}, {dash(name), ""}, {dash(name), "99999999999999999999"}, {dash(name) + "=x"}}
				case "f":
					odd = [][]string{{dash(name)}, {dash(name), "x"}, {dash(name), ""}, {dash(name), "1,5"}}
				case "b":
					odd = [][]string{{dash(name) + "=x"}, {dash(name) + "=2"}, {dash(name) + "=yes"}}
				}
				for _, o := range odd {
					if where != "" {
						if !yield(nmLine{Args: end(o...)}) {
							return
						}
						if len(o) > 1 || kind != "s" && strings.Contains(o[0], "=") {
							if !yield(nmLine{Args: front(o...)}) {
								return
							}
						}
					} else if len(o) > 1 {
						if !yield(nmLine{Args: put(o...)}) {
							return
						}
					}
				}
			}
		}
		for _, u := range []string{"--unknown", "-q", "-z", "--unknown=1", "--yess", "---yes", "--", "-"} {
			if u == "--" || u == "-" {
				continue // ends the options
			}
			for _, a := range [][]string{put(u), end(u), front(u)} {
				if !yield(nmLine{Args: a}) {
					return
				}
			}
		}
		for _, h := range []string{"-h", "--help", "h", "help", "--generate-bash-completion"} {
			if h == "h" || h == "help" {
				if !yield(nmLine{Args: append(append([]string{}, base...), h, cmd), Help: true}) {
					return
				}
				continue
			}
			for _, a := range [][]string{put(h), end(h), front(h), {cmd, h}, {h}} {
				if h == "--generate-bash-completion" && a[len(a)-1] != h {
					continue
				}
				if !yield(nmLine{Args: a, Help: true}) {
					return
				}
			}
		}
		for _, v := range []string{"-v", "--version"} {
			if !yield(nmLine{Args: put(v), Any: true}) {
				return
			}
		}
	}
	for _, a := range [][]string{{}, {"keys"}, {"messages"}, {"pfk"}, {"k"}, {"m"}, {"msg"}} {
		if !yield(nmLine{Args: append(append([]string{}, base...), a...), Help: true}) {
			return
		}
	}
	for _, a := range [][]string{{"key"}, {"initialise"}, {"message", "-n"}, {"-n"}, {"K"}} {
		if !yield(nmLine{Args: append(append([]string{}, base...), a...)}) {
			return
		}
	}
}

// ---------------------------------------------------------------- other names

// nmAlias: a command or option by another of its names does the same.
type nmAlias struct{ A, B []string }

var nmNoise = regexp.MustCompile(`\b[A-Z]{5}\b|(ID: |Saved message )\w{4}\b`)

func execNmAlias(r *kit.Run, c nmAlias) error {
	var outs [2]string
	for i, a := range [][]string{c.A, c.B} {
		dir, done := r.Dir()
		err := func() error {
			defer done()
			kit.Must(os.WriteFile(filepath.Join(dir, "store"), nmSeal(r, pfkHex), 0600))
			kit.Must(os.WriteFile(filepath.Join(dir, "other"), nmStoreBytes(r, "WORKA", "mWRA"), 0600))
			sp := cli(dir, "AA DE BB 041200 = RECEIVED = K", a...)
			sp.Env = append(append([]string{}, sp.Env...), "KRYPTO_PFK="+pfkHex, "KRYPTO_FILE=store")
			res := plain(sp)
			r.Step(1)
			if err := crashed(res); err != nil {
				return kit.Fail("%v: %v", a, err)
			}
			o := fmt.Sprintf("exit %d\n%s\n%s\n", res.Code, res.Out, res.Err)
			for _, f := range []string{"store", "other", "new", "new.txt"} {
				if b, err := os.ReadFile(filepath.Join(dir, f)); err == nil && f == "new.txt" {
					o += string(b)
				}

				if k, err := openAs(filepath.Join(dir, f), pfkHex); err == nil {
					o += fmt.Sprintf("%s: %d keys, %d messages, %s %d %d\n", f, len(k.Keys), len(k.Messages), string(k.CallSign), k.GroupSize, k.KeyLength)
					for j := range k.Keys {
						x := &k.Keys[j]
						o += fmt.Sprintln(len(x.Runes), x.JoinKeepers(","), x.Used, x.Compromised, x.Expires.Time.Year())
					}
				}
			}
			outs[i] = nmNoise.ReplaceAllString(strings.ReplaceAll(o, dir, "DIR"), "?????")
			return nil
		}()
		if err != nil {
			return err
		}
	}
	r.StateOf(outs[0])
	if outs[0] != outs[1] {
		return kit.Fail("%v and %v are the same and do not do the same:\n%s---\n%s", c.A, c.B, outs[0], outs[1])
	}
	return nil
}

// One line per option: the names it has, a value, and what it is used with.
var nmAliases = []struct{ Cmd, Names, Value, With string }{
	{"", "f file", "other", "keys -l"},
	{"", "K pfk", pfkHex2, "keys -l"},
	{"", "K pfk", pfkHex, "keys -l"},
	{"", "S salt", chSalt1[:62], "keys -l"},
	{"", "S salt", chSalt1, "keys -l"},
	{"", "P password", chOldPw, "keys -l"},
	{"", "M minimum-entropy", "1", "keys -l"},
	{"init", "y yes", "", "-c QQ"},
	{"init", "c call", "QQ", "-y"},
	{"init", "n keys", "3", "-y -c QQ"},
	{"init", "x expire", "310000ZDEC40", "-y -c QQ -n 1"},
	{"init", "k keepers", "BB", "-y -c QQ -n 1"},
	{"init", "l key-length", "40", "-y -c QQ -n 1"},
	{"init", "g groupsize", "4", "-y -c QQ -n 1"},
	{"keys", "l list", "", ""},
	{"keys", "n new", "2", "-k BB"},
	{"keys", "x expire", "310000ZDEC40", "-n 1"},
	{"keys", "d delete", "", "-y -i AABMM"},
	{"keys", "y yes", "", "-d -i AABMM"},
	{"keys", "i id", "AABMM", "-l"},
	{"keys", "E export", "new", "--all"},
	{"keys", "o output", "new.txt", "--all"},
	{"keys", "t type", "txt", "-o new.txt --all"},
	{"keys", "t type", "bad", "-o new.txt --all"},
	{"keys", "k keepers", "BB", "-l"},
	{"keys", "k keepers", "DD", "-l"},
	{"keys", "C compromised", "", "-l"},
	{"keys", "u used", "", "-l"},
	{"keys", "U unused", "", "-l"},
	{"messages", "l list", "", ""},
	{"messages", "n new", "", ""},
	{"messages", "d delete", "", "-y -i m001"},
	{"messages", "y yes", "", "-d -i m001"},
	{"messages", "o output", "new.txt", "--all"},
	{"messages", "t to", "BB", "-l"},
	{"messages", "f from", "BB", "-l"},
	{"messages", "f from", "S1", "-l"},
	{"messages", "i id", "m001", "-l"},
	{"pfk", "c change", "other", "-y -k " + pfkHex2},
	{"pfk", "p change", "other", "-y -k " + pfkHex2},
	{"pfk", "y yes", "", "-c other -k " + pfkHex2},
	{"pfk", "k new-pfk", pfkHex2, "-y -c other"},
	{"pfk", "N new", chOldPw, "-y -c other"},
	{"pfk", "P old", chOldPw, "-y -c other -k " + pfkHex2},
	{"pfk", "s new-salt", chSalt1[:62], "-y -c other -k " + pfkHex2},
	{"pfk", "s new-salt", "default", "-y -c other -k " + pfkHex2},
}

var nmCmdNames = map[string][]string{"": {""}, "init": {"init", "initialize"}, "keys": {"keys", "k"}, "messages": {"messages", "m", "msg"}, "pfk": {"pfk"}}

func enumNmAlias(r *kit.Run, yield func(nmAlias) bool) {
	for _, a := range nmAliases {
		names := strings.Fields(a.Names)
		var forms [][]string
		for _, n := range names {
			d := "--" + n
			if len(n) == 1 {
				d = "-" + n
			}
			if a.Value == "" {
				forms = append(forms, []string{d}, []string{d + "=true"})
			} else {
				forms = append(forms, []string{d, a.Value}, []string{d + "=" + a.Value})
			}
		}
		var first []string
		for _, cmd := range nmCmdNames[a.Cmd] {
			for _, f := range forms {
				var l []string
				if cmd != "" {
					l = append(l, cmd)
				}
				l = append(append(l, f...), strings.Fields(a.With)...)
				if first == nil {
					first = l
					continue
				}
				if !yield(nmAlias{first, l}) {
					return
				}
				if cmd != "" { // behind the others
					l = append(append([]string{cmd}, strings.Fields(a.With)...), f...)
					if !yield(nmAlias{first, l}) {
						return
					}
				}
			}
		}
	}
}

func init() {
	kit.Register(&kit.Prop{
		ID: "C29", Level: "model_checking",
		Rule:   "the store, key, password and salt used are those named, option before environment before default; a command line that can not be understood, or asks for help, changes nothing",
		Bounds: "15 ways to name a store by option x 16 in the environment x 4 spellings x 3 states of HOME x 11 commands, with nine stores present; keys, passwords and salts given by option, environment, both or neither, good and bad, x 6 commands, each on stores under every other key that was named; every option of every command with every kind of bad value, at every place; every option under each of its names",
		Families: []*kit.Family{
			kit.F("stores", "all ways to name a store", enumNmFile, execNmFile).W(3),
			kit.F("secrets", "all ways to name a secret", enumNmSecret, execNmSecret).W(5),
			kit.F("typed", "a typed password and all ways to name a salt", enumNmTyped, execNmSecret),
			kit.F("lines", "all command lines with one thing that can not be understood, and all that ask for help", enumNmLine, execNmLine),
			kit.F("names", "all names of all commands and options", enumNmAlias, execNmAlias),
		},
	})
}
