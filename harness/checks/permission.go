package checks

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/sa6mwa/krypto431"
	"verif/fault"
	"verif/kit"
)

// ---------------------------------------------------------------- targets

const innocent = "something else, not a store\n"

// What may be found where a store is about to be made.
var targetKinds = []string{"absent", "file", "empty", "store", "foreign store", "link", "dangling link", "directory", "read-only", "link to a store", "second name", "missing directory", "self"}

// layTarget makes it, as dir/t/x, and returns whether it exists and whether
// something can be saved there at all.
func layTarget(dir, kind string) (exists, possible bool) {
	t := filepath.Join(dir, "t")
	kit.Must(os.Mkdir(t, 0700))
	x := filepath.Join(t, "x")
	write := func(p string, b []byte, mode os.FileMode) {
		kit.Must(os.WriteFile(p, b, 0600))
		kit.Must(os.Chmod(p, mode))
	}
	seal := func(p, pfk string) { sealed(nil, p, 1, pfk) }
	switch kind {
	case "absent", "missing directory", "self":
		return kind == "self", kind != "missing directory"
	case "file":
		write(x, []byte(innocent), 0644)
	case "empty":
		write(x, nil, 0600)
	case "store":
		seal(x, pfkHex)
	case "foreign store":
		seal(x, pfkHex2)
	case "link":
		write(filepath.Join(t, "y"), []byte(innocent), 0644)
		kit.Must(os.Symlink("y", x))
	case "dangling link":
		kit.Must(os.Symlink("y", x))
		return false, true
	case "directory":
		kit.Must(os.Mkdir(x, 0755))
		write(filepath.Join(x, "z"), []byte(innocent), 0644)
		return true, false
	case "read-only":
		write(x, []byte(innocent), 0444)
	case "link to a store":
		seal(filepath.Join(t, "y"), pfkHex)
		kit.Must(os.Symlink(filepath.Join(t, "y"), x))
	case "second name":
		write(filepath.Join(t, "y"), []byte(innocent), 0600)
		kit.Must(os.Link(filepath.Join(t, "y"), x))
	}
	return true, true
}

// tree describes all there is below dir.
func tree(dir string) string {
	var l []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		s := strings.TrimPrefix(p, dir) + " " + fi.Mode().String()
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			to, _ := os.Readlink(p)
			s += " -> " + to
		case fi.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			s += fmt.Sprintf(" %x", kit.Hash(string(b)))
		}
		l = append(l, s)
		return nil
	})
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// ---------------------------------------------------------------- programs

type targetCase struct {
	Cmd    string // init, init keys, export, export one
	Kind   string
	Yes    bool   // -y
	Answer string // on a terminal: y, n, enter, interrupt; empty: no terminal
	Path   string // abs, rel, home, env, dots
	Stdin  string // what is on standard input when it is no terminal
}

var targetCmds = []string{"init", "init keys", "export", "export one"}

func execTarget(r *kit.Run, c targetCase) error {
	dir, done := r.Dir()
	defer done()
	src := filepath.Join(dir, "src")
	sealed(r, src, 1, pfkHex)
	exists, possible := layTarget(dir, c.Kind)
	abs := filepath.Join(dir, "t", "x")
	if c.Kind == "missing directory" {
		abs = filepath.Join(dir, "t", "u", "x")
	}
	if c.Kind == "self" {
		abs = src
	}
	rel, err := filepath.Rel(dir, abs)
	kit.Must(err)
	path := abs
	switch c.Path {
	case "rel":
		path = rel
	case "home":
		path = "~/" + rel
	case "dots":
		path = filepath.Dir(abs) + "/../" + filepath.Base(filepath.Dir(abs)) + "//./" + filepath.Base(abs)
	}
	args := []string{"-K", pfkHex}
	var env []string
	k := stateStore(1)
	want := map[string]bool{}
	switch c.Cmd {
	case "init", "init keys":
		if c.Path == "env" {
			env = append(env, "KRYPTO_FILE="+path)
		} else {
			args = append(args, "-f", path)
		}
		args = append(args, "init", "-c", "QQ", "-l", "50")
		if c.Cmd == "init keys" {
			args = append(args, "-n", "2")
		}
	case "export", "export one":
		args = append(args, "-f", src, "keys", "-E", path)
		if c.Cmd == "export one" {
			args = append(args, "-i", string(k.Keys[1].Id))
			want[string(k.Keys[1].Id)] = true
		} else {
			args = append(args, "--all")
			for i := range k.Keys {
				want[string(k.Keys[i].Id)] = true
			}
		}
	}
	if c.Yes {
		args = append(args, "-y")
	}
	before, srcBefore := tree(dir), ""
	if b, err := os.ReadFile(src); err == nil {
		srcBefore = string(b)
	}
	sp := cli(dir, c.Stdin, args...)
	sp.Env = append(append([]string{}, sp.Env...), env...)
	var res fault.Result
	if c.Answer == "" {
		res = plain(sp)
	} else {
		a := map[string]string{"y": "y" + enter, "n": "n" + enter, "enter": enter, "interrupt": "\x03", "Yes": "Yes" + enter, "no": "NO" + enter}[c.Answer]
		res = talk(sp, say{"Overwrite ", a, true})
	}
	r.Step(1)
	r.StateOf(c.Cmd, c.Kind, c.Yes, c.Answer, res.Code)
	what := fmt.Sprintf("%s to %s (%s) -y=%v answer %q", c.Cmd, c.Kind, path, c.Yes, c.Answer)
	if res.Hung || strings.Contains(res.Out+res.Err, "goroutine ") {
		return kit.Fail("%s: the program hangs or crashes: %s", what, trunc(res.Out+res.Err))
	}
	allowed := !exists || c.Yes || c.Answer == "y" || c.Answer == "Yes"
	if c.Answer != "" && !c.Yes && exists && res.Err != "" {
		return kit.Fail("%s: the operator is not asked: %s", what, trunc(res.Out))
	}
	after := tree(dir)
	if !allowed || !possible {
		if after != before {
			return kit.Fail("%s: not allowed or possible, and the files changed:\n%s\n---\n%s", what, before, after)
		}
		if res.Code == 0 {
			return kit.Fail("%s: not allowed or possible, and no error is reported: %s", what, trunc(res.Out+res.Err))
		}
		return nil
	}
	if res.Code != 0 {
		if c.Kind == "dangling link" && after == before {
			return nil
		}
		return kit.Fail("%s: fails: %s", what, strings.TrimSpace(res.Err+res.Out))
	}
	n, err := openAs(abs, pfkHex)
	if err != nil {
		return kit.Fail("%s: the file is no store afterwards: %v", what, err)
	}
	got := map[string]bool{}
	for i := range n.Keys {
		got[string(n.Keys[i].Id)] = true
	}
	if len(want) > 0 {
		if fmt.Sprint(got) != fmt.Sprint(want) || len(n.Keys) != len(want) {
			return kit.Fail("%s: holds %v, wanted %v", what, got, want)
		}
	} else if string(n.CallSign) != "QQ" || len(n.Keys) != map[string]int{"init": 0, "init keys": 2}[c.Cmd] {
		return kit.Fail("%s: holds %s and %d keys", what, string(n.CallSign), len(n.Keys))
	}
	if b, _ := os.ReadFile(src); string(b) != srcBefore && c.Kind != "self" {
		return kit.Fail("%s: the store exported from changed", what)
	}
	// nothing but the target changed
	if !c.onlyTarget(before, after, exists) {
		return kit.Fail("%s: more than the target changed:\n%s\n---\n%s", what, before, after)
	}
	return nil
}

// onlyTarget: lines of the tree that differ are of the target, which may be
// named x, or be what the link of this name points to.
func (c targetCase) onlyTarget(before, after string, exists bool) bool {
	names := map[string]bool{"/t/x": true, "/t": true}
	if strings.Contains(c.Kind, "link") {
		names["/t/y"] = true
	}
	if c.Kind == "self" {
		names["/src"] = true
	}
	in := map[string]bool{}
	for _, l := range strings.Split(before, "\n") {
		in[l] = true
	}
	out := map[string]bool{}
	for _, l := range strings.Split(after, "\n") {
		out[l] = true
		if n, _, _ := strings.Cut(l, " "); !in[l] && !names[n] {
			return false
		}
	}
	for l := range in {
		if n, _, _ := strings.Cut(l, " "); !out[l] && !names[n] {
			return false
		}
	}
	return true
}

func enumTargets(r *kit.Run, yield func(targetCase) bool) {
	for i, cmd := range targetCmds {
		for j, kind := range targetKinds {
			if kind == "self" && strings.HasPrefix(cmd, "init") {
				// it is the store then
			}
			for l, path := range []string{"abs", "rel", "home", "env", "dots"} {
				if path == "env" && strings.HasPrefix(cmd, "export") {
					continue
				}
				for _, yes := range []bool{false, true} {
					for a, answer := range []string{"", "y", "n", "enter", "interrupt", "Yes", "no"} {
						if answer != "" && (yes || kind == "absent" || kind == "missing directory" || kind == "dangling link") {
							continue // no question
						}
						if answer != "" && !r.Thorough() && l != (i+j+a)%5 && path != "abs" {
							continue
						}
						for s, in := range []string{"", "y\n", "yes\ny\ny\n"} {
							if s > 0 && (answer != "" || path != "abs") {
								continue
							}
							if !yield(targetCase{cmd, kind, yes, answer, path, in}) {
								return
							}
						}
					}
				}
			}
		}
	}
}

// ---------------------------------------------------------------- instances

// What an instance is asked to do, over three files: A and B are stores, X
// is none, C and D do not exist.
var permOps = []string{"load A", "load B", "load X", "wrong A", "wrong B", "set A", "set B", "set C", "set X", "save", "import A", "export B", "export C", "gone B"}

type permCase struct {
	Overwrite bool
	First     string
	Ops       []int
	SameName  bool `json:",omitempty"`
}

func execPerm(r *kit.Run, c permCase) error {
	dir, done := r.Dir()
	defer done()
	// files of one name, in a directory each, or of different names
	file := func(n string) string { return filepath.Join(dir, n) }
	if c.SameName {
		for _, n := range []string{"A", "B", "C", "X"} {
			kit.Must(os.Mkdir(file(n), 0700))
		}
		file = func(n string) string { return filepath.Join(dir, n, "store") }
	}
	for i, n := range []string{"A", "B"} {
		kit.Must(os.WriteFile(file(n), stateBytes(r, 1+i), 0600))
	}
	kit.Must(os.WriteFile(file("X"), []byte(innocent), 0600))
	k := blank(5, 50, "QQ")
	o := []krypto431.Option{krypto431.WithPersistence(file(c.First)), krypto431.WithOverwritePersistenceIfExists(c.Overwrite)}
	for _, x := range o {
		x(k)
	}
	kit.Must(k.SetPFKFromString(pfkHex))
	path, loaded, made, vague := c.First, "", map[string]bool{}, map[string]bool{}
	what := fmt.Sprintf("overwriting asked for: %v, at %s", c.Overwrite, c.First)
	read := func() map[string]string {
		o := map[string]string{}
		l, err := os.ReadDir(dir)
		kit.Must(err)
		for _, e := range l {
			b, err := os.ReadFile(file(e.Name()))
			if os.IsNotExist(err) && c.SameName {
				continue
			}
			kit.Must(err)
			o[e.Name()] = string(b)
		}
		return o
	}
	same := func(a, b map[string]string, except string) string {
		for n := range a {
			if v, ok := b[n]; n != except && (!ok || v != a[n]) {
				return n
			}
		}
		for n := range b {
			if _, ok := a[n]; n != except && !ok {
				return n
			}
		}
		return ""
	}
	for _, op := range c.Ops {
		verb, arg, _ := strings.Cut(permOps[op], " ")
		what += ", " + permOps[op]
		before := read()
		_, exists := before[path]
		touched := ""
		switch verb {
		case "load", "wrong":
			k.SetPersistence(file(arg))
			path = arg
			if verb == "wrong" {
				kit.Must(k.SetPFKFromString(pfkHex2))
			}
			err := k.Load()
			kit.Must(k.SetPFKFromString(pfkHex))
			ok := verb == "load" && before[arg] != innocent
			if _, there := before[arg]; !there {
				ok = false
			}
			if (err == nil) != ok {
				return kit.Fail("%s: %v", what, err)
			}
			if ok {
				if loaded != "" && loaded != arg {
					vague[loaded] = true
				}
				loaded = arg
				delete(vague, arg)
			} else if loaded == arg {
				vague[arg] = true
			}
		case "set":
			k.SetPersistence(file(arg))
			path = arg
		case "gone":
			os.Remove(file(arg))
			touched = arg
		case "import":
			_, err := k.ImportKeys(func(*Key) bool { return true }, krypto431.WithPersistence(file(arg)), krypto431.WithPFK(k.GetPFK()))
			if err != nil && !made["A"] && !made["B"] && loaded == "" {
				// keys that are there already
				r.Count("refused imports", 1)
			}
		case "export":
			x := k.ExportKeys(func(*Key) bool { return true }, krypto431.WithPersistence(file(arg)))
			_, there := before[arg]
			err := x.Save()
			if there && err == nil {
				return kit.Fail("%s: no error, and the file existed", what)
			}
			if !there && err != nil {
				return kit.Fail("%s: %v", what, err)
			}
			if !there {
				touched = arg
			}
		case "save":
			err := k.Save()
			switch {
			case !exists, c.Overwrite, loaded == path && !vague[path]:
				if err != nil {
					return kit.Fail("%s: allowed, and fails: %v", what, err)
				}
			case vague[path] || made[path]:
				// either
			default:
				if err == nil {
					return kit.Fail("%s: an existing file, not the one loaded, is overwritten without having been asked for", what)
				}
			}
			if err == nil {
				touched = path
				made[path] = true
				n, err := openAs(file(path), pfkHex)
				if err != nil {
					return kit.Fail("%s: is no store: %v", what, err)
				}
				if d := diff(storeSnap(k), storeSnap(n)); d != "" {
					return kit.Fail("%s: %s", what, d)
				}
			}
		}
		r.Step(1)
		if n := same(before, read(), touched); n != "" {
			return kit.Fail("%s: the file %s changed", what, n)
		}
	}
	r.StateOf(c.Overwrite, path, loaded, len(made), len(vague), len(read()))
	return nil
}

func enumPerm(r *kit.Run, yield func(permCase) bool) {
	for _, f := range []string{"A", "C", "X"} {
		for _, o := range []bool{false, true} {
			if !sequences(len(permOps), 1, kit.Pick(r, 4, 5), func(s []int) bool {
				// what is last is a save, all others are prefixes
				if l := permOps[s[len(s)-1]]; l != "save" && !strings.HasPrefix(l, "export") {
					return true
				}
				if len(s) > 3 && o {
					return true
				}
				if len(s) > 3 { // one or the other
					n := 0
					for _, x := range s {
						n += x
					}
					return yield(permCase{o, f, append([]int(nil), s...), n%2 == 1})
				}
				return yield(permCase{o, f, append([]int(nil), s...), false}) && yield(permCase{o, f, append([]int(nil), s...), true})
			}) {
				return
			}
		}
	}
}

// ---------------------------------------------------------------- settings

type initSettings struct{ Call, Group, KLen, KCol, Cols string } // empty: not given

func intOr(s string, d int) (int, bool) {
	if s == "" {
		return d, true
	}
	n, err := strconv.Atoi(s)
	return n, err == nil
}

// fit is the stated limits.
func (s initSettings) fit() bool {
	g, ok1 := intOr(s.Group, 5)
	l, ok2 := intOr(s.KLen, 350)
	kc, ok3 := intOr(s.KCol, 30)
	c, ok4 := intOr(s.Cols, 110)
	return ok1 && ok2 && ok3 && ok4 && utf8.RuneCountInString(strings.TrimSpace(s.Call)) >= 2 &&
		g >= 1 && l >= 20 && kc >= g && c >= 85
}

type settingsCase struct {
	S      initSettings
	Secret []string // options or NAME=value
	Ok     bool     // the secret can be used
	Keys   string
	Expire string
	ExpOk  bool
	Old    bool // there is a store, -y is given
	Cmd    string
}

func execSettings(r *kit.Run, c settingsCase) error {
	dir, done := r.Dir()
	defer done()
	store := filepath.Join(dir, "store")
	if c.Old {
		sealed(r, store, 1, pfkHex)
	}
	before := tree(dir)
	var env, args []string
	for _, s := range c.Secret {
		if n, _, ok := strings.Cut(s, "="); ok && strings.HasPrefix(n, "KRYPTO_") {
			env = append(env, s)
		} else {
			args = append(args, s)
		}
	}
	args = append(args, "-f", store, "init", "-c", c.S.Call)
	for _, o := range [][2]string{{"-g", c.S.Group}, {"-l", c.S.KLen}, {"--key-columns", c.S.KCol}, {"--columns", c.S.Cols}, {"-n", c.Keys}, {"-x", c.Expire}} {
		if o[1] != "" {
			args = append(args, o[0], o[1])
		}
	}
	if c.Old {
		args = append(args, "-y")
	}
	sp := cli(dir, "", args...)
	sp.Env = append(append([]string{}, sp.Env...), env...)
	res := plain(sp)
	r.Step(1)
	ok := c.S.fit() && c.Ok && (c.ExpOk || c.Expire == "" || c.Keys == "" || c.Keys == "0")
	r.StateOf(ok, c.S.Call, c.S.Group, c.S.KLen, c.S.KCol, c.S.Cols, res.Code)
	what := strings.Join(append(env, args[:len(args)]...), " ")
	if res.Hung || strings.Contains(res.Out+res.Err, "goroutine ") {
		return kit.Fail("%s: the program hangs or crashes: %s", what, trunc(res.Out+res.Err))
	}
	if !ok {
		if res.Code == 0 {
			return kit.Fail("%s: not within the limits, and accepted", what)
		}
		if after := tree(dir); after != before {
			return kit.Fail("%s: not within the limits, refused, and the files changed:\n%s\n---\n%s", what, before, after)
		}
		return nil
	}
	if res.Code != 0 {
		return kit.Fail("%s: within the limits, and refused: %s", what, trunc(res.Err))
	}
	return c.S.check(what, store, c.pfk(), c.Keys)
}

func (c settingsCase) pfk() string {
	pw, salt := "", krypto431.DefaultSalt
	for i, s := range c.Secret {
		next := ""
		if i+1 < len(c.Secret) {
			next = c.Secret[i+1]
		}
		n, v, _ := strings.Cut(s, "=")
		switch {
		case s == "-K":
			return next
		case n == "KRYPTO_PFK":
			return v
		case s == "-P":
			pw = next
		case n == "KRYPTO_PASSWORD":
			pw = v
		case s == "-S":
			salt = next
		case n == "KRYPTO_SALT":
			salt = v
		}
	}
	return derived(pw, salt)
}

func (s initSettings) check(what, store, pfk, keys string) error {
	k, err := openAs(store, pfk)
	if err != nil {
		return kit.Fail("%s: accepted, and the store does not open: %v", what, err)
	}
	g, _ := intOr(s.Group, 5)
	l, _ := intOr(s.KLen, 350)
	kc, _ := intOr(s.KCol, 30)
	cl, _ := intOr(s.Cols, 110)
	n, _ := intOr(keys, 0)
	call := strings.ToUpper(strings.TrimSpace(s.Call))
	if k.GroupSize != g || k.KeyLength != l || k.KeyColumns != kc || k.Columns != cl || string(k.CallSign) != call || len(k.Keys) != n {
		return kit.Fail("%s: accepted, and the store has group size %d, key length %d, key columns %d, columns %d, call-sign %s, %d keys", what, k.GroupSize, k.KeyLength, k.KeyColumns, k.Columns, string(k.CallSign), len(k.Keys))
	}
	for i := range k.Keys {
		if len(k.Keys[i].Runes) != (l+g-1)/g*g || len(k.Keys[i].Id) != g {
			return kit.Fail("%s: a key has %d letters and an identifier of %d", what, len(k.Keys[i].Runes), len(k.Keys[i].Id))
		}
	}
	return nil
}

var (
	setCalls  = []string{"", "AA", "A", " ", " A ", "aa", "Å", "åä", " ab ", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "SM/SA6MWA/P"}
	setGroups = []string{"", "1", "0", "-1", "4", "5", "6", "30", "31", "100", "x", "5.5"}
	setKLens  = []string{"", "19", "20", "21", "0", "-350", "350", "1000", "x"}
	setKCols  = []string{"", "0", "1", "4", "5", "6", "-30", "29", "30", "31", "100", "x"}
	setCols   = []string{"", "84", "85", "86", "0", "-110", "30", "1000", "x"}
)

func keyOpts(hexes ...string) []string { return hexes }

type secretWay struct {
	Opts []string
	Ok   bool
}

func secretWays() []secretWay {
	salt := func(n int) string { return strings.Repeat("5a", n) }
	key := func(n int) string { return strings.Repeat("a5", n) }
	o := []secretWay{{nil, false}}
	for n, ok := range map[int]bool{0: false, 1: false, 16: false, 31: false, 32: true, 33: false, 64: false} {
		o = append(o, secretWay{[]string{"-K", key(n)}, ok})
		if n > 0 {
			o = append(o, secretWay{[]string{"KRYPTO_PFK=" + key(n)}, ok})
		}
	}
	for n, ok := range map[int]bool{0: false, 1: false, 31: false, 32: true, 33: true, 64: true} {
		o = append(o, secretWay{[]string{"-S", salt(n), "-P", chOldPw}, ok}, secretWay{[]string{"-S", salt(n), "-K", pfkHex}, ok})
		if n > 0 {
			o = append(o, secretWay{[]string{"KRYPTO_SALT=" + salt(n), "KRYPTO_PASSWORD=" + chOldPw}, ok})
		}
	}
	for _, bad := range []string{salt(32) + "5", "g" + salt(32)[1:], salt(31) + " 5", "x", salt(32) + " "} {
		o = append(o, secretWay{[]string{"-S", bad, "-P", chOldPw}, false}, secretWay{[]string{"-K", bad}, false}, secretWay{[]string{"-S", bad, "-K", pfkHex}, false})
	}
	o = append(o, secretWay{[]string{"-K", pfkHex, "-P", chOldPw}, false},
		secretWay{[]string{"-P", chOldPw}, true}, secretWay{[]string{"-P", chWeak}, true},
		secretWay{[]string{"-K", strings.ToUpper(key(32))}, true})
	sort.Slice(o, func(i, j int) bool { return fmt.Sprint(o[i]) < fmt.Sprint(o[j]) })
	return o
}

func enumSettings(r *kit.Run, yield func(settingsCase) bool) {
	with := []string{"-K", pfkHex}
	base := settingsCase{Secret: with, Ok: true, Cmd: "init"}
	d := []([]string){setCalls, setGroups, setKLens, setKCols, setCols}
	build := func(ix [5]int) initSettings {
		return initSettings{d[0][ix[0]], d[1][ix[1]], d[2][ix[2]], d[3][ix[3]], d[4][ix[4]]}
	}
	seen := map[initSettings]bool{}
	emit := func(s initSettings, c settingsCase) bool {
		c.S = s
		return yield(c)
	}
	// every pair of settings, the others in order
	for a := 0; a < 5; a++ {
		for b := a + 1; b < 5; b++ {
			for i := range d[a] {
				for j := range d[b] {
					ix := [5]int{1, 0, 0, 0, 0}
					ix[a], ix[b] = i, j
					s := build(ix)
					if seen[s] {
						continue
					}
					seen[s] = true
					c := base
					c.Old = (i+j)%2 == 1
					if (i+j)%3 == 0 && s.KLen != "1000" {
						c.Keys = "1"
					}
					if !emit(s, c) {
						return
					}
				}
			}
		}
	}
	// every triple of the settings that are related
	if r.Thorough() {
		for i := range d[1] {
			for j := range d[3] {
				for l := range d[2] {
					for m := range d[4] {
						s := build([5]int{1, i, l, j, m})
						if seen[s] {
							continue
						}
						seen[s] = true
						if !emit(s, base) {
							return
						}
					}
				}
			}
		}
	}
	for _, w := range secretWays() {
		for _, old := range []bool{false, true} {
			for _, s := range []initSettings{{Call: "AA"}, {Call: "AA", Group: "0"}} {
				if s.Group != "" && !w.Ok {
					continue
				}
				if !yield(settingsCase{S: s, Secret: w.Opts, Ok: w.Ok, Old: old, Cmd: "init"}) {
					return
				}
			}
		}
	}
	for _, e := range []struct {
		x  string
		ok bool
	}{{"011200ZJAN30", true}, {"011200JAN30", true}, {"nonsense", false}, {"321200ZJAN30", false}, {"011200ZXXX30", false}} {
		for _, n := range []string{"1", "2"} {
			for _, old := range []bool{false, true} {
				if !yield(settingsCase{S: initSettings{Call: "AA"}, Secret: with, Ok: true, Keys: n, Expire: e.x, ExpOk: e.ok, Old: old, Cmd: "init"}) {
					return
				}
			}
		}
	}
}

// ---------------------------------------------------------------- dialogue

// initTalk answers the questions of an initialisation on a terminal.
type initTalk struct {
	Call                          string
	Keys, Group, KLen             []string // typed until accepted
	Keepers, Expire               string
	Stop                          int // interrupted at this question, from 1
	Bad                           bool
	WantKeys, WantGroup, WantKLen int
}

func execInitTalk(r *kit.Run, c initTalk) error {
	dir, done := r.Dir()
	defer done()
	store := filepath.Join(dir, "store")
	before := tree(dir)
	sp := cli(dir, "", "-K", pfkHex, "-f", store, "init")
	var script []say
	stop := false
	ask := func(q string, answers ...string) {
		if stop {
			return
		}
		script = append(script, say{q, answers[0] + enter, true})
		if c.Stop == len(script) {
			script[len(script)-1].Send = "\x03"
			stop = true
			return
		}
		for _, a := range answers[1:] {
			// refused: asked again with what was typed gone
			script = append(script, say{"Sorry, your reply was invalid", a + enter, true})
		}
	}
	ask("Enter your call-sign:", c.Call)
	ask("number of initial keys", c.Keys...)
	ask("Enter keepers", c.Keepers)
	ask("Enter expiry date", c.Expire)
	ask("Choose length of keys", c.KLen...)
	ask("Choose group size", c.Group...)
	res := talk(sp, script...)
	r.Step(1)
	what := fmt.Sprintf("init, answers %+v", c)
	r.StateOf(what, res.Code)
	if res.Hung || strings.Contains(res.Out, "goroutine ") {
		return kit.Fail("%s: the program hangs or crashes: %s", what, trunc(res.Out))
	}
	if c.Stop > 0 || c.Bad {
		if res.Code == 0 {
			return kit.Fail("%s: no error is reported: %s", what, trunc(res.Out))
		}
		if after := tree(dir); after != before {
			return kit.Fail("%s: refused, and the files changed:\n%s\n---\n%s", what, before, after)
		}
		return nil
	}
	if res.Err != "" {
		return kit.Fail("%s: was not asked for %s: %s", what, res.Err, trunc(res.Out))
	}
	if res.Code != 0 {
		return kit.Fail("%s: fails: %s", what, trunc(res.Out))
	}
	s := initSettings{Call: c.Call, Group: fmt.Sprint(c.WantGroup), KLen: fmt.Sprint(c.WantKLen)}
	return s.check(what, store, pfkHex, fmt.Sprint(c.WantKeys))
}

func enumInitTalk(r *kit.Run, yield func(initTalk) bool) {
	def := func() initTalk {
		return initTalk{Call: "sa1aa", Keys: []string{""}, Group: []string{""}, KLen: []string{""}, WantGroup: 5, WantKLen: 350}
	}
	var cases []initTalk
	add := func(f func(c *initTalk)) {
		c := def()
		f(&c)
		cases = append(cases, c)
	}
	add(func(c *initTalk) {})
	for _, x := range []string{"A", " å "} {
		add(func(c *initTalk) { c.Call, c.Bad = x, true })
	}
	for _, x := range []string{"aa", " SA/x "} {
		add(func(c *initTalk) { c.Call = x })
	}
	for _, bad := range []string{"-1", "x", "1.5"} {
		add(func(c *initTalk) { c.Keys = []string{bad, "2"}; c.WantKeys = 2 })
	}
	for _, bad := range []string{"19", "0", "-20", "x"} {
		add(func(c *initTalk) { c.KLen = []string{bad, "20"}; c.WantKLen = 20 })
		add(func(c *initTalk) {
			c.KLen = []string{bad, bad, "21"}
			c.WantKLen = 21
			c.Keys = []string{"1"}
			c.WantKeys = 1
		})
	}
	for _, bad := range []string{"0", "-1", "x"} {
		add(func(c *initTalk) { c.Group = []string{bad, "1"}; c.WantGroup = 1 })
	}
	add(func(c *initTalk) { c.Group = []string{"30"}; c.WantGroup = 30 })
	add(func(c *initTalk) { c.Group, c.Bad = []string{"31"}, true })
	add(func(c *initTalk) { c.Expire, c.Bad, c.Keys = "nonsense", true, []string{"1"} })
	add(func(c *initTalk) {
		c.Expire, c.Keys, c.WantKeys, c.Keepers = "011200ZJAN30", []string{"1"}, 1, "bb, cc dd"
	})
	for i := 1; i <= 6; i++ {
		add(func(c *initTalk) { c.Stop = i })
	}
	for _, c := range cases {
		if !yield(c) {
			return
		}
	}
}

// ---------------------------------------------------------------- library

type assertCase struct {
	Group, KLen, KCol, Cols int
	Path                    bool
}

func execAssert(r *kit.Run, c assertCase) error {
	k := blank(5, 350, "AA")
	p := ""
	if c.Path {
		p = "/nonexistent"
	}
	for _, o := range []krypto431.Option{krypto431.WithGroupSize(c.Group), krypto431.WithKeyLength(c.KLen), krypto431.WithKeyColumns(c.KCol), krypto431.WithColumns(c.Cols), krypto431.WithPersistence(p)} {
		o(k)
	}
	want := c.Group >= 1 && c.KLen >= 20 && c.KCol >= c.Group && c.Cols >= 85 && c.Path
	r.Step(1)
	r.StateOf(fmt.Sprint(c))
	if err := k.Assert(); (err == nil) != want {
		return kit.Fail("%+v: assertion says %v", c, err)
	}
	return nil
}

func enumAssert(r *kit.Run, yield func(assertCase) bool) {
	around := []int{-1 << 63, -350, -31, -1, 0, 1, 2, 4, 5, 6, 19, 20, 21, 30, 31, 84, 85, 86, 110, 350, 1<<63 - 1}
	for _, g := range around {
		for _, l := range around {
			for _, kc := range around {
				for _, cl := range around {
					for _, p := range []bool{true, false} {
						if !p && (g+l+kc+cl)%7 != 0 {
							continue
						}
						if !yield(assertCase{g, l, kc, cl, p}) {
							return
						}
					}
				}
			}
		}
	}
}

// setterCase: a secret of n bytes, given to an instance in every way.
type setterCase struct {
	Way string
	N   int
	Odd string // appended
}

func execSetter(r *kit.Run, c setterCase) error {
	dir, done := r.Dir()
	defer done()
	raw := bytes.Repeat([]byte{0xa5}, c.N)
	text := hex.EncodeToString(raw) + c.Odd
	what := fmt.Sprintf("%s with %d bytes %q", c.Way, c.N, c.Odd)
	k := blank(5, 50, "AA")
	k.SetPersistence(filepath.Join(dir, "store"))
	// what was there before
	kit.Must(k.SetPFKFromString(pfkHex))
	kit.Must(k.SetSaltFromString(chSalt1))
	oldKey, oldSalt := k.GetPFKString(), k.GetSaltString()
	salt := strings.Contains(c.Way, "salt")
	good := c.Odd == "" && (c.N == 32 || salt && c.N >= 32)
	var err error
	switch c.Way {
	case "set key":
		err = k.SetPFKFromString(text)
	case "set salt":
		err = k.SetSaltFromString(text)
	case "option key":
		krypto431.WithPFK(&raw)(k)
	case "option key text":
		krypto431.WithPFKString(text)(k)
	case "option salt":
		krypto431.WithSalt(&raw)(k)
	case "option salt text":
		krypto431.WithSaltString(text)(k)
	}
	r.Step(1)
	r.StateOf(c.Way, c.N, c.Odd)
	option := strings.HasPrefix(c.Way, "option")
	if !option && (err == nil) != good {
		return kit.Fail("%s: %v", what, err)
	}
	got := k.GetPFKString()
	was := oldKey
	if salt {
		got, was = k.GetSaltString(), oldSalt
	}
	switch {
	case good && got != hex.EncodeToString(bytes.Repeat([]byte{0xa5}, c.N)):
		return kit.Fail("%s: accepted, and not in effect", what)
	case !good && !option && got != was:
		return kit.Fail("%s: refused, and the one before is gone", what)
	case !good && option && got != "":
		return kit.Fail("%s: refused, and %q is in effect", what, got)
	}
	if salt {
		err = k.SetPFKFromPassword(chOldPw)
		if (err == nil) != (good || !option) {
			return kit.Fail("%s: deriving a key from a password: %v", what, err)
		}
		return nil
	}
	err = k.Save()
	_, there := os.Stat(filepath.Join(dir, "store"))
	if ok := good || !option; (err == nil) != ok || (there == nil) != ok {
		return kit.Fail("%s: saving afterwards: %v, file: %v", what, err, there)
	}
	return nil
}

func enumSetter(r *kit.Run, yield func(setterCase) bool) {
	for _, w := range []string{"set key", "set salt", "option key", "option key text", "option salt", "option salt text"} {
		for n := 0; n <= 70; n++ {
			if strings.Contains(w, "salt") && n > 36 && n != 64 && !r.Thorough() {
				continue
			}
			for _, odd := range []string{"", "a", "g", " ", "ag"} {
				if odd != "" && (w == "option key" || w == "option salt") {
					continue
				}
				if !yield(setterCase{w, n, odd}) {
					return
				}
			}
		}
	}
}

func init() {
	kit.Register(&kit.Prop{
		ID: "C26", Level: "model_checking",
		Rule:   "a file that exists is left as it is, with an error, unless overwriting was asked for, confirmed, or it is the store that was loaded; settings, keys and salts outside the limits are refused and nothing is written; those within are accepted and stored",
		Bounds: "4 commands x 13 kinds of target x -y x no terminal or 6 answers on one x 5 ways to name it; all sequences of 4 (thorough 5) of 14 operations on an instance over 4 files; every pair of 5 settings over 9-12 values each (thorough: all combinations of four), 60 ways to give secrets, all through the program, and all combinations of 21 values of 4 settings through the library; dialogues",
		Assumptions: []string{
			"where an instance loaded several stores one after the other, or wrote a file itself before, saving over the earlier one may be refused or not",
		},
		Families: []*kit.Family{
			kit.F("targets", "all commands, targets, answers", enumTargets, execTarget).W(3),
			kit.F("instances", "all sequences of operations", enumPerm, execPerm).W(3),
			kit.F("settings", "all pairs of settings around their limits, all secrets", enumSettings, execSettings).W(3),
			kit.F("dialogues", "all answers of the initialisation dialogue around the limits, interrupted at every question", enumInitTalk, execInitTalk),
			kit.F("assertion", "all combinations of settings around their limits", enumAssert, execAssert),
			kit.F("secrets", "all lengths of keys and salts, every way to give them", enumSetter, execSetter),
		},
	})
}
