package checks

import (
	"encoding/hex"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/sa6mwa/krypto431"
	"verif/fault"
	"verif/kit"
)

const (
	chSalt1 = "0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f20"
	chSalt2 = "ff02030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f20aabbcc"
	chOldPw = "old PASS word 77 ?"
	chNewPw = "new-Secret/Åäö 4711 xyz"
	chWeak  = "aaa"
)

var chKeys = map[string]string{}

// derived is the persistence key of a password, in hex.
func derived(pw, salt string) string {
	k := pw + "\x00" + salt
	if chKeys[k] == "" {
		s, err := hex.DecodeString(salt)
		kit.Must(err)
		chKeys[k] = hex.EncodeToString(byTheBook([]byte(pw), s, 310000))
	}
	return chKeys[k]
}

// how the present secret is given
type oldWay struct {
	Name   string
	Global []string // global options
	Sub    []string // options of pfk
	Env    []string
	Pfk    func() string // the secret the store is under
	Salt   string        // in effect afterwards
	Ask    string        // typed when asked
	Wrong  bool          // does not open it
}

func onPfk() string    { return pfkHex }
func onPw() string     { return derived(chOldPw, krypto431.DefaultSalt) }
func onPwSalt() string { return derived(chOldPw, chSalt1) }

var oldWays = []oldWay{
	{Name: "key", Global: []string{"-K", pfkHex}, Pfk: onPfk},
	{Name: "password", Global: []string{"-P", chOldPw}, Pfk: onPw},
	{Name: "password and salt", Global: []string{"-P", chOldPw, "-S", chSalt1}, Pfk: onPwSalt, Salt: chSalt1},
	{Name: "old password", Sub: []string{"--old", chOldPw}, Pfk: onPw},
	{Name: "old password and salt", Global: []string{"--salt", chSalt1}, Sub: []string{"-P", chOldPw}, Pfk: onPwSalt, Salt: chSalt1},
	{Name: "old password over another key", Global: []string{"-K", pfkHex2}, Sub: []string{"-P", chOldPw}, Pfk: onPw},
	{Name: "key in the environment", Env: []string{"KRYPTO_PFK=" + pfkHex}, Pfk: onPfk},
	{Name: "password in the environment", Env: []string{"KRYPTO_PASSWORD=" + chOldPw, "KRYPTO_SALT=" + chSalt1}, Pfk: onPwSalt, Salt: chSalt1},
	{Name: "old password in the environment", Env: []string{"KRYPTO_OLD_PASSWORD=" + chOldPw}, Pfk: onPw},
	{Name: "key and salt", Global: []string{"-K", pfkHex, "-S", chSalt1}, Pfk: onPfk, Salt: chSalt1},
	{Name: "typed password", Ask: chOldPw, Pfk: onPw},
	{Name: "typed password and salt", Global: []string{"-S", chSalt1}, Ask: chOldPw, Pfk: onPwSalt, Salt: chSalt1},
	{Name: "wrong key", Global: []string{"-K", pfkHex2}, Pfk: onPfk, Wrong: true},
	{Name: "wrong password", Global: []string{"-P", chOldPw + "x"}, Pfk: onPw, Wrong: true},
	{Name: "wrong salt", Global: []string{"-P", chOldPw, "-S", chSalt2}, Pfk: onPwSalt, Wrong: true},
	{Name: "missing salt", Sub: []string{"--old", chOldPw}, Pfk: onPwSalt, Wrong: true},
	{Name: "wrong typed password", Ask: chNewPw, Pfk: onPw, Wrong: true},
	{Name: "bad key", Global: []string{"-K", pfkHex + "00"}, Pfk: onPfk, Wrong: true},
	{Name: "both", Global: []string{"-K", pfkHex, "-P", chOldPw}, Pfk: onPfk, Wrong: true},
}

// how the new secret is given
type newWay struct {
	Name string
	Sub  []string
	Env  []string
	Pw   string // a password
	Pfk  string // a key
	Rand bool   // printed
	Ask  []string
	Bad  bool // can not be used
	Odd  bool // more than one: may be refused, or be any of them
}

const chShort = "0102"

var newWays = []newWay{
	{Name: "random", Sub: []string{"-r"}, Rand: true},
	{Name: "password", Sub: []string{"-N", chNewPw}, Pw: chNewPw},
	{Name: "key", Sub: []string{"-k", pfkHex2}, Pfk: pfkHex2},
	{Name: "typed", Ask: []string{chNewPw, chNewPw}, Pw: chNewPw},
	{Name: "password in the environment", Env: []string{"KRYPTO_NEW_PASSWORD=" + chNewPw}, Pw: chNewPw},
	{Name: "typed after weak and unlike ones", Ask: []string{chWeak, chNewPw, chNewPw + "x", chNewPw, chNewPw}, Pw: chNewPw},
	{Name: "typed unlike, nothing more", Ask: []string{chNewPw, chNewPw + "x", "\x03"}, Bad: true},
	{Name: "same password", Sub: []string{"-N", chOldPw}, Pw: chOldPw},
	{Name: "same key", Sub: []string{"-k", pfkHex}, Pfk: pfkHex},
	{Name: "weak password", Sub: []string{"-N", chWeak}, Pw: chWeak},
	{Name: "short key", Sub: []string{"-k", chShort}, Bad: true},
	{Name: "long key", Sub: []string{"-k", pfkHex2 + "00"}, Bad: true},
	{Name: "not a key", Sub: []string{"-k", strings.Repeat("x", 64)}, Bad: true},
	{Name: "no key", Sub: []string{"-k", ""}, Bad: true},
	{Name: "random and password", Sub: []string{"-r", "-N", chNewPw}, Odd: true, Rand: true, Pw: chNewPw},
	{Name: "random and key", Sub: []string{"-r", "-k", pfkHex2}, Odd: true, Rand: true, Pfk: pfkHex2},
	{Name: "password and key", Sub: []string{"-N", chNewPw, "-k", pfkHex2}, Odd: true, Pw: chNewPw, Pfk: pfkHex2},
	{Name: "typed, repeated in part", Ask: []string{chNewPw + "x1", chNewPw, chNewPw, chNewPw}, Pw: chNewPw},
	{Name: "typed, then nothing", Ask: []string{chNewPw + "x1", "", chNewPw, chNewPw}, Pw: chNewPw},
	{Name: "typed, repeated in other case", Ask: []string{chNewPw, strings.ToUpper(chNewPw), chNewPw + "x1", strings.ToLower(chNewPw) + "x1", chNewPw + "x2", chNewPw + "x2"}, Pw: chNewPw + "x2"},
	{Name: "typed, repeated with a space", Ask: []string{chNewPw, chNewPw + " ", chNewPw, " " + chNewPw, chNewPw + "x2", chNewPw + "x2"}, Pw: chNewPw + "x2"},
	{Name: "typed, first again after unlike", Ask: []string{chNewPw, chNewPw + "x2", chNewPw + "x2", chNewPw, chNewPw + "x3", chNewPw + "x3"}, Pw: chNewPw + "x3"},
	{Name: "typed, nothing first", Ask: []string{chNewPw, "", chNewPw + "x2", chNewPw + "x2"}, Pw: chNewPw + "x2"},
}

var newSalts = []struct {
	Arg, Salt string
	Bad       bool
}{{}, {"default", krypto431.DefaultSalt, false}, {chSalt2, chSalt2, false}, {chSalt2[:60], "", true}, {"zz" + chSalt2, "", true}, {chSalt1, chSalt1, false}}

type pfkChange struct {
	Old, New, Salt int
	Answer         string // yes, -y, no, none (no terminal)
	State          int
	Missing        bool   `json:",omitempty"`
	Other          string `json:",omitempty"` // the store of other commands: -f or env
}

func (c pfkChange) valid() bool {
	o, n := oldWays[c.Old], newWays[c.New]
	if c.Answer == "none" && (o.Ask != "" || n.Ask != nil) {
		return false // nobody to ask
	}
	if n.Ask != nil && (c.Answer == "no" || c.Answer == "yes") {
		return false // does not ask whether
	}
	return true
}

var hex64 = regexp.MustCompile(`\b[0-9a-f]{64}\b`)

func sealed(r *kit.Run, file string, state int, pfk string) {
	k := stateStore(state)
	k.SetPersistence(file)
	kit.Must(k.SetPFKFromString(pfk))
	kit.Must(k.Save())
}

func execPfkChange(r *kit.Run, c pfkChange) error {
	o, n, s := oldWays[c.Old], newWays[c.New], newSalts[c.Salt]
	dir, done := r.Dir()
	defer done()
	store := filepath.Join(dir, "store")
	old := o.Pfk()
	if !c.Missing {
		sealed(r, store, c.State, old)
	}
	before, _ := os.ReadFile(store)
	args := append([]string{}, o.Global...)
	var env []string
	other, home := filepath.Join(dir, "other"), filepath.Join(dir, ".krypto431.gob")
	var bystander []byte
	if c.Other != "" {
		sealed(r, other, 1+c.State, pfkHex)
		bystander, _ = os.ReadFile(other)
		kit.Must(os.WriteFile(home, bystander, 0600))
		if c.Other == "-f" {
			args = append(args, "-f", other)
		} else {
			env = append(env, "KRYPTO_FILE="+other)
		}
	}
	args = append(append(args, "pfk", "--change", store), o.Sub...)
	args = append(args, n.Sub...)
	if s.Arg != "" {
		args = append(args, "--new-salt", s.Arg)
	}
	if c.Answer == "-y" {
		args = append(args, "-y")
	}
	sp := cli(dir, "", args...)
	sp.Env = append(append(append(append([]string{}, sp.Env...), o.Env...), n.Env...), env...)
	what := "present secret: " + o.Name + ", new: " + n.Name + ", new salt " + s.Arg + ", answer " + c.Answer
	var res fault.Result
	if c.Answer == "none" || c.Answer == "-y" && o.Ask == "" && n.Ask == nil {
		res = plain(sp)
	} else {
		var script []say
		if o.Ask != "" {
			script = append(script, say{Wait: "Enter decryption key: ", Send: o.Ask + enter})
		}
		for _, a := range n.Ask {
			if a != "\x03" {
				a += enter
			}
			script = append(script, say{Wait: "encryption key: ", Send: a})
			if strings.HasPrefix(a, "\x03") {
				break
			}
		}
		for i, x := 0, 0; i < len(n.Ask); i++ { // the second of a pair is a repetition
			if n.Ask[i] == chWeak {
				x = 0
				continue
			}
			if x%2 == 1 {
				script[len(script)-len(n.Ask)+i].Wait = "(repeat) "
			}
			x++
		}
		switch c.Answer {
		case "yes":
			script = append(script, say{"Change encryption key for", "y" + enter, true})
		case "no":
			script = append(script, say{"Change encryption key for", "n" + enter, true})
		}
		res = talk(sp, script...)
	}
	r.Step(1)
	r.StateOf(c.Old, c.New, c.Salt, c.Answer, res.Code, c.Other)
	if c.Other != "" {
		what += ", another store given by " + c.Other
		for _, f := range []string{other, home} {
			if b, _ := os.ReadFile(f); string(b) != string(bystander) {
				return kit.Fail("%s: %s, which is not to be changed, is written", what, filepath.Base(f))
			}
		}
		l, err := os.ReadDir(dir)
		kit.Must(err)
		for _, e := range l {
			if n := e.Name(); n != "store" && n != "other" && n != ".krypto431.gob" {
				return kit.Fail("%s: %s appears", what, n)
			}
		}
	}
	if res.Hung || strings.Contains(res.Out+res.Err, "goroutine ") {
		return kit.Fail("%s: the program hangs or crashes: %s", what, trunc(res.Out+res.Err))
	}
	if c.Missing {
		if _, err := os.Stat(store); err == nil || res.Code == 0 {
			return kit.Fail("%s: there is no store and no error", what)
		}
		return nil
	}
	var secrets []string
	if n.Pw != "" {
		salt := krypto431.DefaultSalt
		if o.Salt != "" {
			salt = o.Salt
		}
		if s.Salt != "" {
			salt = s.Salt
		}
		secrets = append(secrets, derived(n.Pw, salt))
	}
	if n.Pfk != "" {
		secrets = append(secrets, n.Pfk)
	}
	if n.Rand {
		for _, x := range hex64.FindAllString(res.Out, -1) {
			if x != chSalt2 && x != chSalt1 {
				secrets = append(secrets, x)
			}
		}
	}
	open := func(p string) (bool, error) {
		k, err := openAs(store, p)
		if err != nil {
			return false, nil
		}
		if d := diff(stateSnap(c.State), storeSnap(k)); d != "" {
			return true, kit.Fail("%s: afterwards the store holds something else: %s", what, d)
		}
		return true, nil
	}
	byOld, err := open(old)
	if err != nil {
		return err
	}
	if res.Code != 0 || c.Answer == "no" {
		if !byOld {
			return kit.Fail("%s: not changed (%s), and the store does not open with the old secret", what, strings.TrimSpace(res.Err+res.Out))
		}
		if res.Code != 0 && c.Answer != "none" && c.Answer != "no" && !o.Wrong && !n.Bad && !n.Odd && !s.Bad {
			return kit.Fail("%s: the secret can not be changed: %s", what, strings.TrimSpace(res.Err+res.Out))
		}
		after, _ := os.ReadFile(store)
		if string(after) != string(before) && c.Answer == "no" {
			return kit.Fail("%s: the store is written and the answer was no", what)
		}
		return nil
	}
	// reported as changed
	if o.Wrong || n.Bad || s.Bad {
		return kit.Fail("%s: success is reported", what)
	}
	n2 := 0
	for _, p := range secrets {
		ok, err := open(p)
		if err != nil {
			return err
		}
		if ok {
			n2++
		}
		if p == old {
			byOld = false // not another one
		}
	}
	if n2 == 0 {
		return kit.Fail("%s: success is reported and the store does not open with the new secret", what)
	}
	if byOld {
		return kit.Fail("%s: success is reported and the store still opens with the old secret", what)
	}
	return nil
}

func enumPfkChange(r *kit.Run, yield func(pfkChange) bool) {
	for o := range oldWays {
		for n := range newWays {
			for s := range newSalts {
				for _, a := range []string{"-y", "yes", "no", "none"} {
					c := pfkChange{Old: o, New: n, Salt: s, Answer: a, State: 1}
					if !c.valid() {
						continue
					}
					if r.Tier != "thorough" {
						// refusals need no combination with one another
						bad := 0
						for _, b := range []bool{oldWays[o].Wrong, newWays[n].Bad, newWays[n].Odd, newSalts[s].Bad, a == "no", a == "none"} {
							if b {
								bad++
							}
						}
						if bad > 1 || a == "yes" && (o+n+s)%3 != 0 || bad == 1 && (o+n+s)%2 != 0 {
							continue
						}
					}
					if !yield(c) {
						return
					}
				}
			}
		}
	}
	for st := 0; st < 5; st++ {
		for n := 0; n < 4; n++ {
			if !yield(pfkChange{New: n, Answer: "-y", State: st}) {
				return
			}
		}
	}
	for n := 0; n < 3; n++ {
		if !yield(pfkChange{New: n, Answer: "-y", State: 1, Missing: true}) {
			return
		}
	}
	for o := range oldWays {
		for n := range newWays {
			for _, x := range []string{"-f", "env"} {
				for _, a := range []string{"-y", "yes", "no"} {
					c := pfkChange{Old: o, New: n, Salt: (o + n) % 3, Answer: a, State: 1, Other: x}
					if c.valid() && (r.Thorough() || (o < 3 && n < 4 && a == "-y") || (o+n)%5 == len(x)-2 && o < 8) && !yield(c) {
						return
					}
				}
			}
		}
	}
	for _, x := range []string{"-f", "env"} {
		if !yield(pfkChange{Answer: "-y", State: 1, Missing: true, Other: x}) {
			return
		}
	}
}

// ---------------------------------------------------------------- chains

// pfkChain is a sequence of changes, each from the secret set by the last.
type pfkChain struct{ Ways []int }

// execPfkChain: after each change every earlier secret is locked out.
func execPfkChain(r *kit.Run, c pfkChain) error {
	dir, done := r.Dir()
	defer done()
	store := filepath.Join(dir, "store")
	sealed(r, store, 1, pfkHex)
	now, open := pfkHex, []string{"-K", pfkHex}
	salt := krypto431.DefaultSalt
	var past []string
	for i, w := range c.Ways {
		args := append(append([]string{}, open...), "pfk", "-y", "-c", store)
		next := ""
		pw := chNewPw + string(rune('a'+i))
		switch w {
		case 0:
			args = append(args, "-r")
		case 1:
			next = hex.EncodeToString([]byte(strings.Repeat(string(rune('k'+i)), 32)))
			args = append(args, "-k", next)
			open = []string{"-K", next}
			salt = krypto431.DefaultSalt
		case 2:
			args = append(args, "-N", pw)
			next = derived(pw, salt)
			open = []string{"-P", pw}
		case 3:
			salt = chSalt2
			args = append(args, "-s", salt, "-N", pw)
			next = derived(pw, salt)
			open = []string{"-P", pw, "-S", salt}
		case 4:
			salt = krypto431.DefaultSalt
			args = append(args, "-s", "default", "-N", pw)
			next = derived(pw, salt)
			open = []string{"-P", pw}
		}
		if w == 2 && salt != krypto431.DefaultSalt {
			open = append(open, "-S", salt)
		}
		res := plain(cli(dir, "", args...))
		r.Step(1)
		if res.Code != 0 {
			return kit.Fail("change %d of %v fails: %s", i, c.Ways, res.Err)
		}
		if w == 0 {
			next = hex64.FindString(res.Out)
			if next == "" {
				return kit.Fail("change %d of %v: no key is shown: %q", i, c.Ways, res.Out)
			}
			open = []string{"-K", next}
			salt = krypto431.DefaultSalt
		}
		past = append(past, now)
		now = next
		k, err := openAs(store, now)
		if err != nil {
			return kit.Fail("after change %d of %v the store does not open with the new secret: %v", i, c.Ways, err)
		}
		if d := diff(stateSnap(1), storeSnap(k)); d != "" {
			return kit.Fail("after change %d of %v the store holds something else: %s", i, c.Ways, d)
		}
		for _, p := range past {
			if _, err := openAs(store, p); err == nil && p != now {
				return kit.Fail("after change %d of %v the store opens with an earlier secret", i, c.Ways)
			}
		}
		// the program opens it the same way
		if res := plain(cli(dir, "", append(append([]string{}, open...), "-f", store, "keys", "-l")...)); res.Code != 0 {
			return kit.Fail("after change %d of %v: %v: %s", i, c.Ways, open, res.Err)
		}
		r.StateOf("chain", c.Ways[:i+1])
	}
	return nil
}

func enumPfkChain(r *kit.Run, yield func(pfkChain) bool) {
	sequences(5, 1, kit.Pick(r, 3, 4), func(s []int) bool { return yield(pfkChain{append([]int(nil), s...)}) })
}

// ---------------------------------------------------------------- generated keys

type pfkGen struct{ Way, Salt int }

// execPfkGen: the key shown for a password opens what the password opens.
func execPfkGen(r *kit.Run, c pfkGen) error {
	dir, done := r.Dir()
	defer done()
	s := newSalts[c.Salt]
	salt := krypto431.DefaultSalt
	var args []string
	var res fault.Result
	sub := []string{"pfk", "-g"}
	if s.Arg != "" {
		sub = append(sub, "-s", s.Arg)
		salt = s.Salt
	}
	pw := chNewPw
	bad := s.Bad
	switch c.Way {
	case 0:
		args = append([]string{"-P", pw}, sub...)
	case 1:
		args = sub
	case 2:
		args = append([]string{"-S", chSalt1}, append([]string{"-P", pw}, sub...)...)
		if s.Arg == "" {
			salt = chSalt1
		}
	case 3:
		args = append([]string{"-P", chWeak}, sub...)
		bad = true
	case 4:
		args = append(sub, "-r")
	}
	if c.Way == 1 {
		res = talk(cli(dir, "", args...), say{Wait: "encryption key: ", Send: pw + enter}, say{Wait: "(repeat) ", Send: pw + enter})
	} else {
		res = plain(cli(dir, "", args...))
	}
	r.Step(1)
	r.StateOf("gen", c.Way, c.Salt, res.Code)
	if bad {
		if res.Code == 0 {
			return kit.Fail("pfk %v: a key is made from what is not allowed: %s", args, res.Out)
		}
		return nil
	}
	got := hex64.FindAllString(res.Out, -1)
	if res.Code != 0 || len(got) != 1 {
		return kit.Fail("pfk %v shows no key: %s%s", args, res.Out, res.Err)
	}
	if c.Way == 4 {
		again := hex64.FindString(plain(cli(dir, "", args...)).Out)
		if again == got[0] || again == "" {
			return kit.Fail("pfk %v shows %q and then %q", args, got[0], again)
		}
		return nil
	}
	if got[0] != derived(pw, salt) {
		return kit.Fail("pfk %v shows a key that is not the one of the password", args)
	}
	return nil
}

func enumPfkGen(r *kit.Run, yield func(pfkGen) bool) {
	for w := 0; w < 5; w++ {
		for s := range newSalts {
			if !yield(pfkGen{w, s}) {
				return
			}
		}
	}
}

func init() {
	kit.Register(&kit.Prop{
		ID: "C23", Level: "model_checking",
		Rule:   "after every change of the persistence key, password or salt by the command line program the store is the same, opens with the new secret only; after every refusal or failure it opens with the old one",
		Bounds: "19 ways to give the present secret x 23 ways to give a new one x 6 salts x 4 answers (quick: refusals not combined, a third of the answers typed); all chains of up to three (four) changes of five kinds; typed on a terminal where asked",
		Assumptions: []string{
			"the expected key of a password is computed by an independent PBKDF2",
			"when two new secrets are given at once, a refusal or the use of either is accepted",
			"failures of the file system during a change are the subject of C11 and C12",
		},
		Families: []*kit.Family{
			kit.F("changes", "all combinations", enumPfkChange, execPfkChange).W(4),
			kit.F("chains", "all sequences of changes", enumPfkChain, execPfkChain),
			kit.F("derivation", "keys shown for passwords", enumPfkGen, execPfkGen),
		},
	})
}
