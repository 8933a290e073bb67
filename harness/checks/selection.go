package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/sa6mwa/dtg"
	"github.com/sa6mwa/krypto431"
	"verif/fault"
	"verif/kit"
)

// ---------------------------------------------------------------- keys

// The store holds one key for every combination of the attributes that can be
// selected on.
var selKeepers = [][]string{{}, {"BB"}, {"CC"}, {"BB", "CC"}, {"CC", "DD", "BB"}}

// distance of the expiry date from now
var selExpiry = []time.Duration{-400 * 24 * time.Hour, -45 * time.Minute, time.Hour, 23 * time.Hour, 25 * time.Hour,
	10*24*time.Hour - time.Hour, 10*24*time.Hour + time.Hour, 4000 * 24 * time.Hour, never}

// never is a date that was never set.
const never = time.Duration(-1 << 63)

var selStart = time.Now()

type selStore struct {
	k     *K
	bytes []byte
}

var selOnce sync.Once
var selKeys, selOther, selMsgs selStore

func (s *selStore) seal(pfk string) {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "krypto-sel-")
	kit.Must(err)
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "s")
	s.k.SetPersistence(f)
	kit.Must(s.k.SetPFKFromString(pfk))
	kit.Must(s.k.Save())
	s.bytes, err = os.ReadFile(f)
	kit.Must(err)
}

func selSetup() {
	selOnce.Do(func() {
		k := blank(5, 25, "AA")
		n := 0
		for _, e := range selExpiry {
			for _, kp := range selKeepers {
				for m := 0; m < 4; m++ {
					x := mkKey(keyID(n*7919+5, 5), keyLetters(n, 25), kp...)
					x.Used, x.Compromised = m&1 != 0, m&2 != 0
					x.Expires.Time = selStart.Add(e)
					if e == never {
						x.Expires.Time = time.Time{}
					}
					addKey(k, x)
					n++
				}
			}
		}
		selKeys.k = k
		selKeys.seal(pfkHex)

		k = blank(5, 25, "AA")
		n = 0
		for i, from := range []string{"AA", "BB", "CC"} {
			for j, to := range selKeepers {
				for v := 0; v < 2; v++ {
					m := Msg{Id: []rune(selMsgID(n)), Recipients: runes2(to), From: []rune(from), PlainText: []rune(fmt.Sprintf("TEXT %d %d %d", i, j, v)), DTG: dtg.DTG{Time: day0}}
					if v == 1 {
						m.PlainText = nil
						m.KeyId, m.CipherText = []rune("QQQQQ"), []rune("ABCDEFGHIJ")
						m.PlainText = []rune("HI")
					}
					m.SetInstance(k)
					k.Messages = append(k.Messages, m)
					n++
				}
			}
		}
		addPlain(k, 3, 25, "BB")
		selMsgs.k = k
		selMsgs.seal(pfkHex)

		// a store to import from: half of it is already present
		o := blank(5, 25, "EE")
		for i := range selKeys.k.Keys {
			x := selKeys.k.Keys[i]
			y := mkKey(keyID(i*7919+5, 5), keyLetters(i+500, 25), krypto431.RunesToStrings(&x.Keepers)...)
			if i%2 == 0 {
				y.Id = []rune(keyID(i*7919+6, 5))
			}
			y.Used, y.Compromised, y.Expires = x.Used, x.Compromised, x.Expires
			addKey(o, y)
		}
		selOther.k = o
		selOther.seal(pfkHex)
	})
}

// identifiers of messages differ in case only, pairwise
func selMsgID(n int) string {
	s := "m" + keyID(n/2+700, 3)
	if n%2 == 1 {
		s = strings.ToLower(s)
	}
	return s
}

// keySel is a combination of selection options.
type keySel struct {
	All, Or, Invalid, Compromised, Used, Unused, Expired bool
	Valid                                                int // days, -1: not given
	Keepers                                              int
	Ids                                                  int
	Form                                                 int `json:",omitempty"` // how options are written
	Op                                                   string
}

// how keepers are given, and what they mean
var selKeeperArgs = [][]string{nil, {"BB"}, {"CC"}, {"BB,CC"}, {"cc", "bb"}, {"ZZ"}, {"BB ZZ"}, {" dd ,"}}

func selKeyID(n int) string { return keyID(n*7919+5, 5) }

func selIdArgs(n int) []string {
	switch n {
	case 1:
		return []string{selKeyID(3)}
	case 2:
		return []string{selKeyID(0) + "," + strings.ToLower(selKeyID(77))}
	case 3:
		return []string{"ZZZZZ"}
	case 4:
		return []string{selKeyID(20), "ZZZZZ " + selKeyID(159), selKeyID(20)}
	}
	return nil
}

func upperFields(a []string) map[string]bool {
	o := map[string]bool{}
	for _, s := range a {
		for _, f := range strings.FieldsFunc(s, func(c rune) bool { return c == ',' || c == ' ' }) {
			o[strings.ToUpper(f)] = true
		}
	}
	return o
}

func (c keySel) wants(x *Key) bool {
	if c.All {
		return true
	}
	if c.Ids > 0 {
		return upperFields(selIdArgs(c.Ids))[string(x.Id)]
	}
	if want := upperFields(selKeeperArgs[c.Keepers]); len(want) > 0 {
		n := 0
		for _, kp := range x.Keepers {
			if want[string(kp)] {
				n++
			}
		}
		if n == 0 || !c.Or && n < len(want) {
			return false
		}
	}
	left := x.Expires.Sub(selStart)
	expired := left < 0
	switch {
	case c.Invalid && !expired && !x.Compromised,
		c.Compromised && !x.Compromised,
		c.Used && !x.Used,
		c.Unused && x.Used,
		c.Expired && !expired,
		c.Valid >= 0 && (x.Compromised || left < time.Duration(c.Valid)*24*time.Hour):
		return false
	}
	return true
}

func (c keySel) args() []string {
	var a []string
	long := c.Form != 1
	flag := func(on bool, l, s string) {
		if on {
			if long || s == "" {
				a = append(a, "--"+l)
			} else {
				a = append(a, "-"+s)
			}
		} else if c.Form == 2 {
			a = append(a, "--"+l+"=false")
		}
	}
	flag(c.Compromised, "compromised", "C")
	flag(c.Used, "used", "u")
	flag(c.Unused, "unused", "U")
	flag(c.All, "all", "")
	flag(c.Or, "or", "")
	flag(c.Invalid, "invalid", "")
	flag(c.Expired, "expired", "")
	if c.Form == 1 && len(a) > 1 && len(a[0]) == 2 && len(a[1]) == 2 {
		a = append([]string{a[0] + a[1][1:]}, a[2:]...) // -Cu
	}
	if c.Valid >= 0 {
		a = append(a, "--valid", fmt.Sprint(c.Valid))
	}
	for _, s := range selKeeperArgs[c.Keepers] {
		if long {
			a = append(a, "--keepers="+s)
		} else {
			a = append(a, "-k", s)
		}
	}
	for _, s := range selIdArgs(c.Ids) {
		if long {
			a = append(a, "--id", s)
		} else {
			a = append(a, "-i="+s)
		}
	}
	if c.Form == 2 { // the other way round
		for i, j := 0, len(a)-1; i < j; i, j = i+1, j-1 {
			if !strings.HasPrefix(a[i], "--") || !strings.HasPrefix(a[j], "--") || a[i] == "--id" || a[j] == "--id" || a[i] == "--valid" || a[j] == "--valid" {
				continue
			}
			if strings.HasPrefix(a[i], "--keepers") || strings.HasPrefix(a[j], "--keepers") {
				continue
			}
			a[i], a[j] = a[j], a[i]
		}
	}
	return a
}

func openAs(file, pfk string) (*K, error) {
	k := blank(5, 350, "")
	k.SetPersistence(file)
	kit.Must(k.SetPFKFromString(pfk))
	err := k.Load()
	return k, err
}

func (c keySel) String() string { return "keys " + c.Op + " " + strings.Join(c.args(), " ") }

// listed checks a listing: two lines about the store, a header, the items.
func listed(out string) ([]string, error) {
	l := textLines(out)
	if len(l) < 3 || !strings.HasPrefix(l[0], "FILE=") || !strings.HasPrefix(l[1], "KEEPER=") {
		return nil, kit.Fail("a listing has not the form of one: %q", trunc(out))
	}
	return l[3:], nil
}

func execKeySel(r *kit.Run, c keySel) error {
	selSetup()
	dir, done := r.Dir()
	defer done()
	store := filepath.Join(dir, "store")
	kit.Must(os.WriteFile(store, selKeys.bytes, 0600))
	var want []*Key
	var rest []*Key
	for i := range selKeys.k.Keys {
		x := &selKeys.k.Keys[i]
		if c.wants(x) {
			want = append(want, x)
		} else {
			rest = append(rest, x)
		}
	}
	r.Step(len(selKeys.k.Keys))
	r.StateOf(c.Op, len(want), c.All, c.Ids, c.Form)
	args := append([]string{"-f", store, "keys"}, c.args()...)
	run := func(more ...string) fault.Result { return krypto(dir, "", append(args, more...)...) }
	unchanged := func() error {
		if b, _ := os.ReadFile(store); string(b) != string(selKeys.bytes) {
			k, err := openAs(store, pfkHex)
			if err != nil {
				return kit.Fail("%v: afterwards the store does not load: %v", c, err)
			}
			if d := diff(storeSnap(selKeys.k), storeSnap(k)); d != "" {
				return kit.Fail("%v changes the store: %s", c, d)
			}
		}
		return nil
	}
	switch c.Op {
	case "list":
		res := run("--list")
		if res.Code != 0 {
			return kit.Fail("%v fails: %s", c, res.Err)
		}
		var lines []string
		if len(want) > 0 || res.Out != "" {
			var err error
			if lines, err = listed(res.Out); err != nil {
				return err
			}
		}
		if err := sameKeyLines(c.String(), lines, want); err != nil {
			return err
		}
		return unchanged()
	case "export":
		file := filepath.Join(dir, "export")
		res := run("--export", file)
		if res.Code != 0 {
			return kit.Fail("%v fails: %s", c, res.Err)
		}
		k, err := openAs(file, pfkHex)
		if err != nil {
			return kit.Fail("%v: the export does not load: %v", c, err)
		}
		if len(k.Messages) != 0 {
			return kit.Fail("%v exports messages", c)
		}
		if err := sameKeys(c.String(), keysSnap(k), want); err != nil {
			return err
		}
		return unchanged()
	case "txt", "pdf":
		file := filepath.Join(dir, "out."+c.Op)
		res := run("--output", file)
		b, err := os.ReadFile(file)
		if len(want) == 0 {
			if err == nil && len(b) > 0 {
				return kit.Fail("%v prints %d bytes and nothing was selected", c, len(b))
			}
			return unchanged()
		}
		if res.Code != 0 {
			return kit.Fail("%v fails: %s", c, res.Err)
		}
		if err != nil {
			return kit.Fail("%v prints nothing", c)
		}
		if c.Op == "txt" {
			err = readKeys(string(b), want)
		} else {
			var items []string
			for _, x := range want {
				items = append(items, x.String())
			}
			err = checkPDF(b, items, 8)
		}
		if err != nil {
			return err
		}
		return unchanged()
	case "delete-all", "delete-one", "delete-none":
		keys := ""
		gone := map[string]bool{}
		switch c.Op {
		case "delete-all":
			keys = right
			for _, x := range want {
				gone[string(x.Id)] = true
			}
		case "delete-one": // the second in the list
			keys = down + " "
			if len(want) == 1 {
				keys = " "
			}
			if len(want) > 0 {
				// in the order listed
				lines, err := listed(krypto(dir, "", append(args, "--list")...).Out)
				if err != nil {
					return err
				}
				i := 1
				if len(want) == 1 {
					i = 0
				}
				id, _, _ := strings.Cut(lines[i], " ")
				gone[id] = true
			}
		}
		var script []say
		if len(want) > 0 {
			script = []say{{"Select key(s) to delete", keys + enter, false}}
		}
		res := talk(cli(dir, "", append([]string{"-K", pfkHex}, append(args, "--delete")...)...), script...)
		if res.Code != 0 || res.Err != "" || res.Hung {
			return kit.Fail("%v fails or does not ask (%s): %s", c, res.Err, trunc(res.Out))
		}
		k, err := openAs(store, pfkHex)
		if err != nil {
			return kit.Fail("%v: afterwards the store does not load: %v", c, err)
		}
		var stay []*Key
		for i := range selKeys.k.Keys {
			if x := &selKeys.k.Keys[i]; !gone[string(x.Id)] {
				stay = append(stay, x)
			}
		}
		return sameKeys(c.String(), keysSnap(k), stay)
	case "delete-yes": // only what is named
		res := run("--delete", "-y")
		if res.Code != 0 {
			return kit.Fail("%v fails: %s", c, res.Err)
		}
		k, err := openAs(store, pfkHex)
		if err != nil {
			return kit.Fail("%v: afterwards the store does not load: %v", c, err)
		}
		return sameKeys(c.String(), keysSnap(k), rest)
	case "import":
		other := filepath.Join(dir, "other")
		kit.Must(os.WriteFile(other, selPassword(), 0600))
		var script []say
		script = append(script, say{Wait: "Enter decryption key: ", Send: "PASS WORD" + enter})
		stay := map[string]string{}
		for i := range selKeys.k.Keys {
			stay[string(selKeys.k.Keys[i].Id)] = keyString(&selKeys.k.Keys[i])
		}
		n := 0
		for i := range selOther.k.Keys {
			x := &selOther.k.Keys[i]
			if !c.wants(x) {
				continue
			}
			_, there := stay[string(x.Id)]
			if there {
				n++
				a := "y"
				if n%2 == 0 {
					a = "n"
				}
				script = append(script, say{"Key ID " + string(x.Id) + " already exist, replace with imported key?", a + enter, true})
				if a == "n" {
					continue
				}
			}
			y := *x
			y.Keepers = nil
			for _, kp := range x.Keepers {
				y.Keepers = append(y.Keepers, kp)
			}
			y.Keepers = append(y.Keepers, []rune("EE"))
			stay[string(x.Id)] = keyString(&y)
		}
		if n > 12 {
			return nil // too long a dialogue
		}
		r.Count("imports", 1)
		res := talk(cli(dir, "", append([]string{"-K", pfkHex}, append(args, "--import", other)...)...), script...)
		if res.Code != 0 || res.Err != "" || res.Hung {
			return kit.Fail("%v fails or does not ask (%s): %s", c, res.Err, trunc(res.Out))
		}
		k, err := openAs(store, pfkHex)
		if err != nil {
			return kit.Fail("%v: afterwards the store does not load: %v", c, err)
		}
		for _, s := range keysSnap(k) {
			id := strings.Trim(strings.Fields(s)[0], `"`)
			if stay[id] != s {
				return kit.Fail("%v: the store has the key\n  %s\nand not\n  %s", c, s, stay[id])
			}
			delete(stay, id)
		}
		for _, s := range stay {
			return kit.Fail("%v: the key %s is missing", c, s)
		}
		return nil
	}
	return kit.Broken("no operation %q", c.Op)
}

// sameKeyLines checks that the lines list exactly the wanted keys.
func sameKeyLines(what string, lines []string, want []*Key) error {
	got := map[string]string{}
	for _, l := range lines {
		id, _, _ := strings.Cut(l, " ")
		if _, dup := got[id]; dup {
			return kit.Fail("%s: %q is listed twice", what, id)
		}
		got[id] = l
	}
	for _, x := range want {
		l, ok := got[string(x.Id)]
		if !ok {
			return kit.Fail("%s: the key %s is selected and not listed", what, keyString(x))
		}
		if err := readKeyLine(l, x); err != nil {
			return err
		}
		delete(got, string(x.Id))
	}
	for _, l := range got {
		return kit.Fail("%s: not selected but listed: %s", what, l)
	}
	return nil
}

func sameKeys(what string, got []string, want []*Key) error {
	g := map[string]bool{}
	for _, s := range got {
		if g[s] {
			return kit.Fail("%s: two keys %s", what, s)
		}
		g[s] = true
	}
	for _, x := range want {
		if !g[keyString(x)] {
			return kit.Fail("%s: the key %s is missing or changed", what, keyString(x))
		}
		delete(g, keyString(x))
	}
	for s := range g {
		return kit.Fail("%s: there should be no key %s", what, s)
	}
	return nil
}

var selPwOnce sync.Once
var selPw []byte

// selPassword is the other store under a password.
func selPassword() []byte {
	selPwOnce.Do(func() {
		dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "krypto-sel-")
		kit.Must(err)
		defer os.RemoveAll(dir)
		f := filepath.Join(dir, "s")
		k := fresh(krypto431.WithPersistence(f))
		k.GroupSize, k.KeyLength, k.CallSign = 5, 25, []rune("EE")
		k.Keys = selOther.k.Keys
		kit.Must(k.SetPFKFromPassword("PASS WORD"))
		kit.Must(k.Save())
		selPw, err = os.ReadFile(f)
		kit.Must(err)
	})
	return selPw
}

func enumKeySel(r *kit.Run, yield func(keySel) bool) {
	for ids := 0; ids < 5; ids++ {
		for kp := range selKeeperArgs {
			for _, v := range []int{-1, 0, 1, 10} {
				for b := 0; b < 128; b++ {
					c := keySel{Valid: v, Keepers: kp, Ids: ids}
					c.All, c.Or, c.Invalid, c.Compromised = b&64 != 0, b&1 != 0, b&2 != 0, b&4 != 0
					c.Used, c.Unused, c.Expired = b&8 != 0, b&16 != 0, b&32 != 0
					given := 0
					for _, x := range []bool{c.Or, c.Invalid, c.Compromised, c.Used, c.Unused, c.Expired, v >= 0, kp > 0} {
						if x {
							given++
						}
					}
					// what overrides is combined with few others
					if r.Tier != "thorough" && (c.All || ids > 0) && given > 2 {
						continue
					}
					for _, op := range []string{"list", "export", "txt"} {
						if r.Tier != "thorough" && op != "list" && given > 3 {
							continue
						}
						for f := 0; f < 3; f++ {
							if f > 0 && (given > kit.Pick(r, 2, 4) || op != "list") {
								continue
							}
							c.Op, c.Form = op, f
							if !yield(c) {
								return
							}
						}
					}
				}
			}
		}
	}
}

// few options, the slower operations
func enumKeySelSlow(r *kit.Run, yield func(keySel) bool) {
	for ids := 0; ids < 5; ids++ {
		for kp := range selKeeperArgs {
			for _, v := range []int{-1, 0, 1, 10} {
				for b := 0; b < 128; b++ {
					c := keySel{Valid: v, Keepers: kp, Ids: ids}
					c.All, c.Or, c.Invalid, c.Compromised = b&64 != 0, b&1 != 0, b&2 != 0, b&4 != 0
					c.Used, c.Unused, c.Expired = b&8 != 0, b&16 != 0, b&32 != 0
					given := 0
					for _, x := range []bool{c.Or, c.Invalid, c.Compromised, c.Used, c.Unused, c.Expired, v >= 0, kp > 0, c.All, ids > 0} {
						if x {
							given++
						}
					}
					if given > kit.Pick(r, 2, 3) {
						continue
					}
					ops := []string{"pdf", "delete-all", "delete-one", "import"}
					if given <= 1 {
						ops = append(ops, "delete-none")
					}
					if ids > 0 && given == 1 {
						ops = append(ops, "delete-yes")
					}
					for _, op := range ops {
						if op == "pdf" && given > 1 && r.Tier != "thorough" {
							continue
						}
						c.Op = op
						if !yield(c) {
							return
						}
					}
				}
			}
		}
	}
}

// ---------------------------------------------------------------- messages

type msgSel struct {
	All, Or       bool
	To, From, Ids int
	Form          int `json:",omitempty"`
	Op            string
}

var selFromArgs = [][]string{nil, {"BB"}, {"BB,cc"}, {"aa", "BB"}, {"ZZ"}}

func selMsgIdArgs(n int) []string {
	switch n {
	case 1:
		return []string{selMsgID(4)}
	case 2:
		return []string{selMsgID(0) + "," + selMsgID(7)}
	case 3:
		return []string{"ZZZZ", strings.ToUpper(selMsgID(2))}
	case 4:
		return []string{selMsgID(29), "XX " + selMsgID(12), selMsgID(29)}
	}
	return nil
}

func (c msgSel) wants(m *Msg) bool {
	if c.All {
		return true
	}
	if c.Ids > 0 {
		for _, s := range selMsgIdArgs(c.Ids) {
			for _, f := range strings.FieldsFunc(s, func(c rune) bool { return c == ',' || c == ' ' }) {
				if f == string(m.Id) {
					return true
				}
			}
		}
		return false
	}
	if want := upperFields(selKeeperArgs[c.To]); len(want) > 0 {
		n := 0
		for _, kp := range m.Recipients {
			if want[string(kp)] {
				n++
			}
		}
		if n == 0 || !c.Or && n < len(want) {
			return false
		}
	}
	if want := upperFields(selFromArgs[c.From]); len(want) > 0 && !want[string(m.From)] {
		return false
	}
	return true
}

func (c msgSel) args() []string {
	var a []string
	if c.All {
		a = append(a, "--all")
	}
	if c.Or {
		a = append(a, "--or")
	}
	add := func(long, short string, v []string) {
		for _, s := range v {
			switch c.Form {
			case 0:
				a = append(a, "--"+long, s)
			case 1:
				a = append(a, "-"+short, s)
			case 2:
				a = append(a, "-"+short+"="+s)
			}
		}
	}
	add("to", "t", selKeeperArgs[c.To])
	add("from", "f", selFromArgs[c.From])
	add("id", "i", selMsgIdArgs(c.Ids))
	return a
}

func (c msgSel) String() string { return "messages " + c.Op + " " + strings.Join(c.args(), " ") }

func execMsgSel(r *kit.Run, c msgSel) error {
	selSetup()
	dir, done := r.Dir()
	defer done()
	store := filepath.Join(dir, "store")
	kit.Must(os.WriteFile(store, selMsgs.bytes, 0600))
	var want []*Msg
	for i := range selMsgs.k.Messages {
		if m := &selMsgs.k.Messages[i]; c.wants(m) {
			want = append(want, m)
		}
	}
	r.Step(len(selMsgs.k.Messages))
	r.StateOf("m", c.Op, len(want), c.All, c.Ids, c.Form)
	args := append([]string{"-f", store, "messages"}, c.args()...)
	left := func(gone map[string]bool) error {
		k, err := openAs(store, pfkHex)
		if err != nil {
			return kit.Fail("%v: afterwards the store does not load: %v", c, err)
		}
		var w []string
		for i := range selMsgs.k.Messages {
			if m := &selMsgs.k.Messages[i]; !gone[string(m.Id)] {
				w = append(w, msgString(m))
			}
		}
		have := msgsSnap(k)
		sort.Strings(w)
		sort.Strings(have)
		if d := diff(strings.Join(w, "\n"), strings.Join(have, "\n")); d != "" {
			return kit.Fail("%v: messages %s", c, d)
		}
		if d := diff(strings.Join(keysSnap(selMsgs.k), "\n"), strings.Join(keysSnap(k), "\n")); d != "" {
			return kit.Fail("%v: keys %s", c, d)
		}
		return nil
	}
	switch c.Op {
	case "list":
		res := krypto(dir, "", append(args, "--list")...)
		if res.Code != 0 {
			return kit.Fail("%v fails: %s", c, res.Err)
		}
		var lines []string
		if len(want) > 0 || res.Out != "" {
			var err error
			if lines, err = listed(res.Out); err != nil {
				return err
			}
		}
		got := map[string]string{}
		for _, l := range lines {
			id, _, _ := strings.Cut(l, " ")
			if _, dup := got[id]; dup {
				return kit.Fail("%v: %q is listed twice", c, id)
			}
			got[id] = l
		}
		for _, m := range want {
			l, ok := got[string(m.Id)]
			if !ok {
				return kit.Fail("%v: the message %s is selected and not listed", c, msgString(m))
			}
			if err := readMessageLine(l, m); err != nil {
				return err
			}
			delete(got, string(m.Id))
		}
		for _, l := range got {
			return kit.Fail("%v: not selected but listed: %s", c, l)
		}
		return left(nil)
	case "txt", "pdf":
		file := filepath.Join(dir, "out."+c.Op)
		res := krypto(dir, "", append(args, "--output", file)...)
		b, err := os.ReadFile(file)
		if len(want) == 0 {
			if err == nil && len(b) > 0 {
				return kit.Fail("%v prints %d bytes and nothing was selected", c, len(b))
			}
			return left(nil)
		}
		if res.Code != 0 || err != nil {
			return kit.Fail("%v fails: %s", c, res.Err)
		}
		if c.Op == "txt" {
			err = readMessages(string(b), want)
		} else {
			var items []string
			for _, m := range want {
				items = append(items, m.String(95))
			}
			err = checkPDF(b, items, 9)
		}
		if err != nil {
			return err
		}
		return left(nil)
	case "delete-all", "delete-none":
		gone := map[string]bool{}
		keys := ""
		if c.Op == "delete-all" {
			keys = right
			for _, m := range want {
				gone[string(m.Id)] = true
			}
		}
		var script []say
		if len(want) > 0 {
			script = []say{{"Select message(s) to delete", keys + enter, false}}
		}
		res := talk(cli(dir, "", append([]string{"-K", pfkHex}, append(args, "--delete")...)...), script...)
		if res.Code != 0 || res.Err != "" || res.Hung {
			return kit.Fail("%v fails or does not ask (%s): %s", c, res.Err, trunc(res.Out))
		}
		return left(gone)
	case "delete-yes":
		gone := map[string]bool{}
		for _, m := range want {
			gone[string(m.Id)] = true
		}
		if res := krypto(dir, "", append(args, "--delete", "-y")...); res.Code != 0 {
			return kit.Fail("%v fails: %s", c, res.Err)
		}
		return left(gone)
	}
	return kit.Broken("no operation %q", c.Op)
}

func enumMsgSel(r *kit.Run, yield func(msgSel) bool) {
	for ids := 0; ids < 5; ids++ {
		for to := range selKeeperArgs {
			for from := range selFromArgs {
				for b := 0; b < 4; b++ {
					c := msgSel{All: b&1 != 0, Or: b&2 != 0, To: to, From: from, Ids: ids}
					n := b/2 + b%2
					for _, x := range []int{to, from, ids} {
						if x > 0 {
							n++
						}
					}
					ops := []string{"list", "txt"}
					if n <= 2 {
						ops = append(ops, "delete-all")
					}
					if n <= 1 {
						ops = append(ops, "pdf", "delete-none")
						if ids > 0 {
							ops = append(ops, "delete-yes")
						}
					}
					for _, op := range ops {
						for f := 0; f < 3; f++ {
							if f > 0 && (op != "list" || n > 3) {
								continue
							}
							c.Op, c.Form = op, f
							if !yield(c) {
								return
							}
						}
					}
				}
			}
		}
	}
}

func init() {
	kit.Register(&kit.Prop{
		ID: "C22", Level: "model_checking",
		Rule:   "for every combination of selection options, what the command line program lists, exports, prints, imports and deletes are exactly the items that meet the conditions",
		Bounds: "160 keys covering all combinations of five keeper sets, eight expiry dates, used and compromised; all combinations of the seven flags, four validities, eight keeper arguments and five identifier arguments; 30 messages over sender and addressees with all combinations of options; each option in up to three ways of writing",
		Assumptions: []string{
			"expiry dates lie an hour or more (one 45 minutes) from the limits selected on, as the program reads the real clock",
			"deleting with -y acts on the identifiers named",
		},
		Families: []*kit.Family{
			kit.F("keys", "all option combinations: list, export, print", enumKeySel, execKeySel).W(4),
			kit.F("keys on a terminal", "few options: delete, import, PDF", enumKeySelSlow, execKeySel).W(2),
			kit.F("messages", "all option combinations", enumMsgSel, execMsgSel).W(2),
		},
	})
}
