package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"github.com/sa6mwa/krypto431"
	"verif/kit"
)

// C28, sessions that import: a keys session on a terminal, which asks for the
// secret of the file and for every key that is present already.

type importCase struct {
	Have, Src []int
	Answers   int    // bit i: the i-th question is answered with yes
	Stop      int    `json:",omitempty"` // 1: at the password, 2+i: at question i
	Sel       int    // selection
	Also      string `json:",omitempty"` // other operations of the session
	Fault     string `json:",omitempty"` // of the file or its password
}

const impPw = "PASS WORD"

// the keys of a file: of each identifier, one that is there twice, one of
// another length
var impIds = []string{"ABCDE", "BCDEF", "CDEFG", "DEFGH", "ABCDE", "EFGH"}
var impKeepers = [][]string{{"BB"}, {"CC", "AA"}, {"BB", "CC"}, nil, {"AA", "BB"}, {"BB"}}

var impSels = []struct {
	Args []string
	Is   func(k *Key) bool
}{
	{[]string{"--all"}, func(k *Key) bool { return true }},
	{nil, func(k *Key) bool { return true }},
	{[]string{"-k", "BB"}, func(k *Key) bool {
		for _, x := range k.Keepers {
			if string(x) == "BB" {
				return true
			}
		}
		return false
	}},
	{[]string{"-i", "bcdef", "-i", "ABCDE,EFGH"}, func(k *Key) bool { s := string(k.Id); return s == "BCDEF" || s == "ABCDE" || s == "EFGH" }},
	{[]string{"--used"}, func(k *Key) bool { return k.Used }},
	{[]string{"-i", "ZZZZZ"}, func(k *Key) bool { return false }},
}

func impKey(i, from int) Key {
	k := mkKey(impIds[i], keyLetters(100*from+i, 30), impKeepers[i]...)
	k.Used, k.Compromised = (i+from)%2 == 0, (i+from)%3 == 0
	k.Comment = []rune(fmt.Sprintf("key %d of %d", i, from))
	return k
}

func (c importCase) stores() (have, src *K) {
	have = blank(5, 30, "AA")
	for _, i := range c.Have {
		addKey(have, impKey(i, 1))
	}
	m := variantMsg(have, 0, 1)
	m.SetInstance(have)
	have.Messages = append(have.Messages, m)
	src = blank(5, 40, "EE")
	for _, i := range c.Src {
		addKey(src, impKey(i, 2))
	}
	n := variantMsg(src, 1, 1)
	n.SetInstance(src)
	src.Messages = append(src.Messages, n)
	return
}

var impFiles sync.Map

func (c importCase) seal(k *K, what string, s []int, pfk string) []byte {
	id := what + fmt.Sprint(s)
	if b, ok := impFiles.Load(id); ok {
		return b.([]byte)
	}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "krypto-imp-")
	kit.Must(err)
	defer os.RemoveAll(dir)
	k.SetPersistence(filepath.Join(dir, "s"))
	kit.Must(k.SetPFKFromString(pfk))
	kit.Must(k.Save())
	b, err := os.ReadFile(filepath.Join(dir, "s"))
	kit.Must(err)
	impFiles.Store(id, b)
	return b
}

var impReport = regexp.MustCompile(`(?m)Imported (\d+) keys? from (\S+) to (\S+)\.$`)
var impExport = regexp.MustCompile(`(?m)Exported (\d+) keys? from (\S+) to (\S+) `)

func execImport(r *kit.Run, c importCase) error {
	dir, done := r.Dir()
	defer done()
	have, src := c.stores()
	store, file, out := filepath.Join(dir, "store"), filepath.Join(dir, "file"), filepath.Join(dir, "out")
	sb, fb := c.seal(have, "store", c.Have, pfkHex), c.seal(src, "file", c.Src, derived(impPw, krypto431.DefaultSalt))
	pw := impPw
	switch c.Fault {
	case "wrong password":
		pw += "x"
	case "absent":
		fb = nil
	case "not a store":
		fb = []byte(innocent)
	case "cut":
		fb = fb[:len(fb)-9]
	}
	kit.Must(os.WriteFile(store, sb, 0600))
	if fb != nil {
		kit.Must(os.WriteFile(file, fb, 0600))
	}
	sel := impSels[c.Sel]

	// what the session is to do
	type wanted struct {
		key     *Key
		keepers string
	}
	now := map[string]wanted{}
	for i := range have.Keys {
		k := &have.Keys[i]
		now[string(k.Id)] = wanted{k, keeperSet(k)}
	}
	fails := c.Fault != "" || c.Stop == 1
	var script []say
	if c.Fault != "absent" {
		script = append(script, say{Wait: "Enter decryption key: ", Send: pw + enter})
	}
	if c.Stop == 1 {
		script[0].Send = "\x03"
	}
	args := []string{"-K", pfkHex, "-f", store, "keys", "--import", file}
	args = append(args, sel.Args...)
	deletes := 0
	if c.Also == "delete" {
		args = append(args, "-d", "-y")
		for id := range now {
			if k := now[id].key; len(sel.Args) > 0 && sel.Args[0] == "-i" && sel.Is(k) {
				delete(now, id)
				deletes++
			}
		}
		if len(have.Keys) == 0 {
			return nil // the session ends there: see the other families
		}
	}
	count, asked := 0, 0
	before := map[string]wanted{}
	for id, x := range now {
		before[id] = x
	}
	for i := range src.Keys {
		k := &src.Keys[i]
		if fails || !sel.Is(k) || len(k.Id) != 5 {
			continue
		}
		if _, there := now[string(k.Id)]; there {
			a := "n"
			if c.Answers>>asked&1 != 0 {
				a = "y"
			}
			if c.Stop == 2+asked {
				script = append(script, say{"Key ID " + string(k.Id) + " already exist, replace with imported key?", "\x03", true})
				fails = true
				break
			}
			script = append(script, say{"Key ID " + string(k.Id) + " already exist, replace with imported key?", a + enter, true})
			asked++
			if a == "n" {
				continue
			}
		}
		count++
		n := *k
		n.Keepers = append(append([][]rune{}, k.Keepers...), []rune("EE"))
		now[string(k.Id)] = wanted{k, keeperSet(&n, "AA")}
	}
	if c.Stop > 1 && !fails {
		return nil // not asked so often
	}
	if c.Answers>>asked != 0 && !fails {
		return nil
	}
	if fails {
		now = before
	}
	switch c.Also {
	case "list":
		args = append(args, "-l")
	case "export":
		args = append(args, "--export", out)
	}
	res := talk(cli(dir, "", args...), script...)
	what := fmt.Sprintf("%s (answers %v)", strings.ReplaceAll(strings.Join(args, " "), dir, ""), func() (l []string) {
		for _, s := range script {
			l = append(l, s.Send)
		}
		return
	}())
	r.Step(1)
	r.StateOf(c.Have, c.Src, count, fails, c.Sel, c.Also)
	if res.Hung || strings.Contains(res.Out, "goroutine ") {
		return kit.Fail("%s: hangs or crashes: %s", what, trunc(res.Out))
	}
	if res.Err != "" {
		return kit.Fail("%s: does not ask %s: %s", what, res.Err, trunc(res.Out))
	}
	if fails != (res.Code != 0) {
		return kit.Fail("%s: ends with %d: %s", what, res.Code, trunc(res.Out))
	}
	if b, _ := os.ReadFile(file); string(b) != string(fb) {
		return kit.Fail("%s: the file that is imported from is changed", what)
	}
	k, err := openAs(store, pfkHex)
	if err != nil {
		return kit.Fail("%s: afterwards the store does not load: %v", what, err)
	}
	if d := diff(strings.Join(msgsSnap(have), "\n"), strings.Join(msgsSnap(k), "\n")); d != "" || k.KeyLength != 30 || k.CallSignString() != "AA" {
		return kit.Fail("%s: messages or settings change: %s", what, d)
	}
	if err := impSame(what, now, k, func(w wanted) (*Key, string) { return w.key, w.keepers }); err != nil {
		return err
	}
	// what it says
	said := impReport.FindAllStringSubmatch(res.Out, -1)
	if fails && len(said) > 0 || !fails && len(said) != 1 {
		return kit.Fail("%s: reports %q", what, said)
	}
	if !fails && (said[0][1] != strconv.Itoa(count) || said[0][2] != file || said[0][3] != store) {
		return kit.Fail("%s: %d keys are imported, reported is %q", what, count, said[0][0])
	}
	chosen := map[string]wanted{}
	for id, w := range now {
		n := *w.key
		n.Keepers = runes2(strings.Split(w.keepers, ","))
		if sel.Is(&n) {
			chosen[id] = w
		}
	}
	_, err = os.Stat(out)
	if made := c.Also == "export" && !fails; made != (err == nil) {
		return kit.Fail("%s: the file of the export is there: %v", what, !made)
	} else if made {
		x, err := openAs(out, pfkHex)
		if err != nil {
			return kit.Fail("%s: the export does not load: %v", what, err)
		}
		if len(x.Messages) > 0 {
			return kit.Fail("%s: the export has messages", what)
		}
		if err := impSame(what+": export", chosen, x, func(w wanted) (*Key, string) { return w.key, w.keepers }); err != nil {
			return err
		}
		if s := impExport.FindStringSubmatch(res.Out); s == nil || s[1] != strconv.Itoa(len(chosen)) {
			return kit.Fail("%s: %d keys are exported, reported is %q", what, len(chosen), s)
		}
	}
	if c.Also == "list" && !fails && len(chosen) > 0 {
		at := strings.Index(res.Out, "FILE=")
		if at < 0 {
			return kit.Fail("%s: nothing is listed", what)
		}
		lines, err := listed(res.Out[at:])
		if err != nil {
			return err
		}
		ids := map[string]bool{}
		for _, l := range lines {
			ids[strings.Fields(l)[0]] = true
		}
		if len(ids) != len(chosen) || len(lines) != len(chosen) {
			return kit.Fail("%s: %d keys are listed and not %d", what, len(lines), len(chosen))
		}
		for id := range chosen {
			if !ids[id] {
				return kit.Fail("%s: %s is not listed", what, id)
			}
		}
	}
	l, err := os.ReadDir(dir)
	kit.Must(err)
	for _, e := range l {
		if n := e.Name(); n != "store" && n != "file" && n != "out" {
			return kit.Fail("%s: %s appears", what, n)
		}
	}
	return nil
}

func impSame[W any](what string, want map[string]W, k *K, of func(W) (*Key, string)) error {
	if len(k.Keys) != len(want) {
		return kit.Fail("%s: there are %d keys and should be %d: %q", what, len(k.Keys), len(want), keysSnap(k))
	}
	for i := range k.Keys {
		have := &k.Keys[i]
		w, ok := want[string(have.Id)]
		if !ok {
			return kit.Fail("%s: there should be no key %s", what, keyString(have))
		}
		key, keepers := of(w)
		if keyNoKeepers(key) != keyNoKeepers(have) || keepers != keeperSet(have) {
			return kit.Fail("%s: the key is\n  %s\nand should be of %s\n  %s", what, keyString(have), keepers, keyNoKeepers(key))
		}
	}
	return nil
}

func enumImports(r *kit.Run, yield func(importCase) bool) {
	lists := func(mask int, more []int) (l []int) {
		for i := 0; i < 4; i++ {
			if mask>>i&1 != 0 {
				l = append(l, i)
			}
		}
		return append(l, more...)
	}
	ids := kit.Pick(r, 3, 4)
	n := 0
	for h := 0; h < 1<<ids; h++ {
		for s := 0; s < 1<<ids; s++ {
			for _, more := range [][]int{nil, {4}, {5}, {5, 4}} {
				for sel := range impSels {
					// at most one question for a key of the file
					for a := 0; a < 1<<(ids+1); a++ {
						c := importCase{Have: lists(h, nil), Src: lists(s, more), Answers: a, Sel: sel}
						if !c.asks() {
							continue
						}
						n++
						if !r.Thorough() && n%5 != 0 || r.Thorough() && ids > 3 && n%3 != 0 {
							continue
						}
						c.Also = []string{"", "list", "export", "delete", "list"}[n/5%5]
						if !yield(c) {
							return
						}
					}
				}
			}
		}
	}
	for _, also := range []string{"", "list", "export"} {
		for sel := range impSels[:4] {
			for _, f := range []string{"wrong password", "absent", "not a store", "cut"} {
				if !yield(importCase{Have: []int{0, 1}, Src: []int{1, 2, 3}, Sel: sel, Fault: f, Also: also}) {
					return
				}
			}
			for stop := 1; stop < 5; stop++ {
				for a := 0; a < 8; a++ {
					if stop == 1 && a > 0 || stop > 1 && a>>(stop-2) != 0 {
						continue
					}
					if !yield(importCase{Have: []int{0, 1, 2}, Src: []int{0, 3, 1, 2}, Sel: sel, Stop: stop, Answers: a, Also: also}) {
						return
					}
				}
			}
		}
	}
}

// asks reports whether there is a question for every answer that is yes.
func (c importCase) asks() bool {
	there, n := map[string]bool{}, 0
	for _, i := range c.Have {
		there[impIds[i]] = true
	}
	for _, i := range c.Src {
		k := impKey(i, 2)
		if len(k.Id) != 5 || !impSels[c.Sel].Is(&k) {
			continue
		}
		if there[impIds[i]] {
			n++
		}
		there[impIds[i]] = true
	}
	return c.Answers>>n == 0
}
