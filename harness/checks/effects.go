package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/sa6mwa/dtg"
	"github.com/sa6mwa/krypto431"
	"verif/fault"
	"verif/kit"
	"verif/ref"
)

// C28: a session does what it reports, that is what it was asked to do, and
// nothing else. The specification is a transition relation on the contents of
// the store; every session of the real program is compared with it.

// ---------------------------------------------------------------- stores

const fxStores = 4

func fxStore(n int) *K {
	gs, kl := 5, 60
	if n == 2 {
		gs, kl = 4, 40
	}
	k := blank(gs, kl, "AA")
	if n == 0 {
		return k
	}
	add := func(i int, used, comp bool, exp time.Time, to ...string) {
		x := mkKey(keyID(i*7919+11, gs), keyLetters(i, kl), to...)
		x.Used, x.Compromised, x.Expires.Time = used, comp, exp
		x.Comment = []rune(fmt.Sprint("comment ", i))
		addKey(k, x)
	}
	msg := func(id, from, text string, to ...string) {
		m := Msg{Id: []rune(id), Recipients: runes2(to), From: []rune(from), PlainText: []rune(text), DTG: dtg.DTG{Time: day0}}
		m.SetInstance(k)
		k.Messages = append(k.Messages, m)
	}
	past := time.Date(2020, 1, 2, 3, 4, 0, 0, time.UTC)
	switch n {
	case 1:
		add(0, false, false, farFuture, "BB")
		add(1, false, false, farFuture, "BB")
		add(2, false, false, farFuture, "BB", "CC")
		add(3, true, false, farFuture, "CC")
		add(4, false, true, farFuture, "CC")
		add(5, false, false, farFuture)
		add(6, false, false, past, "CC")
		msg("aB12", "BB", string(fromBravo(k, 1, "LATE")), "AA")
		msg("Ab12", "BB", "QQXXQ ABCDE FGHIJ KLMNO", "AA")
		msg("m003", "CC", "PLAIN TEXT", "AA", "BB")
		m := newMsg(k, "SENT", "BB")
		m.Id = []rune("m004")
		m.DTG = dtg.DTG{Time: day0}
		kit.Must(m.Encipher())
		k.Messages = append(k.Messages, *m)
	case 2:
		add(0, false, false, farFuture, "BB")
		add(1, false, false, farFuture, "CC", "BB")
		msg("x001", "BB", "PLAIN TEXT", "AA")
	case 3:
		msg("only", "BB", string(fromBravo(fxStore(1), 1, "LATE")), "AA")
		add(9, true, false, farFuture, "BB")
	}
	return k
}

var fxBytes = map[int][]byte{}

func fxFile(r *kit.Run, n int) []byte {
	if fxBytes[n] == nil {
		dir, done := r.Dir()
		defer done()
		k := fxStore(n)
		f := filepath.Join(dir, "store")
		k.SetPersistence(f)
		kit.Must(k.SetPFKFromString(pfkHex))
		kit.Must(k.Save())
		b, err := os.ReadFile(f)
		kit.Must(err)
		fxBytes[n] = b
	}
	return fxBytes[n]
}

// ---------------------------------------------------------------- sessions

// fxCmd is one session: the operations of a keys or messages command, or
// another command.
type fxCmd struct {
	Cmd     string   // keys, messages, init, pfk
	Del     bool     `json:",omitempty"`
	Ids     []string `json:",omitempty"` // FIRST, LAST, LOWER or literally
	Yes     bool     `json:",omitempty"`
	New     string   `json:",omitempty"` // keys: number; messages: text
	Expire  string   `json:",omitempty"`
	Names   []string `json:",omitempty"` // keepers or addressees
	All     bool     `json:",omitempty"`
	Export  string   `json:",omitempty"` // new, existing
	List    bool     `json:",omitempty"`
	Output  string   `json:",omitempty"` // file name
	Type    string   `json:",omitempty"`
	Group   int      `json:",omitempty"` // init
	Call    string   `json:",omitempty"`
	Length  int      `json:",omitempty"`
	NewPfk  string   `json:",omitempty"`
	NoPlace bool     `json:",omitempty"` // init: on a file that is not there

	// on a terminal, where the program asks
	Tty    bool   `json:",omitempty"`
	Pick   int    `json:",omitempty"` // rows ticked for deletion (bit mask), or interrupted
	Answer string `json:",omitempty"` // to the question whether to overwrite: y, n, interrupt
	Given  string `json:",omitempty"` // init: given as options (letters), others are asked for
}

const fxInterrupt = 1 << 20

var fxTexts = map[string]struct {
	Gram string
	From string
	To   []string
	Text string
	Bad  bool // can not be read or not be coded
	Late bool // deciphered if its key is there
}{
	"send":    {Gram: "BB DE AA 041200 = HELLO = K", From: "AA", To: []string{"BB"}, Text: "HELLO"},
	"both":    {Gram: "BB CC DE AA 041200 = HELLO = K", From: "AA", To: []string{"BB", "CC"}, Text: "HELLO"},
	"none":    {Gram: "DE AA 041200 = NOTE = K", From: "AA", Text: "NOTE"},
	"nokey":   {Gram: "DD DE AA 041200 = HELLO = K", From: "AA", To: []string{"DD"}, Text: "HELLO"},
	"plain":   {Gram: "AA DE BB 041200 = WELL RECEIVED = K", From: "BB", To: []string{"AA"}, Text: "WELL RECEIVED"},
	"mine":    {Gram: "DE BB 041200 = TO ALL = K", From: "BB", To: []string{"AA"}, Text: "TO ALL"},
	"lines":   {Gram: "aa, cc de bb 041200\r\n= well\r\nreceived =\r\nK\r\n", From: "BB", To: []string{"AA", "CC"}, Text: "well received"},
	"odd":     {Gram: "BB DE AA 041200 = ONE * TWO = K", Bad: true},
	"garbage": {Gram: "HELLO", Bad: true},
	"nothing": {Gram: "", Bad: true},
	"cipher":  {Gram: "AA DE BB 041200 = CIPHER = K", From: "BB", To: []string{"AA"}, Late: true},
}

func fxCipher() string { return string(fromBravo(fxStore(1), 0, "SECRET")) }

func (c fxCmd) stdin() string {
	if c.Cmd != "messages" || c.New == "" {
		return ""
	}
	return c.typed(strings.Replace(fxTexts[c.New].Gram, "CIPHER", fxCipher(), 1))
}

// typed is a text as it can be typed on a terminal: the program takes a
// capital R for the end of the answer where the cursor is.
func (c fxCmd) typed(s string) string {
	if c.Tty {
		s = strings.ReplaceAll(strings.ReplaceAll(s, "R", "r"), "\r\n", "\n")
	}
	return s
}

func (c fxCmd) String() string {
	var w fxWorld
	w.pre = blank(5, 60, "AA")
	return strings.Join(c.args(&w, "DIR"), " ")
}

// fxWorld is what a session starts from and what the specification makes of it.
type fxWorld struct {
	pre     *K // as loaded
	pfk     string
	want    *K // expected afterwards, without new items
	made    int
	expires time.Time
	keepers []string
	msg     string          // text expected as a new message
	suits   map[string]bool // keys the new message can be enciphered with
	fail    bool
	stop    bool
	script  []say // what it asks, and the answers
	reports []string
	totals  []string
	files   map[string]func(b []byte) error
}

func (w *fxWorld) ids(c fxCmd, msgs bool) []string {
	var o []string
	var all []string
	if msgs {
		for i := range w.pre.Messages {
			all = append(all, string(w.pre.Messages[i].Id))
		}
	} else {
		for i := range w.pre.Keys {
			all = append(all, string(w.pre.Keys[i].Id))
		}
	}
	for _, id := range c.Ids {
		switch {
		case id == "FIRST" && len(all) > 0:
			id = all[0]
		case id == "LAST" && len(all) > 0:
			id = all[len(all)-1]
		case id == "LOWER" && len(all) > 0:
			id = strings.ToLower(all[0])
		}
		o = append(o, id)
	}
	return o
}

func (c fxCmd) args(w *fxWorld, dir string) []string {
	store := filepath.Join(dir, "store")
	if c.NoPlace {
		store = filepath.Join(dir, "fresh")
	}
	a := []string{"-f", store}
	if c.Cmd == "pfk" {
		return []string{"pfk", "-c", store, "-y", "-k", c.NewPfk}
	}
	a = append(a, c.Cmd)
	flag := func(on bool, f ...string) {
		if on {
			a = append(a, f...)
		}
	}
	if c.Cmd == "init" {
		given := func(l string) bool { return !c.Tty || strings.Contains(c.Given, l) }
		flag(given("c"), "-c", c.Call)
		flag(c.Yes, "-y")
		flag(c.New != "" && given("n"), "-n", c.New)
		flag(c.Expire != "" && given("x"), "-x", c.Expire)
		for _, n := range c.Names {
			flag(given("k"), "-k", n)
		}
		flag(c.Group != 0 && given("g"), "-g", fmt.Sprint(c.Group))
		flag(c.Length != 0 && given("l"), "-l", fmt.Sprint(c.Length))
		return a
	}
	msgs := c.Cmd == "messages"
	flag(c.Output != "", "-o", filepath.Join(dir, c.Output))
	flag(c.Type != "", "--type", c.Type)
	flag(c.List, "-l")
	flag(c.Export == "new", "-E", filepath.Join(dir, "exported"))
	flag(c.Export == "existing", "-E", filepath.Join(dir, "existing"))
	if msgs {
		flag(c.New != "", "-n")
	} else {
		flag(c.New != "", "-n", c.New)
	}
	flag(c.Expire != "", "-x", c.Expire)
	flag(c.Del, "-d")
	flag(c.Yes, "-y")
	flag(c.All, "--all")
	for _, id := range w.ids(c, msgs) {
		flag(true, "-i", id)
	}
	for _, n := range c.Names {
		if msgs {
			flag(true, "-t", n)
		} else {
			flag(true, "-k", n)
		}
	}
	return a
}

// names as the program understands them
func fxNames(in []string) []string {
	var o []string
	for _, s := range in {
		for _, n := range strings.FieldsFunc(s, func(r rune) bool { return r == ',' || r == ' ' }) {
			n = strings.ToUpper(n)
			dup := false
			for _, x := range o {
				dup = dup || x == n
			}
			if !dup {
				o = append(o, n)
			}
		}
	}
	return o
}

func fxHas(in [][]rune, n string) bool {
	for i := range in {
		if string(in[i]) == n {
			return true
		}
	}
	return false
}

func (c fxCmd) selected(id string, ids []string, fold bool, who [][]rune) bool {
	if c.All {
		return true
	}
	if len(ids) > 0 {
		for _, x := range ids {
			if x == id || fold && strings.EqualFold(x, id) {
				return true
			}
		}
		return false
	}
	for _, n := range fxNames(c.Names) {
		if !fxHas(who, n) {
			return false
		}
	}
	return true
}

// choose is the dialogue of a deletion; it gives the rows ticked, or none if
// it is interrupted.
func (c fxCmd) choose(w *fxWorld, question string, rows int) map[int]bool {
	keys := ""
	o := map[int]bool{}
	for i := 0; i < rows; i++ {
		if i > 0 {
			keys += down
		}
		if c.Pick&(1<<i) != 0 {
			keys += " "
			o[i] = true
		}
	}
	if c.Pick == fxInterrupt {
		w.script = append(w.script, say{Wait: question, Send: "\x03"})
		w.fail = true
		return nil
	}
	w.script = append(w.script, say{Wait: question, Send: keys + enter})
	return o
}

// overwrite is the question about a file that is there already.
func (c fxCmd) overwrite(w *fxWorld) bool {
	switch {
	case c.Yes:
		return true
	case !c.Tty:
		return false
	}
	w.script = append(w.script, say{"Overwrite ", map[string]string{"y": "y" + enter, "n": "n" + enter, "": enter, "interrupt": "\x03"}[c.Answer], true})
	return c.Answer == "y"
}

func (w *fxWorld) say(f string, a ...any) { w.reports = append(w.reports, fmt.Sprintf(f, a...)) }

// spec runs the specification of a keys session.
func (c fxCmd) specKeys(w *fxWorld, dir string) {
	ids := w.ids(c, false)
	sel := func(x *Key) bool { return c.selected(string(x.Id), ids, true, x.Keepers) }
	chosen := func() (o []string) {
		for i := range w.want.Keys {
			if sel(&w.want.Keys[i]) {
				o = append(o, keyString(&w.want.Keys[i]))
			}
		}
		return
	}
	newSel := func() int { // of the keys made in this session
		switch {
		case c.All:
			return w.made
		case len(ids) > 0:
			return 0
		}
		for _, n := range fxNames(c.Names) {
			in := false
			for _, k := range w.keepers {
				in = in || k == n
			}
			if !in {
				return 0
			}
		}
		return w.made
	}
	if c.Del {
		if len(w.want.Keys) == 0 {
			w.say("none")
			return
		}
		n, named := 0, ids
		if !c.Yes {
			if len(chosen()) == 0 {
				w.say("nomatch")
				return
			}
			if !c.Tty {
				w.fail = true // nobody to ask
				return
			}
			pick := c.choose(w, "Select key(s) to delete", len(chosen()))
			if w.fail {
				return
			}
			var stay []Key
			row := 0
			for i := range w.want.Keys {
				if sel(&w.want.Keys[i]) {
					row++
					if pick[row-1] {
						n++
						continue
					}
				}
				stay = append(stay, w.want.Keys[i])
			}
			w.want.Keys = stay
			named = nil
		}
		for _, id := range named {
			for i := range w.want.Keys {
				if strings.EqualFold(string(w.want.Keys[i].Id), id) {
					w.want.Keys = append(w.want.Keys[:i:i], w.want.Keys[i+1:]...)
					n++
					break
				}
			}
		}
		if n > 0 {
			w.say("deleted %d", n)
		} else {
			w.say("nodelete")
		}
	}
	var n int
	fmt.Sscan(c.New, &n)
	if n > 0 {
		if c.Expire == "bad" {
			w.fail = true
			return
		}
		w.made = n
		w.keepers = nil
		for _, x := range fxNames(c.Names) {
			if x != string(w.pre.CallSign) {
				w.keepers = append(w.keepers, x)
			}
		}
		w.say("generated %d", n)
	}
	if c.Export != "" {
		if c.Export == "existing" && !c.overwrite(w) {
			w.fail = true
			return
		}
		want, more := chosen(), newSel()
		w.say("exported %d", len(want)+more)
		pfk := w.pfk
		w.files[map[string]string{"new": "exported", "existing": "existing"}[c.Export]] = func(b []byte) error {
			f := filepath.Join(dir, "look")
			kit.Must(os.WriteFile(f, b, 0600))
			defer os.Remove(f)
			k, err := openAs(f, pfk)
			if err != nil {
				return kit.Fail("the exported store does not open: %v", err)
			}
			if len(k.Messages) != 0 || len(k.Keys) != len(want)+more {
				return kit.Fail("the exported store has %d keys and %d messages instead of %d and none", len(k.Keys), len(k.Messages), len(want)+more)
			}
			have := keysSnap(k)
			for _, x := range want {
				if !contains(have, x) {
					return kit.Fail("the exported store has not the key %s", trunc(x))
				}
			}
			return nil
		}
	}
	if c.List {
		if len(w.want.Keys)+w.made == 0 {
			w.say("none")
			return
		}
		if len(chosen())+newSel() == 0 {
			w.say("nomatch")
			return
		}
		w.totals = append(w.totals, fmt.Sprintf("%d %d %d", len(w.want.Keys)+w.made, len(w.want.Messages), len(chosen())+newSel()))
	}
	if c.Output != "" {
		c.specOutput(w, len(chosen())+newSel(), func(k *K) string { return k.KeysAsText(func(x *Key) bool { return sel(x) }) })
	}
}

func (c fxCmd) specOutput(w *fxWorld, n int, text func(*K) string) {
	typ := c.Type
	if typ == "" {
		typ = "pdf"
		if e := filepath.Ext(c.Output); e == ".txt" || e == ".TXT" {
			typ = "txt"
		}
	}
	switch l := strings.ToLower(typ); {
	case n > 0 || l != "pdf" && l != "txt" && l != "text":
	case l == "pdf":
		return // says so and prints nothing
	default:
		w.fail = true // an empty set is not printed
		return
	}
	switch typ {
	case "pdf", "PDF":
		w.files[c.Output] = func(b []byte) error {
			if !strings.HasPrefix(string(b), "%PDF-") || !strings.Contains(string(b[max(0, len(b)-32):]), "%%EOF") {
				return kit.Fail("the PDF is not a complete one")
			}
			return nil
		}
	case "txt", "TXT", "text":
		w.files[c.Output] = func(b []byte) error {
			k, err := openAs(w.pre.GetPersistence(), w.pfk)
			kit.Must(err)
			if string(b) != text(k) {
				return kit.Fail("the printout is not that of the store: %q", trunc(string(b)))
			}
			return nil
		}
	default:
		w.fail = true
	}
}

// decode deciphers by hand what was received as text.
func (w *fxWorld) decode(text string) (plain string, start string, used []string, ok bool) {
	gs := w.pre.GroupSize
	t := []rune(strings.ToUpper(strings.Join(strings.Fields(text), "")))
	if len(t) < 2*gs || len(t)%gs != 0 {
		return
	}
	for _, x := range t {
		if x < 'A' || x > 'Z' {
			return
		}
	}
	p, segs, err := ref.Decode(t[gs:], string(t[:gs]), gs, keyMap(w.want), nil)
	if err != nil {
		return
	}
	for _, s := range segs {
		used = append(used, s.KeyID)
	}
	return string(p), string(t[:gs]), used, true
}

func (w *fxWorld) mark(ids []string) {
	for i := range w.want.Keys {
		if contains(ids, string(w.want.Keys[i].Id)) {
			w.want.Keys[i].Used = true
		}
	}
}

func (c fxCmd) specMessages(w *fxWorld, dir string) {
	ids := w.ids(c, true)
	sel := func(m *Msg) bool { return c.selected(string(m.Id), ids, false, m.Recipients) }
	count := func() (n int) {
		for i := range w.want.Messages {
			if sel(&w.want.Messages[i]) {
				n++
			}
		}
		return
	}
	// showing deciphers what can be deciphered by now
	summary := func() {
		for i := range w.want.Messages {
			m := &w.want.Messages[i]
			if !sel(m) || len(m.KeyId) > 0 {
				continue
			}
			if p, start, used, ok := w.decode(string(m.PlainText)); ok {
				m.CipherText = []rune(strings.Join(strings.Fields(string(m.PlainText)), ""))[w.pre.GroupSize:]
				m.PlainText, m.KeyId = []rune(p), []rune(start)
				w.mark(used)
			}
		}
	}
	if c.Del {
		if len(w.want.Messages) == 0 {
			w.say("none")
			return
		}
		n, named := 0, ids
		if !c.Yes {
			summary()
			if count() == 0 {
				w.say("nomatch")
				return
			}
			if !c.Tty {
				w.fail = true
				return
			}
			pick := c.choose(w, "Select message(s) to delete", count())
			if w.fail {
				return
			}
			var stay []Msg
			row := 0
			for i := range w.want.Messages {
				if sel(&w.want.Messages[i]) {
					row++
					if pick[row-1] {
						n++
						continue
					}
				}
				stay = append(stay, w.want.Messages[i])
			}
			w.want.Messages = stay
			named = nil
		}
		for _, id := range named {
			for i := range w.want.Messages {
				if string(w.want.Messages[i].Id) == id {
					w.want.Messages = append(w.want.Messages[:i:i], w.want.Messages[i+1:]...)
					n++
					break
				}
			}
		}
		if n > 0 {
			w.say("deleted %d", n)
		} else {
			w.say("nodelete")
		}
	}
	if c.New != "" {
		t := fxTexts[c.New]
		if c.Tty {
			lines := append(strings.Split(strings.TrimSpace(c.stdin()), "\n"), "", "")
			for i, l := range lines {
				x := say{"", l + enter, true}
				if i == 0 {
					x.Wait = "your call is "
				}
				if c.Answer == "interrupt" && i == len(lines)-1 {
					x.Send = "\x03"
				}
				w.script = append(w.script, x)
			}
			if c.Answer == "interrupt" {
				w.fail = true
				return
			}
		}
		if t.Bad {
			w.fail = true
			return
		}
		m := Msg{From: []rune(t.From), Recipients: runes2(t.To), PlainText: []rune(c.typed(t.Text)), Id: []rune("NEW")}
		if t.Late {
			m.PlainText = []rune(c.typed(fxCipher()))
			if p, start, used, ok := w.decode(fxCipher()); ok {
				m.CipherText = []rune(strings.Join(strings.Fields(fxCipher()), ""))[w.pre.GroupSize:]
				m.PlainText, m.KeyId = []rune(p), []rune(start)
				w.mark(used)
			}
		} else if t.From == "AA" && string(w.pre.CallSign) == "AA" {
			// one suitable key is enough
			w.suits = map[string]bool{}
			for i := range w.want.Keys {
				if fxSuits(&w.want.Keys[i], t.To, w.pre.GroupSize) {
					w.suits[string(w.want.Keys[i].Id)] = true
				}
			}
			if len(w.suits) == 0 {
				w.fail = true
				return
			}
		}
		w.want.Messages = append(w.want.Messages, m)
		w.msg = "NEW"
		w.say("saved NEW")
	}
	if c.List {
		if len(w.want.Messages) == 0 {
			w.say("none")
			return
		}
		summary()
		if count() == 0 {
			w.say("nomatch")
			return
		}
		w.totals = append(w.totals, fmt.Sprintf("%d %d %d", len(w.want.Keys), len(w.want.Messages), count()))
	}
	if c.Output != "" {
		c.specOutput(w, count(), func(k *K) string {
			ids := ids
			return k.MessagesAsText(func(m *Msg) bool { return c.selected(string(m.Id), ids, false, m.Recipients) })
		})
	}
}

func fxSuits(x *Key, to []string, gs int) bool {
	if x.Used || x.Compromised || len(x.Id) != gs || (len(to) == 0) != (len(x.Keepers) == 0) {
		return false
	}
	for _, t := range to {
		if !fxHas(x.Keepers, t) {
			return false
		}
	}
	return true
}

func (c fxCmd) specOther(w *fxWorld) {
	switch c.Cmd {
	case "pfk":
		if len(c.NewPfk) != 64 {
			w.fail = true
			return
		}
		w.pfk = c.NewPfk
	case "init":
		ask := func(q, a string, as ...string) {
			w.script = append(w.script, say{q, a + enter, true})
		}
		if c.Tty && !strings.Contains(c.Given, "c") {
			if c.Yes {
				w.fail = true
				return
			}
			ask("Enter your call-sign:", c.Call)
		}
		if c.Tty && c.Given == "" {
			num := func(n int) string {
				if n == 0 {
					return ""
				}
				return fmt.Sprint(n)
			}
			ask("number of initial keys", c.New)
			ask("Enter keepers", strings.Join(c.Names, ","))
			ask("Enter expiry date", c.Expire)
			ask("Choose length of keys", num(c.Length))
			ask("Choose group size", num(c.Group))
		}
		if c.New != "" && c.New != "0" && c.Expire == "bad" {
			w.fail = true
			return
		}
		if !c.NoPlace && c.Tty && !c.overwrite(w) {
			w.fail = true
			return
		}
		if !c.Yes && !c.NoPlace && !c.Tty || c.Group < 0 || c.Length == 1 || c.New != "" && c.New != "0" && c.Expire == "bad" {
			w.fail = true
			return
		}
		n := 0
		fmt.Sscan(c.New, &n)
		w.made = n
		for _, x := range fxNames(c.Names) {
			if x != strings.ToUpper(c.Call) {
				w.keepers = append(w.keepers, x)
			}
		}
		w.want = blank(5, 350, strings.ToUpper(c.Call))
		t := krypto431.New()
		w.want.Columns, w.want.KeyColumns = t.Columns, t.KeyColumns
		if c.Group != 0 {
			w.want.GroupSize = c.Group
		}
		if c.Length != 0 {
			w.want.KeyLength = c.Length
		}
		w.say("saved")
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

var fxReports = []struct {
	re   *regexp.Regexp
	name string
}{
	{regexp.MustCompile(`^Generated (\d+) keys?`), "generated"},
	{regexp.MustCompile(`^Deleted (\d+) `), "deleted"},
	{regexp.MustCompile(`^Exported (\d+) keys?`), "exported"},
	{regexp.MustCompile(`^Imported (\d+) keys?`), "imported"},
	{regexp.MustCompile(`^Saved message (\w+) `), "saved"},
	{regexp.MustCompile(`^Saved /`), "saved"},
	{regexp.MustCompile(`^No (?:keys|messages) were deleted`), "nodelete"},
	{regexp.MustCompile(`^No (?:key|message) out of`), "nomatch"},
	{regexp.MustCompile(`^There are no (?:keys|messages) in`), "none"},
}

func fxReported(err string) (o []string) {
	for _, l := range textLines(err) {
		for _, p := range fxReports {
			if m := p.re.FindStringSubmatch(l); m != nil {
				o = append(o, strings.TrimSpace(p.name+" "+strings.Join(m[1:], "")))
				break
			}
		}
	}
	return
}

var fxTotals = regexp.MustCompile(`TOTALKEYS=(\d+) MESSAGES=(\d+)`)

// fxRun runs one session in dir and compares. It returns the secret the store
// has afterwards.
func fxRun(r *kit.Run, dir, pfk string, c fxCmd, path string) (string, error) {
	store := filepath.Join(dir, "store")
	if c.NoPlace {
		os.Remove(filepath.Join(dir, "fresh"))
	}
	for _, f := range []string{"exported", "out.txt", "out.pdf", "out.TXT", "out.dat"} {
		os.Remove(filepath.Join(dir, f))
	}
	existing := filepath.Join(dir, "existing")
	kit.Must(os.WriteFile(existing, []byte("here first"), 0600))
	pre, err := openAs(store, pfk)
	kit.Must(err)
	want, err := openAs(store, pfk)
	kit.Must(err)
	w := &fxWorld{pre: pre, want: want, pfk: pfk, files: map[string]func([]byte) error{}}
	before, err := os.ReadFile(store)
	kit.Must(err)
	stdin := c.stdin()
	if c.Tty {
		stdin = ""
	}
	sp := cli(dir, stdin, append([]string{"-K", pfk}, c.args(w, dir)...)...)
	switch c.Cmd {
	case "keys":
		c.specKeys(w, dir)
	case "messages":
		c.specMessages(w, dir)
	default:
		c.specOther(w)
	}
	t0 := time.Now()
	var res fault.Result
	if !c.Tty {
		res = plain(sp)
	} else {
		res = talk(sp, w.script...)
	}
	t1 := time.Now()
	r.Step(1)
	path += " | " + strings.ReplaceAll(strings.Join(c.args(w, dir)[1:], " "), dir, "")
	if s := c.stdin(); s != "" && !c.Tty {
		path += fmt.Sprintf(" (%q)", s)
	}
	if res.Hung || strings.Contains(res.Err, "goroutine ") {
		return "", kit.Fail("%s: the program hangs or crashes: %s", path, trunc(res.Err))
	}
	if c.Tty {
		path += fmt.Sprintf(" on a terminal, ticks %b, answers", c.Pick)
		for _, x := range w.script {
			path += fmt.Sprintf(" %q", x.Send)
		}
		if res.Hung || strings.Contains(res.Out, "goroutine ") {
			return "", kit.Fail("%s: the program hangs or crashes: %s", path, trunc(res.Out))
		}
		if res.Err != "" {
			return "", kit.Fail("%s: does not ask %s: %s", path, res.Err, trunc(res.Out))
		}
		res.Err = res.Out
	}
	if w.fail != (res.Code != 0) {
		return "", kit.Fail("%s: exit code %d, output %s%s", path, res.Code, trunc(res.Out), trunc(res.Err))
	}
	after, err := os.ReadFile(store)
	if err != nil {
		return "", kit.Fail("%s: the store is gone", path)
	}
	if c.NoPlace {
		if string(after) != string(before) {
			return "", kit.Fail("%s: changes another store", path)
		}
		store = filepath.Join(dir, "fresh")
		if w.fail {
			if _, err := os.Stat(store); err == nil {
				return "", kit.Fail("%s: fails and leaves a file", path)
			}
			return pfk, nil
		}
	}
	now, err := openAs(store, w.pfk)
	if err != nil {
		return "", kit.Fail("%s: the store does not open afterwards: %v", path, err)
	}
	w.pre.SetPersistence(store)
	if err := w.compare(r, c, now, res, t0, t1); err != nil {
		return "", kit.Fail("%s: %v", path, err)
	}
	// no other file appears or changes
	l, err := os.ReadDir(dir)
	kit.Must(err)
	for _, e := range l {
		f := filepath.Join(dir, e.Name())
		b, err := os.ReadFile(f)
		kit.Must(err)
		judge, ok := w.files[e.Name()]
		switch {
		case e.Name() == "store" || e.Name() == "fresh":
		case ok && judge != nil:
			if err := judge(b); err != nil {
				return "", kit.Fail("%s: %s: %v", path, e.Name(), err)
			}
			delete(w.files, e.Name())
		case ok:
		case e.Name() == "existing":
			if string(b) != "here first" {
				return "", kit.Fail("%s: changes another file", path)
			}
		default:
			return "", kit.Fail("%s: writes a file %s that was not asked for", path, e.Name())
		}
	}
	for f, judge := range w.files {
		if judge != nil {
			return "", kit.Fail("%s: the file %s is missing", path, f)
		}
	}
	if c.NoPlace {
		return pfk, nil
	}
	return w.pfk, nil
}

func (w *fxWorld) compare(r *kit.Run, c fxCmd, now *K, res fault.Result, t0, t1 time.Time) error {
	// settings
	s := func(k *K) string {
		return fmt.Sprint(k.GroupSize, k.KeyLength, k.Columns, k.KeyColumns, string(k.CallSign))
	}
	if s(now) != s(w.want) {
		return kit.Fail("settings are %s instead of %s", s(now), s(w.want))
	}
	// new items
	sort.Strings(w.keepers)
	old := map[string]bool{}
	for i := range w.want.Keys {
		old[string(w.want.Keys[i].Id)] = true
	}
	made := 0
	letters := map[string]bool{}
	var keys []string
	for i := range now.Keys {
		x := &now.Keys[i]
		if old[string(x.Id)] {
			continue
		}
		made++
		if len(x.Id) != w.want.GroupSize || len(x.Runes) < w.want.KeyLength || len(x.Runes)%w.want.GroupSize != 0 {
			return kit.Fail("a new key has an identifier of %d and %d letters", len(x.Id), len(x.Runes))
		}
		k := fxNames(krypto431.RunesToStrings(&x.Keepers)) // as a set
		sort.Strings(k)
		if strings.Join(k, ",") != strings.Join(w.keepers, ",") || x.Used || x.Compromised || len(x.Comment) != 0 {
			return kit.Fail("a new key is %s, not one for %v", trunc(keyString(x)), w.keepers)
		}
		if letters[string(x.Runes)] {
			return kit.Fail("two new keys have the same letters")
		}
		letters[string(x.Runes)] = true
		e := x.Expires.Time
		if c.Expire == "" && (e.Before(t0.Add(365*24*time.Hour-time.Second)) || e.After(t1.Add(365*24*time.Hour+time.Second))) {
			return kit.Fail("a new key expires %v", e)
		}
		if c.Expire != "" && !e.Equal(time.Date(2040, 12, 31, 0, 0, 0, 0, time.UTC)) {
			return kit.Fail("a new key expires %v instead of %s", e, c.Expire)
		}
		if x.Created.Time.Before(t0.Add(-time.Second)) || x.Created.Time.After(t1.Add(time.Second)) {
			return kit.Fail("a new key was created %v", x.Created.Time)
		}
	}
	if made != w.made {
		return kit.Fail("%d keys were added instead of %d", made, w.made)
	}
	newID := ""
	if w.msg != "" {
		if len(now.Messages) == 0 {
			return kit.Fail("the message is not in the store")
		}
		m := &now.Messages[len(now.Messages)-1]
		x := &w.want.Messages[len(w.want.Messages)-1]
		newID = string(m.Id)
		if len(newID) != 4 {
			return kit.Fail("the new message has the identifier %q", newID)
		}
		for i := range w.pre.Messages {
			if string(w.pre.Messages[i].Id) == newID {
				return kit.Fail("the new message has the identifier of another one")
			}
		}
		x.Id = m.Id
		x.Radiogram = m.Radiogram
		if strings.Join(strings.Fields(string(m.Radiogram)), " ") != strings.Join(strings.Fields(c.stdin()), " ") {
			return kit.Fail("the raw radiogram is %q", string(m.Radiogram))
		}
		x.DTG = m.DTG
		if g := m.DTG.Time; g.Day() != 4 || g.Hour() != 12 || g.Minute() != 0 {
			return kit.Fail("the date-time group is %s", m.DTG)
		}
		if w.suits != nil {
			key := -1
			for i := range w.want.Keys {
				if string(w.want.Keys[i].Id) == string(m.KeyId) {
					key = i
				}
			}
			if key < 0 || !w.suits[string(m.KeyId)] {
				return kit.Fail("the message is enciphered with an unsuitable key %q", string(m.KeyId))
			}
			p, segs, err := ref.Decode(m.CipherText, string(m.KeyId), w.want.GroupSize, keyMap(w.want), nil)
			if err != nil || len(segs) != 1 || string(p) != string(x.PlainText) {
				return kit.Fail("the message reads %q by hand: %v", string(p), err)
			}
			w.want.Keys[key].Used = true
			x.KeyId, x.CipherText = m.KeyId, m.CipherText
			if !strings.Contains(strings.Join(strings.Fields(res.Out), ""), string(m.KeyId)+string(m.CipherText)) {
				return kit.Fail("the message is not shown")
			}
		}
	}
	for i := range now.Keys {
		if old[string(now.Keys[i].Id)] {
			keys = append(keys, keyString(&now.Keys[i]))
		}
	}
	a, b := keysSnap(w.want), keys
	sort.Strings(a)
	sort.Strings(b)
	if d := diff(strings.Join(a, "\n"), strings.Join(b, "\n")); d != "" {
		return kit.Fail("the keys differ from what was asked for: %s", d)
	}
	a, b = msgsSnap(w.want), msgsSnap(now)
	sort.Strings(a)
	sort.Strings(b)
	if d := diff(strings.Join(a, "\n"), strings.Join(b, "\n")); d != "" {
		return kit.Fail("the messages differ from what was asked for: %s", d)
	}
	// reports
	have := fxReported(res.Err)
	wanted := append([]string(nil), w.reports...)
	for i := range wanted {
		wanted[i] = strings.Replace(wanted[i], "NEW", newID, 1)
	}
	if strings.Join(have, ";") != strings.Join(wanted, ";") {
		return kit.Fail("reports %q instead of %q: %s", have, wanted, trunc(res.Err))
	}
	var totals []string
	for i, l := range textLines(res.Out) {
		if m := fxTotals.FindStringSubmatch(l); m != nil {
			lines := textLines(res.Out)[i+1:]
			for len(lines) > 0 && strings.TrimSpace(lines[len(lines)-1]) == "" {
				lines = lines[:len(lines)-1]
			}
			totals = append(totals, fmt.Sprintf("%s %s %d", m[1], m[2], len(lines)-1))
		}
	}
	if strings.Join(totals, ";") != strings.Join(w.totals, ";") {
		return kit.Fail("lists (keys, messages, lines) %q instead of %q:\n%s", totals, w.totals, trunc(res.Out))
	}
	r.StateOf(w.fail, w.reports, len(now.Keys), len(now.Messages), w.totals)
	return nil
}

// ---------------------------------------------------------------- families

type fxCase struct {
	Store int
	Cmds  []fxCmd
}

func execFx(r *kit.Run, c fxCase) error {
	dir, done := r.Dir()
	defer done()
	kit.Must(os.WriteFile(filepath.Join(dir, "store"), fxFile(r, c.Store), 0600))
	pfk := pfkHex
	path := fmt.Sprint("store ", c.Store)
	for _, cmd := range c.Cmds {
		var err error
		if pfk, err = fxRun(r, dir, pfk, cmd, path); err != nil {
			return err
		}
		path += " | " + cmd.String()
	}
	return nil
}

const fxGood = "310000ZDEC40"

func enumFxKeys(r *kit.Run, yield func(fxCase) bool) {
	idss := [][]string{nil, {"FIRST"}, {"ZZZZZ"}, {"LAST", "LOWER", "LAST"}}
	names := kit.Pick(r, [][]string{nil, {"BB"}, {"bb", "AA,CC"}}, [][]string{nil, {"BB"}, {"bb", "AA,CC"}, {"CC BB"}, {"AA"}, {"DD"}})
	outs := kit.Pick(r, [][2]string{{}, {"out.txt"}, {"out.txt", "bad"}, {"out.dat"}},
		[][2]string{{}, {"out.txt"}, {"out.pdf"}, {"out.TXT"}, {"out.dat"}, {"out.txt", "pdf"}, {"out.pdf", "txt"}, {"out.txt", "bad"}, {"out.dat", "TXT"}})
	for store := 0; store < fxStores; store++ {
		for _, ids := range idss {
			for _, nm := range names {
				for _, nw := range [][2]string{{}, {"0"}, {"1", fxGood}, {"2"}, {"2", "bad"}} {
					for _, out := range outs {
						for _, exp := range []string{"", "new", "existing"} {
							for m := 0; m < 16; m++ {
								c := fxCmd{Cmd: "keys", Ids: ids, Names: nm, New: nw[0], Expire: nw[1], Output: out[0], Type: out[1], Export: exp,
									Del: m&1 != 0, Yes: m&2 != 0, List: m&4 != 0, All: m&8 != 0}
								if !c.Del && !c.List && exp == "" && out[0] == "" && nw[0] == "" {
									continue // help
								}
								if c.All && (len(ids) > 1 || !r.Thorough() && (len(nm) > 0 || out[1] != "")) {
									continue
								}
								if !r.Thorough() && store != 1 && (out[0] == "out.dat" || out[1] != "" || len(ids) > 1 || nw[0] == "0" || len(nm) > 1) {
									continue
								}
								if !r.Thorough() && store == 1 && out[1] != "" && (exp == "existing" || nw[0] == "2" && nw[1] == "") {
									continue
								}
								if !yield(fxCase{store, []fxCmd{c}}) {
									return
								}
							}
						}
					}
				}
			}
		}
	}
}

func enumFxMessages(r *kit.Run, yield func(fxCase) bool) {
	idss := [][]string{nil, {"FIRST"}, {"zzzz"}, {"LAST", "FIRST", "LAST"}, {"LOWER"}}
	texts := []string{""}
	for t := range fxTexts {
		texts = append(texts, t)
	}
	sort.Strings(texts)
	for store := 0; store < fxStores; store++ {
		for _, ids := range idss {
			for _, nm := range [][]string{nil, {"AA"}, {"bb", "AA"}} {
				for _, t := range texts {
					for _, out := range [][2]string{{}, {"out.txt"}, {"out.dat"}, {"out.txt", "bad"}} {
						for m := 0; m < 16; m++ {
							c := fxCmd{Cmd: "messages", Ids: ids, Names: nm, New: t, Output: out[0], Type: out[1],
								Del: m&1 != 0, Yes: m&2 != 0, List: m&4 != 0, All: m&8 != 0}
							if !c.Del && !c.List && out[0] == "" && t == "" {
								continue
							}
							if c.All && (len(ids) > 1 || len(nm) > 0) {
								continue
							}
							if c.Del && !c.Yes && t == "lines" {
								continue // its spaces and line ends would answer the question
							}
							if !r.Thorough() && (len(nm) > 0 && len(ids) > 0 || len(ids) > 0 && out[1] != "") {
								continue
							}
							if !r.Thorough() && store != 1 && (len(ids) > 1 || out[1] != "" || out[0] == "out.dat") {
								continue
							}
							if !yield(fxCase{store, []fxCmd{c}}) {
								return
							}
						}
					}
				}
			}
		}
	}
}

func enumFxInit(r *kit.Run, yield func(fxCase) bool) {
	for _, no := range []bool{false, true} {
		for _, yes := range []bool{false, true} {
			for _, n := range []string{"", "0", "3"} {
				for _, x := range []string{"", fxGood, "bad"} {
					for _, nm := range [][]string{nil, {"BB"}, {"qq", "bb,CC"}} {
						for _, g := range []int{0, -1, 1, 4, 7} {
							for _, l := range []int{0, 1, 40, 355} {
								if !yield(fxCase{1, []fxCmd{{Cmd: "init", Call: "QQ", NoPlace: no, Yes: yes, New: n, Expire: x, Names: nm, Group: g, Length: l}}}) {
									return
								}
							}
						}
					}
				}
			}
		}
	}
}

// sessions on a terminal
func enumFxDialogues(r *kit.Run, yield func(fxCase) bool) {
	rows := func(store int, msgs bool) int {
		if msgs {
			return len(fxStore(store).Messages)
		}
		return len(fxStore(store).Keys)
	}
	picks := func(n int) (o []int) {
		o = append(o, 0, fxInterrupt)
		for i := 0; i < n; i++ {
			o = append(o, 1<<i)
			for j := 0; j < i; j++ {
				if r.Thorough() || i == n-1 || j == 0 {
					o = append(o, 1<<i|1<<j)
				}
			}
		}
		if n > 2 {
			o = append(o, 1<<n-1)
		}
		return
	}
	answers := []string{"y", "n", "", "interrupt"}
	for store := 0; store < fxStores; store++ {
		// keys: deletion by ticking, then the other operations
		for _, sel := range []fxCmd{{}, {Names: []string{"bb"}}, {Ids: []string{"FIRST"}}, {Ids: []string{"LAST", "LOWER"}}, {All: true, Names: []string{"DD"}}, {Names: []string{"DD"}}} {
			n := rows(store, false)
			if len(sel.Ids) > 0 {
				n = min(n, 2)
			}
			for _, p := range picks(n) {
				for _, also := range []fxCmd{{}, {New: "2", Expire: fxGood}, {Export: "existing"}, {List: true}, {Export: "new", List: true, Output: "out.txt"}} {
					as := []string{""}
					if also.Export == "existing" {
						as = answers
					}
					for _, a := range as {
						if a != "" && p != 0 && !r.Thorough() && store != 1 {
							continue
						}
						c := sel
						c.Cmd, c.Tty, c.Del, c.Pick, c.Answer = "keys", true, true, p, a
						c.New, c.Expire, c.Export, c.List, c.Output = also.New, also.Expire, also.Export, also.List, also.Output
						if !yield(fxCase{store, []fxCmd{c}}) {
							return
						}
					}
				}
			}
		}
		for _, a := range answers {
			for _, sel := range []fxCmd{{}, {Names: []string{"BB"}}, {All: true}} {
				for _, yes := range []bool{false, true} {
					for _, list := range []bool{false, true} {
						c := sel
						c.Cmd, c.Tty, c.Export, c.Answer, c.Yes, c.List = "keys", true, "existing", a, yes, list
						if !yield(fxCase{store, []fxCmd{c}}) {
							return
						}
					}
				}
			}
		}
		// messages: deletion by ticking, typing, listing
		for _, sel := range []fxCmd{{}, {Names: []string{"AA"}}, {Ids: []string{"FIRST"}}, {Ids: []string{"LAST"}}, {All: true}} {
			n := rows(store, true)
			if len(sel.Ids) > 0 {
				n = min(n, 1)
			}
			for _, p := range picks(n) {
				for _, also := range []fxCmd{{}, {List: true}, {New: "send"}, {New: "cipher", List: true}, {Output: "out.txt"}, {New: "garbage"}} {
					c := sel
					c.Cmd, c.Tty, c.Del, c.Pick = "messages", true, true, p
					c.New, c.List, c.Output = also.New, also.List, also.Output
					if !yield(fxCase{store, []fxCmd{c}}) {
						return
					}
				}
			}
		}
		for t := range fxTexts {
			for _, a := range []string{"", "interrupt"} {
				for _, list := range []bool{false, true} {
					c := fxCmd{Cmd: "messages", Tty: true, New: t, Answer: a, List: list}
					if !yield(fxCase{store, []fxCmd{c}}) {
						return
					}
				}
			}
		}
	}
	// initialisation: everything asked for, or some of it given
	for _, given := range []string{"", "c", "n", "k", "g", "l", "cn", "nk", "cnkgl", "cnx", "nx"} {
		for _, call := range []string{"QQ", "sm/q1"} {
			for _, n := range []string{"", "0", "3"} {
				for _, x := range []string{"", fxGood, "bad"} {
					for _, nm := range [][]string{nil, {"BB"}, {"qq", " bb cc", "BB"}} {
						for _, gl := range [][2]int{{}, {4, 40}, {1, 0}, {0, 33}} {
							full := given == ""
							if !full && (call != "QQ" || n == "0") {
								continue
							}
							if full && !r.Thorough() && call != "QQ" && (gl[0] != 4 || n == "0") {
								continue
							}
							// what is not given is not asked for either
							has := func(l string) bool { return full || strings.Contains(given, l) }
							// given means with a value
							on := func(l string) bool { return strings.Contains(given, l) }
							if n == "" && on("n") || x == "" && on("x") || nm == nil && on("k") || gl[0] == 0 && on("g") || gl[1] == 0 && on("l") {
								continue
							}
							if n != "" && !has("n") || x != "" && !has("x") || nm != nil && !has("k") || gl[0] != 0 && !has("g") || gl[1] != 0 && !has("l") {
								continue
							}
							for _, place := range []string{"fresh", "y", "n", "", "interrupt", "yes"} {
								if place != "fresh" && place != "y" && !r.Thorough() && (call != "QQ" || gl[0] != 4 && full || len(nm) == 1) {
									continue
								}
								c := fxCmd{Cmd: "init", Tty: true, Given: given, Call: call, New: n, Expire: x, Names: nm, Group: gl[0], Length: gl[1], NoPlace: place == "fresh", Answer: place, Yes: place == "yes"}
								if c.Yes && full {
									continue // not a dialogue
								}
								if !yield(fxCase{1, []fxCmd{c}}) {
									return
								}
							}
						}
					}
				}
			}
		}
	}
}

// sessions for sequences
var fxMoves = []fxCmd{
	{Cmd: "keys", New: "1", Names: []string{"BB"}},
	{Cmd: "messages", New: "send"},
	{Cmd: "messages", List: true},
	{Cmd: "keys", Del: true, Yes: true, Ids: []string{"FIRST"}},
	{Cmd: "messages", New: "cipher"},
	{Cmd: "messages", Del: true, Yes: true, Ids: []string{"FIRST"}},
	{Cmd: "pfk", NewPfk: pfkHex2},
	{Cmd: "messages", New: "send", List: true},
	{Cmd: "keys", Export: "new", All: true},
	{Cmd: "keys", New: "2", Expire: "bad"},
	{Cmd: "messages", New: "plain"},
	{Cmd: "messages", New: "both"},
	{Cmd: "messages", New: "none"},
	{Cmd: "messages", New: "odd"},
	{Cmd: "keys", Del: true, Yes: true, Ids: []string{"LAST", "LAST"}},
	{Cmd: "messages", Del: true, Yes: true, Ids: []string{"LAST"}, Output: "out.txt"},
	{Cmd: "keys", List: true, Names: []string{"BB"}, Output: "out.txt"},
	{Cmd: "messages", Output: "out.txt", Names: []string{"AA"}},
	{Cmd: "init", Call: "AA", Yes: true, New: "2", Names: []string{"BB"}, Group: 4, Length: 40},
	{Cmd: "init", Call: "AA", New: "2"},
	{Cmd: "pfk", NewPfk: "00"},
	{Cmd: "keys", Export: "existing"},
	{Cmd: "keys", New: "2", List: true, Del: true, Yes: true, Ids: []string{"FIRST"}, Export: "new"},
	{Cmd: "messages", New: "mine", Output: "out.dat"},
	{Cmd: "pfk", NewPfk: pfkHex},
	{Cmd: "keys", Tty: true, Del: true, Pick: 3, New: "1", Names: []string{"BB"}},
	{Cmd: "messages", Tty: true, Del: true, Pick: 1, List: true},
	{Cmd: "messages", Tty: true, New: "send", List: true},
	{Cmd: "messages", Tty: true, New: "cipher", Answer: "interrupt"},
	{Cmd: "keys", Tty: true, Export: "existing", Answer: "n", List: true},
	{Cmd: "keys", Tty: true, Del: true, Pick: fxInterrupt, New: "1"},
}

func enumFxSequences(r *kit.Run, yield func(fxCase) bool) {
	for store := 0; store < fxStores; store++ {
		ok := true
		sequences(len(fxMoves), 2, 2, func(s []int) bool {
			c := fxCase{Store: store}
			for _, i := range s {
				c.Cmds = append(c.Cmds, fxMoves[i])
			}
			ok = yield(c)
			return ok
		})
		if !ok {
			return
		}
	}
	for store := 0; store < fxStores; store++ {
		ok := true
		sequences(kit.Pick(r, 8, 25), 3, 3, func(s []int) bool {
			c := fxCase{Store: store}
			for _, i := range s {
				c.Cmds = append(c.Cmds, fxMoves[i])
			}
			ok = yield(c)
			return ok
		})
		if !ok {
			return
		}
	}
}

func init() {
	kit.Register(&kit.Prop{
		ID: "C28", Level: "model_checking",
		Rule:   "every session of the real program moves the store from its contents before to exactly the contents a specification of the operations gives, reports exactly these, writes exactly the files asked for, and ends with success exactly if the specification does",
		Bounds: "four stores; all combinations of the operations of keys (delete, generate, export, list, print) and of messages (delete, new, list, print) in one session with their options; init with all options; all sequences of two of 31 sessions, six of them on a terminal, and of three of 8 (thorough 25); 2350 sessions on a terminal: all ticks of up to two rows or all in the deletion of keys and of messages, together with the other operations, radiograms typed, overwriting granted, declined or interrupted, the initialisation with everything or the rest asked for",
		Assumptions: []string{
			"sessions that import run on a pseudo-terminal, the only place where import can ask for the secret of the file",
		},
		Families: []*kit.Family{
			kit.F("keys", "all combinations of operations and options", enumFxKeys, execFx).W(3),
			kit.F("messages", "all combinations of operations and options", enumFxMessages, execFx).W(2),
			kit.F("init", "all combinations of options", enumFxInit, execFx),
			kit.F("dialogues", "all answers, ticks and interruptions on a terminal", enumFxDialogues, execFx).W(2),
			kit.F("sequences", "all sequences", enumFxSequences, execFx).W(3),
			kit.F("imports", "keys of the store and of the file, selections, answers, interruptions", enumImports, execImport).W(2),
		},
	})
}
