package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"

	"github.com/sa6mwa/krypto431"
	"verif/kit"
	"verif/ref"
)

// C31: operations in any order on a new, loaded, saved or closed station. Every
// step of every sequence is judged by a relation between the states before and
// after it, and every state by invariants.

type lifeCase struct {
	Setup  int
	Prefix []int
	Depth  int // operations after the prefix, all of them
}

// lifeKey, lifeState: what is observed of a station.
type lifeKey struct {
	id, letters string
	keepers     []string
	dates       string
	used, comp  bool
}

func (k lifeKey) body() string { return fmt.Sprint(k.id, k.letters, k.keepers, k.dates) }
func (k lifeKey) String() string {
	return fmt.Sprintf("%s %s %q %s used=%t compromised=%t", k.id, k.letters, k.keepers, k.dates, k.used, k.comp)
}

type lifeState struct {
	keys          []lifeKey
	msgs          []string // as printed by msgString
	keyIds, plain []string // of the messages
	set           string
	gs, kl        int
	call          string
	pfk, salt     string
	file          string
	disk          [2]string // content of the two files
}

// lifeFile is what a file is known to hold.
type lifeFile struct {
	there   bool
	pfk     string
	content string // storeSnap of what was saved
	gs      int
	call    string
	keys    []lifeKey
}

type lifeWorld struct {
	r      *kit.Run
	k      *K
	dir    string
	files  [2]lifeFile
	loaded string // the file that may be overwritten
	trace  []string
	again  bool // a step that was judged before
}

var lifeIds = []string{"AA", "BB", "CC"}

const lifeReceived = "AB1"

func lifeLetters(id string) []rune { return keyLetters(int(id[0]), 20) }

// lifeCipher is the traffic sent by somebody else with one of the keys.
func lifeCipher(id string) string {
	code := ref.Encode([]rune(lifeReceived))
	for len(code)%2 != 0 {
		code = append(code, 'Z')
	}
	o := id + " "
	for i, c := range code {
		if i > 0 && i%2 == 0 {
			o += " "
		}
		o += string(ref.Third(lifeLetters(id)[i], c))
	}
	return o
}

func (w *lifeWorld) path(i int) string { return filepath.Join(w.dir, fmt.Sprint("f", i)) }

func (w *lifeWorld) index(file string) int {
	for i := range w.files {
		if file == w.path(i) {
			return i
		}
	}
	return -1
}

func lifeKeyOf(k *Key) lifeKey {
	return lifeKey{string(k.Id), string(k.Runes), krypto431.RunesToStrings(&k.Keepers),
		fmt.Sprint(k.Created.Time.UnixNano(), " ", k.Expires.Time.UnixNano(), " ", string(k.Comment)), k.Used, k.Compromised}
}

func (w *lifeWorld) observe() lifeState {
	k := w.k
	s := lifeState{set: fmt.Sprint(k.Columns, " ", k.KeyColumns), gs: k.GroupSize, kl: k.KeyLength, call: string(k.CallSign), pfk: k.GetPFKString(), salt: k.GetSaltString(), file: k.GetPersistence()}
	for i := range k.Keys {
		s.keys = append(s.keys, lifeKeyOf(&k.Keys[i]))
	}
	for i := range k.Messages {
		m := &k.Messages[i]
		s.msgs = append(s.msgs, msgString(m))
		s.keyIds = append(s.keyIds, string(m.KeyId))
		s.plain = append(s.plain, string(m.PlainText))
	}
	for i := range s.disk {
		b, err := os.ReadFile(w.path(i))
		if err == nil {
			s.disk[i] = "+" + string(b)
		}
	}
	return s
}

func (w *lifeWorld) fail(format string, a ...any) error {
	return kit.Fail("%s\n  after: %s", fmt.Sprintf(format, a...), strings.Join(w.trace, ", "))
}

// same fails unless everything but the named parts is equal.
func (w *lifeWorld) same(a, b lifeState, but ...string) error {
	skip := map[string]bool{}
	for _, x := range but {
		skip[x] = true
	}
	for _, x := range []struct{ name, a, b string }{
		{"keys", lifeList(a.keys), lifeList(b.keys)}, {"messages", strings.Join(a.msgs, "\n"), strings.Join(b.msgs, "\n")},
		{"settings", fmt.Sprint(a.gs, a.kl, a.set), fmt.Sprint(b.gs, b.kl, b.set)}, {"call-sign", a.call, b.call},
		{"persistence key", a.pfk, b.pfk}, {"salt", a.salt, b.salt}, {"file name", a.file, b.file},
	} {
		if !skip[x.name] && x.a != x.b {
			return w.fail("the %s changed: %s", x.name, diff(x.a, x.b))
		}
	}
	for i := range a.disk {
		if !skip[fmt.Sprint("disk", i)] && a.disk[i] != b.disk[i] {
			return w.fail("file %d changed", i)
		}
	}
	return nil
}

func lifeList(l []lifeKey) string {
	var o []string
	for _, k := range l {
		o = append(o, k.String())
	}
	return strings.Join(o, "\n")
}

// invariants hold in every state.
func (w *lifeWorld) invariants() error {
	seen := map[string]bool{}
	for i := range w.k.Keys {
		k := &w.k.Keys[i]
		id := strings.ToUpper(string(k.Id))
		if seen[id] {
			return w.fail("two keys have the identifier %q", id)
		}
		seen[id] = true
		if k.GetInstance() != w.k {
			return w.fail("key %s does not belong to its station", id)
		}
		if len(k.Runes) == 0 || len(k.Id) == 0 {
			return w.fail("key %q has no letters or identifier", id)
		}
		for _, c := range k.Runes {
			if c < 'A' || c > 'Z' {
				return w.fail("key %s holds %q", id, string(k.Runes))
			}
		}
		for _, x := range k.Keepers {
			if len(x) == 0 {
				return w.fail("key %s has an empty keeper", id)
			}
			for _, c := range x {
				if !unicode.IsLetter(c) && !unicode.IsDigit(c) {
					return w.fail("key %s has the keeper %q", id, string(x))
				}
			}
		}
	}
	seen = map[string]bool{}
	for i := range w.k.Messages {
		m := &w.k.Messages[i]
		if seen[string(m.Id)] || len(m.Id) == 0 {
			return w.fail("two messages have the identifier %q, or it is empty", string(m.Id))
		}
		seen[string(m.Id)] = true
		if m.GetInstance() != w.k {
			return w.fail("message %s does not belong to its station", string(m.Id))
		}
		if len(m.From) == 0 || m.DTG.IsZero() {
			return w.fail("message %s has no sender or date", string(m.Id))
		}
	}
	return nil
}

func (w *lifeWorld) suitable(s lifeState, to string) (n int) {
	for _, k := range s.keys {
		if w.fits(s, k, to) {
			n++
		}
	}
	return
}

func (w *lifeWorld) fits(s lifeState, k lifeKey, to string) bool {
	if k.used || k.comp || len([]rune(k.id)) != s.gs {
		return false
	}
	if to == "" {
		return len(k.keepers) == 0
	}
	for _, x := range k.keepers {
		if strings.EqualFold(x, to) {
			return true
		}
	}
	return false
}

// newlyUsed are the keys that differ by having been marked used; anything else
// about the keys must be equal.
func (w *lifeWorld) newlyUsed(a, b lifeState) ([]lifeKey, error) {
	if len(a.keys) != len(b.keys) {
		return nil, w.fail("there were %d keys and are %d", len(a.keys), len(b.keys))
	}
	var o []lifeKey
	for i := range a.keys {
		x, y := a.keys[i], b.keys[i]
		if x.body() != y.body() || x.comp != y.comp || x.used && !y.used {
			return nil, w.fail("key %s changed: %s", x.id, diff(x.String(), y.String()))
		}
		if !x.used && y.used {
			o = append(o, x)
		}
	}
	return o, nil
}

// oneMore: the messages are the same with one after them.
func (w *lifeWorld) oneMore(a, b lifeState) (*Msg, error) {
	if len(b.msgs) != len(a.msgs)+1 || strings.Join(a.msgs, "\n") != strings.Join(b.msgs[:len(a.msgs)], "\n") {
		return nil, w.fail("the messages are not those before and the new one")
	}
	return &w.k.Messages[len(b.msgs)-1], nil
}

func (w *lifeWorld) send(text, to string, parts int, requested ...string) error {
	a := w.observe()
	keys := keyMap(w.k)
	m, err := w.k.NewTextMessage(append([]string{to + " DE " + strings.ToLower(a.call) + " 010203Z = " + text + " = K"}, requested...)...)
	b := w.observe()
	if len(requested) == 0 && (err == nil) != (parts > 0 && w.suitable(a, to) >= parts) {
		return w.fail("sending %q to %q with %d suitable keys: %v", trunc(text), to, w.suitable(a, to), err)
	}
	if len(requested) > 0 {
		can := false
		for _, k := range a.keys {
			can = can || k.id == requested[0] && !k.used && !k.comp && len([]rune(k.id)) == a.gs
		}
		if (err == nil) != can {
			return w.fail("sending %q to %q with the requested key %s: %v", text, to, requested[0], err)
		}
	}
	if err != nil {
		return w.same(a, b)
	}
	if err := w.same(a, b, "keys", "messages"); err != nil {
		return err
	}
	used, err := w.newlyUsed(a, b)
	if err != nil {
		return err
	}
	l, err := w.oneMore(a, b)
	if err != nil {
		return err
	}
	plain, segs, err := decodeByHand(nil, w.k, l, keys)
	if err != nil || string(plain) != text || string(l.PlainText) != text || string(m.CipherText) != string(l.CipherText) || string(m.Id) != string(l.Id) {
		return w.fail("the message of %q reads %q (%v) and has the text %q", text, string(plain), err, string(l.PlainText))
	}
	if err := w.envelope(l, a.call, to); err != nil {
		return err
	}
	var have, want []string
	for _, u := range used {
		if len(requested) > 0 && u.id != requested[0] || len(requested) == 0 && !w.fits(a, u, to) {
			return w.fail("key %s is used for %q", u, to)
		}
		have = append(have, u.id)
	}
	for _, s := range segs {
		want = append(want, s.KeyID)
	}
	sort.Strings(have)
	sort.Strings(want)
	if !equal(have, want) || len(have) != parts {
		return w.fail("the message was enciphered with the keys %v, marked used were %v", want, have)
	}
	return nil
}

// deciphered: message i, which held traffic with a key of this store, has been
// read (or not), and the key marked.
func (w *lifeWorld) readable(s lifeState, cipher string) bool {
	id, _, _ := strings.Cut(cipher, " ")
	for _, k := range s.keys {
		if k.id == id && k.letters == string(lifeLetters(id)) && s.gs == len(id) {
			return true
		}
	}
	return false
}

// envelope: the message is from and to those it should be, and of the date it
// was given.
func (w *lifeWorld) envelope(m *Msg, from, to string) error {
	t := m.DTG.Time
	_, zone := t.Zone()
	if string(m.From) != from || strings.Join(krypto431.RunesToStrings(&m.Recipients), " ") != to ||
		t.Day() != 1 || t.Hour() != 2 || t.Minute() != 3 || zone != 0 {
		return w.fail("a message from %s to %q of 010203Z is stored as %s", from, to, msgString(m))
	}
	return nil
}

func (w *lifeWorld) receive(text string, to ...string) error {
	a := w.observe()
	if len(to) == 0 {
		to = []string{a.call}
	}
	_, err := w.k.NewTextMessage(strings.Join(to, " ") + " de zz 010203Z = " + text + " = K")
	b := w.observe()
	if err != nil {
		return w.fail("receiving %q: %v", text, err)
	}
	if err := w.same(a, b, "keys", "messages"); err != nil {
		return err
	}
	used, err := w.newlyUsed(a, b)
	if err != nil {
		return err
	}
	m, err := w.oneMore(a, b)
	if err != nil {
		return err
	}
	if err := w.envelope(m, "ZZ", strings.Join(to, " ")); err != nil {
		return err
	}
	id, _, _ := strings.Cut(text, " ")
	for _, k := range a.keys {
		if k.id == id && k.letters != string(lifeLetters(id)) {
			return nil // a key made at random has this very identifier
		}
	}
	if w.readable(a, text) {
		if string(m.PlainText) != lifeReceived || string(m.KeyId) != id {
			return w.fail("the traffic %q is read as %q with key %q", text, string(m.PlainText), string(m.KeyId))
		}
		for _, k := range b.keys {
			if k.id == id && !k.used {
				return w.fail("key %s deciphered a message and is not marked used", id)
			}
		}
		for _, k := range used {
			if k.id != id {
				return w.fail("key %s is marked used by a message with key %s", k.id, id)
			}
		}
		return nil
	}
	if len(used) > 0 || string(m.PlainText) != text || len(m.KeyId) > 0 || len(m.CipherText) > 0 {
		return w.fail("the text %q, which can not be deciphered, is stored as %s", text, msgString(m))
	}
	return nil
}

// opened loads a file with the key and compares it with what was saved.
func (w *lifeWorld) opened(i int) error {
	if w.again {
		return nil
	}
	n := blank(7, 77, "WW")
	if err := n.SetPFKFromString(w.files[i].pfk); err != nil {
		return kit.Broken("%v", err)
	}
	n.SetPersistence(w.path(i))
	if err := n.Load(); err != nil {
		return w.fail("file %d does not open: %v", i, err)
	}
	if s := storeSnap(n); s != w.files[i].content {
		return w.fail("file %d does not hold what was saved: %s", i, diff(w.files[i].content, s))
	}
	return nil
}

func lifeContent(k *K, msgs bool) string {
	if msgs {
		return storeSnap(k)
	}
	return fmt.Sprintf("gs=%d kl=%d col=%d kcol=%d call=%q\n%s\n--\n", k.GroupSize, k.KeyLength, k.Columns, k.KeyColumns, string(k.CallSign), strings.Join(keysSnap(k), "\n"))
}

func (w *lifeWorld) wrote(i int, pfk string, k *K, msgs bool) error {
	w.files[i] = lifeFile{there: true, pfk: pfk, content: lifeContent(k, msgs), gs: k.GroupSize, call: string(k.CallSign)}
	for x := range k.Keys {
		w.files[i].keys = append(w.files[i].keys, lifeKeyOf(&k.Keys[x]))
	}
	return w.opened(i)
}

func lifeAll(*Key) bool { return true }

type lifeOp struct {
	name string
	do   func(w *lifeWorld) error
}

// setter makes an operation that changes one thing.
func lifeSetter(name string, part string, do func(k *K) error, want func(s lifeState) bool) lifeOp {
	return lifeOp{name, func(w *lifeWorld) error {
		a := w.observe()
		err := do(w.k)
		b := w.observe()
		if err != nil {
			return w.fail("%s: %v", name, err)
		}
		if !want(b) {
			return w.fail("%s: has no effect", name)
		}
		return w.same(a, b, part)
	}}
}

var lifePfk = []string{repeat("41", 32), repeat("42", 32)}

const lifeLong = "ABCDEFGHIJKLMNOPRSTUVWXY" // more than one key, less than two

var lifeOps = []lifeOp{
	{"generate", func(w *lifeWorld) error { return w.generate(1) }},
	{"generate two for BB", func(w *lifeWorld) error { return w.generate(2, "bb") }},
	{"send", func(w *lifeWorld) error { return w.send("AB", "", 1) }},
	{"send long to BB", func(w *lifeWorld) error { return w.send(lifeLong, "BB", 2) }},
	{"send what can not be coded", func(w *lifeWorld) error { return w.send("AB_", "", 0) }},
	{"receive with AA", func(w *lifeWorld) error { return w.receive(lifeCipher("AA")) }},
	{"receive with CC", func(w *lifeWorld) error { return w.receive(lifeCipher("CC")) }},
	{"receive text", func(w *lifeWorld) error { return w.receive("Hello, there") }},
	{"receive for others", func(w *lifeWorld) error {
		if len(w.k.Messages)%2 == 0 {
			return w.receive("Hello, there", "QQ")
		}
		return w.receive("Hello, there", "CC", "QQ")
	}},
	{"send with the last key", func(w *lifeWorld) error {
		id := "XXX"[:w.k.GroupSize]
		if n := len(w.k.Keys); n > 0 {
			id = string(w.k.Keys[n-1].Id)
		}
		return w.send("AB", "QQ BB", 1, id)
	}},
	{"list and print", func(w *lifeWorld) error { return w.list() }},
	{"delete the first key", func(w *lifeWorld) error { return w.drop(true, 0) }},
	{"delete the last message", func(w *lifeWorld) error { return w.drop(false, len(w.k.Messages)-1) }},
	{"save", func(w *lifeWorld) error { return w.save() }},
	{"load", func(w *lifeWorld) error { return w.load() }},
	{"close", func(w *lifeWorld) error {
		a := w.observe()
		w.k.Close()
		b := w.observe()
		if len(b.keys) > 0 || len(b.msgs) > 0 || b.pfk != "" || b.salt != "" {
			return w.fail("closed, and there is left %+v", b)
		}
		return w.same(a, b, "keys", "messages", "persistence key", "salt")
	}},
	lifeSetter("key A", "persistence key", func(k *K) error { return k.SetPFKFromString(lifePfk[0]) }, func(s lifeState) bool { return s.pfk == lifePfk[0] }),
	lifeSetter("key B", "persistence key", func(k *K) error { return k.SetPFKFromString(lifePfk[1]) }, func(s lifeState) bool { return s.pfk == lifePfk[1] }),
	{"other file", func(w *lifeWorld) error {
		a := w.observe()
		other := w.path(1 - w.index(a.file))
		w.k.SetPersistence(other)
		b := w.observe()
		if b.file != other {
			return w.fail("the file is not set")
		}
		return w.same(a, b, "file name")
	}},
	{"export to file 1", func(w *lifeWorld) error { return w.export() }},
	{"import from file 1", func(w *lifeWorld) error { return w.take(false) }},
	{"import over", func(w *lifeWorld) error { return w.take(true) }},
	{"other call-sign", func(w *lifeWorld) error {
		a := w.observe()
		cs := "BB"
		if a.call == "BB" {
			cs = "ME"
		}
		if err := w.k.SetCallSign(" " + strings.ToLower(cs)); err != nil {
			return w.fail("call-sign %s: %v", cs, err)
		}
		b := w.observe()
		if b.call != cs {
			return w.fail("the call-sign is %s", b.call)
		}
		return w.same(a, b, "call-sign")
	}},
	{"other group size", func(w *lifeWorld) error {
		w.k.GroupSize = 5 - w.k.GroupSize
		return nil
	}},
	{"compromise the last key", func(w *lifeWorld) error {
		if n := len(w.k.Keys); n > 0 {
			w.k.Keys[n-1].Compromised = true
		}
		return nil
	}},
}

func (w *lifeWorld) generate(n int, keepers ...string) error {
	a := w.observe()
	err := w.k.GenerateKeys(n, nil, keepers...)
	b := w.observe()
	if err != nil {
		return w.fail("generating: %v", err)
	}
	if len(b.keys) != len(a.keys)+n || lifeList(a.keys) != lifeList(b.keys[:len(a.keys)]) {
		return w.fail("%d keys are made of %d, or others changed", len(b.keys), len(a.keys))
	}
	var want []string
	for _, x := range keepers {
		if x = strings.ToUpper(x); x != a.call {
			want = append(want, x)
		}
	}
	for _, k := range b.keys[len(a.keys):] {
		l := (a.kl + a.gs - 1) / a.gs * a.gs
		if len([]rune(k.id)) != a.gs || len([]rune(k.letters)) != l || k.used || k.comp || fmt.Sprint(k.keepers) != fmt.Sprint(want) {
			return w.fail("the key made is %s", k)
		}
	}
	return w.same(a, b, "keys")
}

func (w *lifeWorld) list() error {
	a := w.observe()
	_, kl := w.k.SummaryOfKeys(func(*Key) bool { return true })
	text := w.k.KeysAsText(func(*Key) bool { return true })
	b := w.observe()
	if err := w.same(a, b); err != nil {
		return err
	}
	if len(kl) != len(a.keys) || (text == "") != (len(a.keys) == 0) {
		return w.fail("%d keys are listed out of %d", len(kl), len(a.keys))
	}
	for i, k := range a.keys {
		if !strings.HasPrefix(string(kl[i]), k.id+" ") {
			return w.fail("key %s is listed as %q", k.id, string(kl[i]))
		}
	}
	_, ml := w.k.SummaryOfMessages(func(*Msg) bool { return true })
	b = w.observe()
	if err := w.same(a, b, "keys", "messages"); err != nil {
		return err
	}
	if len(ml) != len(a.msgs) || len(b.msgs) != len(a.msgs) {
		return w.fail("%d messages are listed out of %d", len(ml), len(a.msgs))
	}
	used, err := w.newlyUsed(a, b)
	if err != nil {
		return err
	}
	may := map[string]bool{}
	for _, k := range a.keys {
		if strings.Contains("AA BB CC", k.id) && k.letters != string(lifeLetters(k.id)) {
			return nil
		}
	}
	for i := range a.msgs {
		read := a.keyIds[i] == "" && w.readable(a, a.plain[i])
		if !read && a.msgs[i] != b.msgs[i] {
			return w.fail("listing changed a message: %s", diff(a.msgs[i], b.msgs[i]))
		}
		if read {
			id := a.plain[i][:2]
			may[id] = true
			if b.keyIds[i] != id || b.plain[i] != lifeReceived {
				return w.fail("message %q could be read and is %s", a.plain[i], b.msgs[i])
			}
		}
	}
	for _, k := range used {
		if !may[k.id] {
			return w.fail("listing marks key %s used", k.id)
		}
		delete(may, k.id)
	}
	w.k.MessagesAsText(func(*Msg) bool { return true })
	if err := w.same(b, w.observe()); err != nil {
		return err
	}
	return nil
}

func (w *lifeWorld) drop(key bool, i int) error {
	a := w.observe()
	n, want := 0, 0
	var err error
	x := a
	if key {
		id := "QQ"
		if len(a.keys) > 0 {
			id, want = a.keys[i].id, 1
		}
		n, err = w.k.DeleteKeyByString(strings.ToLower(id))
	} else {
		id := "????"
		if i >= 0 {
			id, want = string(w.k.Messages[i].Id), 1
		}
		n, err = w.k.DeleteMessageByString(id)
	}
	b := w.observe()
	if err != nil || n != want {
		return w.fail("deleting: %d %v", n, err)
	}
	sorted := func(l []string) string { sort.Strings(l); return strings.Join(l, "\n") }
	if want == 1 && key {
		x.keys = append(append([]lifeKey{}, a.keys[:i]...), a.keys[i+1:]...)
		if p, q := sorted(strings.Split(lifeList(x.keys), "\n")), sorted(strings.Split(lifeList(b.keys), "\n")); p != q {
			return w.fail("deleting key %s left %s", a.keys[i].id, diff(p, q))
		}
		return w.same(a, b, "keys")
	}
	if want == 1 {
		p := sorted(append(append([]string{}, a.msgs[:i]...), a.msgs[i+1:]...))
		if q := sorted(append([]string{}, b.msgs...)); p != q {
			return w.fail("deleting a message left %s", diff(p, q))
		}
		return w.same(a, b, "messages")
	}
	return w.same(a, b)
}

func (w *lifeWorld) save() error {
	a := w.observe()
	i := w.index(a.file)
	want := a.pfk != "" && (!w.files[i].there || w.loaded == a.file)
	err := w.k.Save()
	b := w.observe()
	if (err == nil) != want {
		return w.fail("saving (key %t, file there %t, loaded from it %t): %v", a.pfk != "", w.files[i].there, w.loaded == a.file, err)
	}
	if err != nil {
		return w.same(a, b)
	}
	if err := w.same(a, b, fmt.Sprint("disk", i)); err != nil {
		return err
	}
	return w.wrote(i, a.pfk, w.k, true)
}

func (w *lifeWorld) load() error {
	a := w.observe()
	i := w.index(a.file)
	want := w.files[i].there && a.pfk == w.files[i].pfk
	err := w.k.Load()
	b := w.observe()
	if (err == nil) != want {
		return w.fail("loading (key %t, file there %t, with this key %t): %v", a.pfk != "", w.files[i].there, w.files[i].pfk == a.pfk, err)
	}
	if err != nil {
		return w.same(a, b)
	}
	w.loaded = a.file
	if s := storeSnap(w.k); s != w.files[i].content {
		return w.fail("loading gives something else: %s", diff(w.files[i].content, s))
	}
	return w.same(a, b, "keys", "messages", "settings", "call-sign")
}

func (w *lifeWorld) export() error {
	a := w.observe()
	n := w.k.ExportKeys(lifeAll, krypto431.WithPersistence(w.path(1)), krypto431.WithOverwritePersistenceIfExists(true))
	err := n.Save()
	if (err == nil) != (a.pfk != "") {
		return w.fail("exporting (key %t): %v", a.pfk != "", err)
	}
	n.Wipe()
	b := w.observe()
	if err != nil {
		return w.same(a, b)
	}
	if err := w.same(a, b, "disk1"); err != nil {
		return err
	}
	return w.wrote(1, a.pfk, w.k, false)
}

func (w *lifeWorld) take(over bool) error {
	a := w.observe()
	f := w.files[1]
	want := f.there && a.pfk == f.pfk
	var pfk *[]byte
	if a.pfk != "" {
		pfk = w.k.GetPFK()
	}
	n, err := w.k.ImportKeys(lifeAll, krypto431.WithPersistence(w.path(1)), krypto431.WithPFK(pfk), krypto431.WithSalt(w.k.GetSalt()), krypto431.WithOverwriteExistingKeysOnImport(over))
	b := w.observe()
	if (err == nil) != want {
		return w.fail("importing (key %t, file there %t, with this key %t): %v", a.pfk != "", f.there, f.pfk == a.pfk, err)
	}
	if err != nil {
		return w.same(a, b)
	}
	if err := w.same(a, b, "keys"); err != nil {
		return err
	}
	have := map[string]string{}
	for _, k := range b.keys {
		have[k.id] = k.String()
	}
	count := 0
	expect := map[string]string{}
	for _, k := range a.keys {
		expect[k.id] = k.String()
	}
	for _, k := range f.keys {
		if len([]rune(k.id)) != a.gs {
			continue
		}
		if _, ok := expect[k.id]; ok && !over {
			continue
		}
		var keepers []string
		there := false
		for _, x := range k.keepers {
			if x != a.call {
				keepers = append(keepers, x)
			}
			there = there || x == f.call
		}
		if f.call != a.call && !there {
			keepers = append(keepers, f.call)
		}
		if f.call == a.call {
			keepers = append(keepers, f.call)
		}
		k.keepers = keepers
		expect[k.id] = k.String()
		count++
	}
	if n != count || len(have) != len(expect) || len(b.keys) != len(expect) {
		return w.fail("importing reports %d keys instead of %d, %d are there instead of %d", n, count, len(b.keys), len(expect))
	}
	for id, x := range expect {
		if have[id] != x {
			return w.fail("importing: %s", diff(x, have[id]))
		}
	}
	return nil
}

var lifeSetups = []string{"new", "stored"}

func (w *lifeWorld) setup(n int) error {
	// as made by New, but for the room for 50000 keys
	w.k = blank(2, 20, "ME")
	w.k.Keys, w.k.Messages = make([]Key, 0, 16), make([]Msg, 0, 16)
	if err := w.k.SetSaltFromString(krypto431.DefaultSalt); err != nil {
		return kit.Broken("%v", err)
	}
	w.k.SetPersistence(w.path(0))
	if n == 0 {
		return nil
	}
	w.k.SetPFKFromString(lifePfk[0])
	addKey(w.k, mkKey("AA", lifeLetters("AA")))
	addKey(w.k, mkKey("BB", lifeLetters("BB"), "BB", "CC"))
	addKey(w.k, mkKey("CC", lifeLetters("CC"), "BB"))
	w.k.Keys[0].Comment, w.k.Keys[2].Comment = []rune("first key"), []rune("å")
	if err := w.receive("Hello, all"); err != nil {
		return err
	}
	if lifeStored == nil {
		if err := w.save(); err != nil {
			return err
		}
		b, err := os.ReadFile(w.path(0))
		kit.Must(err)
		lifeStored = b
	} else {
		kit.Must(os.WriteFile(w.path(0), lifeStored, 0600))
		if err := w.wrote(0, lifePfk[0], w.k, true); err != nil {
			return err
		}
	}
	return w.load()
}

// lifeStored is the file of the stored station, saved once; lifeSeen the states
// that were continued, with the number of operations.
var (
	lifeStored []byte
	lifeSeen   [2]map[uint64]lifeMark
	lifeRun    int
)

// lifeMark says which case continued a state, when it was executed.
type lifeMark struct {
	left, run int
	by        [2]int
}

// step does one operation; a crash is reported with what led to it.
func (w *lifeWorld) step(o lifeOp) (err error) {
	defer func() {
		if p := recover(); p != nil {
			if he, ok := p.(*kit.HarnessError); ok {
				panic(he)
			}
			err = w.fail("crash: %v", p)
		}
	}()
	return o.do(w)
}

// run executes a sequence from the beginning. Again: all but the
// last step were judged before, the files they wrote need not be opened.
func (w *lifeWorld) run(setup int, ops []int, again bool) error {
	for i := range w.files {
		os.Remove(w.path(i))
	}
	*w = lifeWorld{r: w.r, dir: w.dir, again: true}
	seedRandom(uint64(setup) + 1)
	w.trace = []string{lifeSetups[setup] + " station"}
	if err := w.setup(setup); err != nil {
		return err
	}
	for i, o := range ops {
		w.again = again && i < len(ops)-1
		w.trace = append(w.trace, lifeOps[o].name)
		if err := w.step(lifeOps[o]); err != nil {
			return err
		}
		if err := w.invariants(); err != nil {
			return err
		}
		w.r.Step(1)
	}
	return nil
}

// abstract is the state with everything random named by its place.
func (w *lifeWorld) abstract() uint64 {
	names := map[string]int{}
	name := func(s string) string {
		if len(s) == 2 && (s == "AA" || s == "BB" || s == "CC") || s == "" {
			return s
		}
		if _, ok := names[s]; !ok {
			names[s] = len(names)
		}
		return fmt.Sprint("#", names[s])
	}
	var o []string
	key := func(k lifeKey) {
		o = append(o, fmt.Sprint(name(k.id), len(k.id), name(k.letters), len(k.letters), k.keepers, k.used, k.comp))
	}
	s := w.observe()
	for _, k := range s.keys {
		key(k)
	}
	o = append(o, "-")
	for i := range s.msgs {
		m := &w.k.Messages[i]
		o = append(o, fmt.Sprint(name(s.keyIds[i]), s.plain[i], len(m.CipherText), string(m.From), krypto431.RunesToStrings(&m.Recipients)))
	}
	o = append(o, fmt.Sprint(s.gs, s.call, s.pfk, len(s.salt), w.index(s.file), w.index(w.loaded)))
	for i := range w.files {
		f := w.files[i]
		o = append(o, fmt.Sprint("file", f.there, f.pfk, f.gs, f.call, strings.Count(f.content, " key=")))
		for _, k := range f.keys {
			key(k)
		}
	}
	return kit.Hash(strings.Join(o, "|"))
}

func execLife(r *kit.Run, c lifeCase) error {
	w := &lifeWorld{r: r, dir: r.Scratch}
	if lifeSeen[c.Setup] == nil {
		lifeSeen[c.Setup] = map[uint64]lifeMark{}
	}
	seen := lifeSeen[c.Setup]
	lifeRun++
	me := lifeMark{run: lifeRun, by: [2]int(c.Prefix)}
	var walk func(ops []int, left int) error
	walk = func(ops []int, left int) error {
		if err := w.run(c.Setup, ops, len(ops) > len(c.Prefix)); err != nil {
			return err
		}
		h := w.abstract()
		r.State(h)
		// what this case did when it was executed before does not count
		if d, ok := seen[h]; ok && d.left >= left && (d.by != me.by || d.run == me.run) {
			return nil
		}
		me.left = left
		seen[h] = me
		if left == 0 {
			return nil
		}
		for o := range lifeOps {
			if err := walk(append(ops[:len(ops):len(ops)], o), left-1); err != nil {
				return err
			}
		}
		return nil
	}
	return walk(c.Prefix, c.Depth)
}

func enumLife(r *kit.Run, yield func(lifeCase) bool) {
	depth := kit.Pick(r, 2, 3)
	for s := range lifeSetups {
		if !sequences(len(lifeOps), 2, 2, func(ops []int) bool {
			return yield(lifeCase{s, append([]int(nil), ops...), depth})
		}) {
			return
		}
	}
}

func init() {
	kit.Register(&kit.Prop{ID: "C31", Level: "model_checking",
		Rule:   "every sequence of operations; the relation between the states before and after every step and the invariants of every state are checked on the implementation, sequences are not continued from a state that was continued before",
		Bounds: "a new and a stored station x all sequences of up to 4 (5) out of 25 operations",
		Families: []*kit.Family{
			kit.F("lives", "every sequence of operations", enumLife, execLife),
		}})
}
