package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/sa6mwa/krypto431"
	"verif/kit"
	"verif/ref"
)

// ---------------------------------------------------------------- C04

// A history is a sequence of operations on one station's store. The ghost
// state records, by the letters of the key, what every key was ever used for.

type histCase struct {
	Setup int
	Ops   []int
}

type histWorld struct {
	r      *kit.Run
	k      *K
	dir    string
	sent   map[string]string // key letters -> what was enciphered with it
	read   map[string]string
	msgs   []*Msg
	serial int
	trace  []string
}

type histOp struct {
	name string
	do   func(w *histWorld) error
}

const (
	shortText = "AB"             // fits one key of 20 letters
	longText  = "ABCDEFGHIJKLMN" // needs two keys of 20 letters in groups of two
	hugeText  = "ABCDEFGHIJKLMNOPQRSTUVWXYZABCDEFGHIJKLMNOPQRSTUVWXYZABCDEFGHIJKLMNOPQRSTUVWXYZABCDEFGHIJKLMNOPQRSTUVWXYZABCDEFGHIJKLMNOPQRSTUVWXYZABCDEFGHIJKLMNOPQRSTUVWXYZ"
	badText   = "AB#CD"
	badLate   = "ABCDEFGHIJKLMNOPQ#"
)

func (w *histWorld) letters(id string) string {
	for i := range w.k.Keys {
		if string(w.k.Keys[i].Id) == id {
			return string(w.k.Keys[i].Runes)
		}
	}
	return ""
}

// noteSent decodes what was just produced by hand and records the keys.
func (w *histWorld) noteSent(m *Msg, keys func(string) ([]rune, bool)) error {
	plain, segs, err := decodeByHand(nil, w.k, m, keys)
	if err != nil {
		return nil // C02's business
	}
	w.serial++
	for i, s := range segs {
		kr, _ := keys(s.KeyID)
		what := fmt.Sprintf("part %d of message %d %q", i+1, w.serial, string(plain))
		l := string(kr)
		if old, ok := w.sent[l]; ok {
			return kit.Fail("key %s enciphers %s but it already enciphered %s\n  history: %s", s.KeyID, what, old, strings.Join(w.trace, ", "))
		}
		if old, ok := w.read[l]; ok {
			return kit.Fail("key %s enciphers %s but it was used to decipher %s\n  history: %s", s.KeyID, what, old, strings.Join(w.trace, ", "))
		}
		w.sent[l] = what
	}
	// a used key must be marked, or a later run will take it again
	for _, s := range segs {
		key, err := w.k.GetKey([]rune(s.KeyID))
		if err != nil || !key.Used {
			return kit.Fail("key %s was used but is not marked used\n  history: %s", s.KeyID, strings.Join(w.trace, ", "))
		}
	}
	return nil
}

func (w *histWorld) encipher(text, key string, to ...string) error {
	m := newMsg(w.k, text, to...)
	if key != "" {
		m.KeyId = []rune(key)
	}
	keys := keyMap(w.k)
	if k, err := w.k.GetKey([]rune(key)); key != "" && err == nil {
		bad := k.Used || k.Compromised
		if err := m.Encipher(); err == nil {
			if bad {
				return kit.Fail("key %s is used or compromised but was accepted on request\n  history: %s", key, strings.Join(w.trace, ", "))
			}
			if string(m.KeyId) != key {
				return kit.Fail("key %s was requested, %s was used", key, string(m.KeyId))
			}
			w.msgs = append(w.msgs, m)
			return w.noteSent(m, keys)
		}
		return nil
	}
	if m.Encipher() != nil {
		return nil
	}
	w.msgs = append(w.msgs, m)
	w.k.Messages = append(w.k.Messages, *m)
	return w.noteSent(m, keys)
}

func (w *histWorld) radiogram(text string, to []string, key ...string) error {
	keys := keyMap(w.k)
	args := append([]string{strings.Join(to, " ") + " DE " + string(w.k.CallSign) + " 010203 = " + text + " = K"}, key...)
	m, err := w.k.NewTextMessage(args...)
	if err != nil {
		return nil
	}
	w.msgs = append(w.msgs, m)
	return w.noteSent(m, keys)
}

// receive a message enciphered with the named key by somebody else.
func (w *histWorld) receive(id string) error {
	l := w.letters(id)
	if l == "" {
		return nil
	}
	code := ref.Encode([]rune("AB"))
	for len(code)%w.k.GroupSize != 0 {
		code = append(code, 'Z')
	}
	cipher := id + " "
	for i, c := range code {
		cipher += string(ref.Third([]rune(l)[i], c))
	}
	m, err := w.k.NewTextMessage(string(w.k.CallSign) + " DE ZZ 010203 = " + cipher + " = K")
	if err == nil && string(m.PlainText) == "AB" {
		w.read[l] = "a received message"
	}
	return nil
}

func (w *histWorld) reload() error {
	f := filepath.Join(w.dir, "store")
	w.k.SetPersistence(f)
	os.Remove(f)
	if err := w.k.Save(); err != nil {
		return kit.Broken("save: %v", err)
	}
	n := blank(w.k.GroupSize, w.k.KeyLength, "XX")
	n.SetPFKFromString(w.k.GetPFKString())
	n.SetPersistence(f)
	if err := n.Load(); err != nil {
		return kit.Fail("a saved store does not load: %v", err)
	}
	w.k = n
	w.msgs = nil
	return nil
}

var histOps = []histOp{
	{"auto short", func(w *histWorld) error { return w.encipher(shortText, "") }},
	{"auto long", func(w *histWorld) error { return w.encipher(longText, "") }},
	{"to BB short", func(w *histWorld) error { return w.encipher(shortText, "", "BB") }},
	{"to BB long radiogram", func(w *histWorld) error { return w.radiogram(longText, []string{"BB"}) }},
	{"auto too long", func(w *histWorld) error { return w.encipher(hugeText, "") }},
	{"unsupported late", func(w *histWorld) error { return w.encipher(badLate, "") }},
	{"key AA short", func(w *histWorld) error { return w.encipher(shortText, "AA") }},
	{"key AA long", func(w *histWorld) error { return w.encipher(longText, "AA") }},
	{"key BB long radiogram", func(w *histWorld) error { return w.radiogram(longText, nil, "BB") }},
	{"receive AA", func(w *histWorld) error { return w.receive("AA") }},
	{"receive BB", func(w *histWorld) error { return w.receive("BB") }},
	{"delete all messages", func(w *histWorld) error {
		for len(w.k.Messages) > 0 {
			n, _ := w.k.DeleteMessage(cp(w.k.Messages[0].Id))
			if n == 0 {
				break
			}
		}
		w.msgs = nil
		return nil
	}},
	{"save and load", func(w *histWorld) error { return w.reload() }},
	{"encipher last again", func(w *histWorld) error {
		if len(w.msgs) == 0 {
			return nil
		}
		m := w.msgs[len(w.msgs)-1]
		old := string(m.CipherText)
		keys := keyMap(w.k)
		if m.Encipher() != nil {
			return nil
		}
		_ = old
		return w.noteSent(m, keys)
	}},
	{"wipe last message", func(w *histWorld) error {
		if len(w.msgs) > 0 {
			w.msgs[len(w.msgs)-1].Wipe()
			w.msgs = w.msgs[:len(w.msgs)-1]
		}
		return nil
	}},
	{"AA compromised", func(w *histWorld) error {
		if k, err := w.k.GetKey([]rune("AA")); err == nil {
			k.Compromised = !k.Compromised
		}
		return nil
	}},
	{"delete key BB", func(w *histWorld) error { w.k.DeleteKey([]rune("BB")); return nil }},
	{"generate key", func(w *histWorld) error { w.k.NewKey(farFuture); return nil }},
	{"export all", func(w *histWorld) error {
		n := w.k.ExportKeys(func(*Key) bool { return true })
		m := &Msg{PlainText: []rune(shortText)}
		m.SetInstance(&n)
		_ = n
		return nil
	}},
}

type histSetup struct {
	name string
	mk   func() *K
}

var histSetups = []histSetup{
	{"three keys of 20", func() *K {
		k := blank(2, 20, "ME")
		addKey(k, mkKey("AA", keyLetters(1, 20)))
		addKey(k, mkKey("BB", keyLetters(2, 20)))
		addKey(k, mkKey("CC", keyLetters(3, 20), "BB"))
		return k
	}},
	{"five keys", func() *K {
		k := blank(2, 20, "ME")
		addKey(k, mkKey("AA", keyLetters(1, 20), "BB"))
		addKey(k, mkKey("BB", keyLetters(2, 20)))
		addKey(k, mkKey("CC", keyLetters(3, 20), "BB"))
		addKey(k, mkKey("DD", keyLetters(4, 20)))
		addKey(k, mkKey("EE", keyLetters(5, 40)))
		return k
	}},
}

func enumHistories(depth func(r *kit.Run, setup int) int) func(r *kit.Run, yield func(histCase) bool) {
	return func(r *kit.Run, yield func(histCase) bool) {
		for s := range histSetups {
			if !sequences(len(histOps), 1, depth(r, s), func(ops []int) bool {
				return yield(histCase{s, append([]int(nil), ops...)})
			}) {
				return
			}
		}
	}
}

func execHistory(r *kit.Run, c histCase) error {
	w := &histWorld{r: r, k: histSetups[c.Setup].mk(), sent: map[string]string{}, read: map[string]string{}, dir: r.Scratch}
	pfk := repeat("42", 32)
	w.k.SetPFKFromString(pfk)
	seedRandom(uint64(len(c.Ops)))
	for _, o := range c.Ops {
		w.trace = append(w.trace, histOps[o].name)
		if err := histOps[o].do(w); err != nil {
			return err
		}
		r.Step(1)
	}
	r.StateOf(c.Setup, strings.Join(keysSnap(w.k), "\n"), len(w.k.Messages), len(w.sent), len(w.read))
	return nil
}

// ---------------------------------------------------------------- C05

type failCase struct {
	GS, KL  int
	Pool    []int  // per key: 0 anonymous, 1 held by BB, 2 used, 3 compromised, 4 too short, 5 damaged letters
	Text    string // enciphered text
	To      string
	Key     int  // -1 automatic, else requested key
	Radio   bool // through NewTextMessage
	BadPlan int
}

func enumFailures(r *kit.Run, yield func(failCase) bool) {
	texts := []string{shortText, longText, longText + longText, badText, badLate, "", "a" + longText + "\x00", "#", patternText("aB1", 40)}
	top := kit.Pick(r, 4, 5)
	for _, cf := range []gskl{{2, 20}, {5, 24}, {1, 20}} {
		sequences(6, 0, top, func(s []int) bool {
			pool := append([]int(nil), s...)
			for _, t := range texts {
				for _, to := range []string{"", "BB"} {
					for key := -1; key <= len(pool); key++ {
						if key >= 1 && key < len(pool)-1 {
							continue
						}
						for _, radio := range []bool{false, true} {
							if radio && (t == "" || strings.ContainsRune(t, 0)) {
								continue
							}
							if !yield(failCase{cf.gs, cf.kl, pool, t, to, key, radio, 0}) {
								return false
							}
						}
					}
				}
			}
			return true
		})
	}
}

func (c failCase) store() *K {
	k := blank(c.GS, c.KL, "ME")
	for i, p := range c.Pool {
		var key Key
		id := keyID(i*31+40, c.GS)
		if c.GS == 1 {
			id = keyID(i, 1)
		}
		switch p {
		case 0:
			key = mkKey(id, keyLetters(i, c.KL))
		case 1:
			key = mkKey(id, keyLetters(i, c.KL), "BB", "CC")
		case 2:
			key = mkKey(id, keyLetters(i, c.KL), "BB")
			key.Used = true
			if i%2 == 0 {
				key.Keepers = nil
			}
		case 3:
			key = mkKey(id, keyLetters(i, c.KL), "BB")
			key.Compromised = true
			if i%2 == 0 {
				key.Keepers = nil
			}
		case 4:
			key = mkKey(id, keyLetters(i, 3))
			if i%2 == 0 {
				key.Keepers = runes2([]string{"BB"})
			}
		case 5:
			l := keyLetters(i, c.KL)
			l[len(l)/2] = 'a'
			key = mkKey(id, l)
			if i%2 == 0 {
				key.Keepers = runes2([]string{"BB"})
			}
		}
		key.Comment = []rune("c" + id)
		addKey(k, key)
	}
	return k
}

func (c failCase) attempt(k *K) (*Msg, error) {
	id := ""
	if c.Key >= 0 {
		id = keyID(25, c.GS) // unknown
		if c.Key < len(c.Pool) {
			id = string(k.Keys[c.Key].Id)
		}
	}
	if c.Radio {
		args := []string{c.To + " DE ME 010203 = " + c.Text + " = K"}
		if id != "" {
			args = append(args, id)
		}
		return k.NewTextMessage(args...)
	}
	var to []string
	if c.To != "" {
		to = []string{c.To}
	}
	m := newMsg(k, c.Text, to...)
	if id != "" {
		m.KeyId = []rune(id)
	}
	return m, m.Encipher()
}

func execFailure(r *kit.Run, c failCase) error {
	k := c.store()
	before := storeSnap(k)
	m, err := c.attempt(k)
	r.Step(1)
	if err == nil {
		r.Count("succeeded", 1)
		return nil
	}
	if d := diff(before, storeSnap(k)); d != "" {
		return kit.Fail("enciphering failed (%v) but the store changed: %s", err, d)
	}
	if !c.Radio {
		if len(m.CipherText) != 0 {
			return kit.Fail("enciphering failed (%v) but ciphertext %q is left in the message", err, string(m.CipherText))
		}
		if string(m.PlainText) != c.Text {
			return kit.Fail("enciphering failed (%v) and the text %q became %q", err, c.Text, string(m.PlainText))
		}
		// what a caller does with a message it can not send
		m.Wipe()
		if d := diff(before, storeSnap(k)); d != "" {
			return kit.Fail("enciphering failed (%v); wiping the attempted message changed the store: %s", err, d)
		}
	} else if m != nil {
		return kit.Fail("enciphering failed (%v) but a message is returned", err)
	}
	r.StateOf(c.GS, fmt.Sprint(c.Pool), c.Text, c.To, c.Key, c.Radio)
	// remove the cause: enough good keys, and a clean text; compare with a
	// store that never saw the failed attempt
	good := func(x *K) {
		for i := 0; i < 12; i++ {
			id := keyID(i*3+300, c.GS)
			if c.GS == 1 {
				id = keyID(i+8, 1)
			}
			key := mkKey(id, keyLetters(100+i, c.KL))
			if c.To != "" {
				key.Keepers = runes2([]string{c.To})
			}
			addKey(x, key)
		}
		for i := range x.Keys {
			if len(x.Keys[i].Runes) < c.KL || strings.ContainsRune(string(x.Keys[i].Runes), 'a') {
				x.Keys[i].Runes = keyLetters(200+i, c.KL)
			}
		}
	}
	clean := strings.Map(func(x rune) rune {
		if !ref.Supported(x) {
			return -1
		}
		return x
	}, c.Text)
	if clean == "" {
		clean = "Q"
	}
	c2 := c
	c2.Text = clean
	if !(c.Key >= 0 && c.Key < len(c.Pool)) {
		c2.Key = -1
	}
	f := c.store()
	good(k)
	good(f)
	m1, e1 := c2.attempt(k)
	m2, e2 := c2.attempt(f)
	r.Step(2)
	if (e1 == nil) != (e2 == nil) {
		return kit.Fail("after the failed attempt (%v) and removal of its cause: %v; without the failed attempt: %v", err, e1, e2)
	}
	if e1 == nil {
		if string(m1.CipherText) != string(m2.CipherText) || string(m1.KeyId) != string(m2.KeyId) {
			return kit.Fail("after a failed attempt (%v) other keys are used (%s %q) than without it (%s %q)", err, string(m1.KeyId), string(m1.CipherText), string(m2.KeyId), string(m2.CipherText))
		}
	}
	if d := diff(strings.Join(keysSnap(f), "\n"), strings.Join(keysSnap(k), "\n")); d != "" {
		return kit.Fail("after a failed attempt (%v) and a successful one the keys differ from those of a station without the failed attempt: %s", err, d)
	}
	// the same message object is tried again
	if !c.Radio && clean == c.Text {
		k := c.store()
		m, err := c.attempt(k)
		if err == nil {
			return kit.Fail("the same attempt fails once (%v) and then succeeds", err)
		}
		good(k)
		f := c.store()
		good(f)
		e1 := m.Encipher()
		m2, e2 := c.attempt(f)
		r.Step(2)
		if (e1 == nil) != (e2 == nil) {
			return kit.Fail("repeating the failed attempt (%v) after removing its cause: %v; a first attempt: %v", err, e1, e2)
		}
		if e1 == nil && string(m.KeyId)+string(m.CipherText) != string(m2.KeyId)+string(m2.CipherText) {
			return kit.Fail("repeating the failed attempt (%v) uses %s %q, a first attempt %s %q", err, string(m.KeyId), string(m.CipherText), string(m2.KeyId), string(m2.CipherText))
		}
	}
	return nil
}

// ---------------------------------------------------------------- C06

// A key is described by a number: used, compromised, id length, keepers.
var keeperSets = [][]string{nil, {"BB"}, {"CC"}, {"BB", "CC"}, {"CC", "BB", "DD"}, {"BB", "BB"}}
var addresseeSets = [][]string{nil, {"BB"}, {"CC"}, {"BB", "CC"}, {"CC", "BB"}, {"DD"}, {"BB", "BB"}, {"ME", "BB"}, {"B"}, {"BBB"}, {"BB", "CC", "DD"}}

const keyKinds = 2 * 2 * 3 * 6

type selectCase struct {
	Keys []int
}

func enumSelection(r *kit.Run, yield func(selectCase) bool) {
	sequences(keyKinds, 0, 2, func(s []int) bool { return yield(selectCase{append([]int(nil), s...)}) })
	// longer stores over a coarser description
	rep := []int{}
	for n := 0; n < keyKinds; n++ {
		if idLenOf(n) == 2 && n%6 < 4 || n == keyKinds-1 || idLenOf(n) == 1 && n%6 == 1 && n < 18 {
			rep = append(rep, n)
		}
	}
	sequences(len(rep), 3, kit.Pick(r, 3, 4), func(s []int) bool {
		o := make([]int, len(s))
		for i, x := range s {
			o[i] = rep[x]
		}
		return yield(selectCase{o})
	})
}

func idLenOf(n int) int { return []int{2, 1, 3}[(n/6)%3] }

func selectKey(i, n int) Key {
	idLen := idLenOf(n)
	id := keyID(i+1, idLen)
	k := mkKey(id, keyLetters(i, 24), keeperSets[n%6]...)
	if (n/18)%2 == 1 {
		k.Used = true
	}
	if (n/36)%2 == 1 {
		k.Compromised = true
	}
	return k
}

func eligible(k *Key, gs int, to []string) bool {
	if k.Used || k.Compromised || len(k.Id) != gs {
		return false
	}
	if len(to) == 0 {
		return len(k.Keepers) == 0
	}
	for _, t := range to {
		ok := false
		for _, x := range k.Keepers {
			if string(x) == t {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func execSelection(r *kit.Run, c selectCase) error {
	for _, to := range addresseeSets {
		k := blank(2, 24, "ME")
		for i, n := range c.Keys {
			addKey(k, selectKey(i, n))
		}
		before := storeSnap(k)
		any := 0
		for i := range k.Keys {
			if eligible(&k.Keys[i], 2, to) {
				any++
			}
		}
		got := k.FindKey(runes2(to)...)
		r.Step(1)
		if d := diff(before, storeSnap(k)); d != "" {
			return kit.Fail("looking for a key changed the store: %s", d)
		}
		if got == nil && any > 0 {
			return kit.Fail("addressees %v: no key found, but %d are suitable:\n%s", to, any, before)
		}
		if got != nil {
			if !eligible(got, 2, to) {
				return kit.Fail("addressees %v: key chosen is not suitable: %s", to, keyString(got))
			}
			inStore := false
			for i := range k.Keys {
				if got == &k.Keys[i] {
					inStore = true
				}
			}
			if !inStore {
				return kit.Fail("addressees %v: the key found is not the one in the store", to)
			}
		}
		r.StateOf(fmt.Sprint(c.Keys), fmt.Sprint(to))
		// every part of a message
		orig := make([]Key, len(k.Keys))
		copy(orig, k.Keys)
		for _, text := range []string{"AB", patternText("AB", 40)} {
			k := blank(2, 24, "ME")
			for i, n := range c.Keys {
				addKey(k, selectKey(i, n))
			}
			m := newMsg(k, text, to...)
			err := m.Encipher()
			r.Step(1)
			if err != nil {
				if len(text) == 2 && any > 0 {
					return kit.Fail("addressees %v: %d suitable keys, but %v", to, any, err)
				}
				continue
			}
			_, segs, derr := decodeByHand(nil, k, m, keyMap(k))
			if derr != nil {
				continue
			}
			for _, s := range segs {
				for i := range orig {
					if string(orig[i].Id) == s.KeyID && !eligible(&orig[i], 2, to) {
						return kit.Fail("addressees %v: enciphered with unsuitable key %s", to, keyString(&orig[i]))
					}
				}
			}
			for i := range orig {
				in := false
				for _, s := range segs {
					in = in || s.KeyID == string(orig[i].Id)
				}
				if !in && k.Keys[i].Used != orig[i].Used {
					return kit.Fail("addressees %v: key %s was not used but its mark changed", to, string(orig[i].Id))
				}
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- C07

type recvCase struct {
	GS, KL int
	Text   string
	Entry  int    // 0 Decipher, 1 TryDecipherPlainText, 2 NewTextMessage
	Damage string // "", cut, sub, drop, key
	Pos    int
	Letter int
	Raw    string // ordinary text instead
	Marks  int    // of the receiver's keys, and what is around the text
}

func enumReceived(r *kit.Run, yield0 func(recvCase) bool) {
	n := 0
	yield := func(c recvCase) bool {
		if c.Damage == "raw" {
			n++
			c.Marks = n % 4
			return yield0(c)
		}
		for c.Marks = 0; c.Marks < 4; c.Marks++ {
			if !yield0(c) {
				return false
			}
		}
		return true
	}
	texts := []struct {
		gs, kl int
		t      string
	}{
		{5, 20, "HEJ"}, {5, 20, "HELLO WORLD 12"}, {5, 24, patternText("Hej du 42, Ö", 30)},
		{2, 20, patternText("aB1", 24)}, {1, 20, patternText("ABC", 20)}, {3, 21, patternText("x Y", 31)},
	}
	for _, t := range texts {
		for e := 0; e < 3; e++ {
			base := recvCase{GS: t.gs, KL: t.kl, Text: t.t, Entry: e}
			if !yield(base) {
				return
			}
			top := 8 * len([]rune(t.t))
			for p := 0; p < top; p++ {
				c := base
				c.Damage, c.Pos = "cut", p
				if !yield(c) {
					return
				}
				c.Damage = "drop"
				if !yield(c) {
					return
				}
				for l := 0; l < 26; l++ {
					c.Damage, c.Letter = "sub", l
					if !yield(c) {
						return
					}
				}
				for l := 0; l < 6; l++ { // foreign letters
					c.Damage, c.Letter = "foreign", l
					if !yield(c) {
						return
					}
				}
			}
			for mask := 0; mask < 64; mask++ { // missing keys
				c := base
				c.Damage, c.Pos = "key", mask
				if !yield(c) {
					return
				}
			}
			for mask := 0; mask < 16; mask++ { // damaged keys
				c := base
				c.Damage, c.Pos = "badkey", mask
				if !yield(c) {
					return
				}
			}
		}
	}
	// ordinary text, key names in it or not
	tok := []string{"AA", "AB", "HEJ", "a", "1", " ", "=", "ö", "\u2028", "BB", "."}
	sequences(len(tok), 0, kit.Pick(r, 5, 6), func(s []int) bool {
		var b strings.Builder
		for _, x := range s {
			b.WriteString(tok[x])
		}
		for e := 1; e < 3; e++ {
			if !yield(recvCase{GS: 2, KL: 20, Raw: b.String(), Entry: e, Damage: "raw"}) {
				return false
			}
		}
		return true
	})
}

var foreign = []rune{'a', 'Å', '?', 0, '[', '@'}

func execReceived(r *kit.Run, c recvCase) error {
	k := blank(c.GS, c.KL, "BB")
	for i := 0; i < 10; i++ {
		addKey(k, mkKey(keyID(i, c.GS), keyLetters(i, c.KL)))
	}
	var cipher []rune
	start := keyID(0, c.GS)
	if c.Damage != "raw" {
		s := peer(k, "AA")
		m := newMsg(s, c.Text)
		if err := m.Encipher(); err != nil {
			return nil
		}
		cipher = cp(m.CipherText)
		start = string(m.KeyId)
	}
	switch c.Damage {
	case "cut":
		if c.Pos >= len(cipher) {
			return nil
		}
		cipher = cipher[:c.Pos]
	case "drop":
		if c.Pos >= len(cipher) {
			return nil
		}
		cipher = append(cipher[:c.Pos], cipher[c.Pos+1:]...)
	case "sub":
		if c.Pos >= len(cipher) {
			return nil
		}
		cipher[c.Pos] = rune('A' + c.Letter)
	case "foreign":
		if c.Pos >= len(cipher) {
			return nil
		}
		cipher[c.Pos] = foreign[c.Letter]
	case "key":
		var left []Key
		for i := range k.Keys {
			if i >= 6 || c.Pos&(1<<i) == 0 {
				left = append(left, k.Keys[i])
			}
		}
		k.Keys = left
	case "badkey":
		for i := 0; i < 2; i++ {
			switch (c.Pos >> (2 * i)) & 3 {
			case 1:
				k.Keys[i].Runes = nil
			case 2:
				k.Keys[i].Runes[5] = 'x'
			case 3:
				k.Keys[i].Runes = k.Keys[i].Runes[:9]
			}
		}
	}
	for i := range k.Keys {
		x := &k.Keys[i]
		switch c.Marks {
		case 1:
			x.Compromised = true
		case 2:
			x.Used, x.Compromised = i%2 == 0, i%3 == 1
			x.Expires.Time = day0
		case 3:
			x.Keepers = runes2([]string{"AA", "CC"})
			x.Used = i%3 == 1
		}
	}
	if c.Marks > 1 {
		// among keys of other group sizes that begin alike
		own := k.Keys
		k.Keys = nil
		for i := range own {
			id := string(own[i].Id)
			addKey(k, mkKey(id+"A", keyLetters(40+i, c.KL)))
			addKey(k, mkKey(id[:c.GS-1], keyLetters(60+i, c.KL)))
			k.Keys = append(k.Keys, own[i])
		}
	}
	before := keysSnap(k)
	usedBefore := map[string]bool{}
	for i := range k.Keys {
		usedBefore[string(k.Keys[i].Id)] = k.Keys[i].Used
	}
	want, segs, werr := ref.Decode(cipher, start, c.GS, keyMap(k), nil)
	// a text that ends inside a key change or with a switch to binary mode:
	// either answer will do
	unclear := func(e error, n int) bool {
		return e != nil && (strings.Contains(e.Error(), "ends inside") || e.Error() == fmt.Sprintf("binary mode at letter %d", n-1))
	}
	open := unclear(werr, len(cipher))
	var m *Msg
	var wasMsg Msg
	var err error
	text := ""
	switch c.Entry {
	case 0:
		m = &Msg{}
		dressMessage(m, 5*c.Marks)
		m.KeyId, m.CipherText, m.PlainText = []rune(start), cp(cipher), []rune("KEEP")
		m.SetInstance(k)
		wasMsg = *m
		err = m.Decipher()
	case 1:
		text = start + string(cipher)
		if c.Damage == "raw" {
			text = c.Raw
		}
		m = &Msg{}
		dressMessage(m, 5*c.Marks)
		m.PlainText, m.From = []rune(text), []rune("AA")
		m.SetInstance(k)
		wasMsg = *m
		err = m.TryDecipherPlainText()
	case 2:
		text = start + string(cipher)
		if c.Damage == "raw" {
			text = c.Raw
		}
		if strings.ContainsRune(text, 0) {
			return nil
		}
		m, err = k.NewTextMessage("BB DE AA 010203 = " + text + " = K")
		if err != nil {
			if c.Damage == "raw" {
				return nil // not a radiogram after all
			}
			return kit.Fail("received radiogram with text %q is refused: %v", text, err)
		}
		if len(k.Messages) != 1 {
			return kit.Fail("received radiogram was not stored")
		}
		stored, returned := k.Messages[0], *m
		if msgString(&stored) != msgString(&returned) {
			return kit.Fail("the stored message differs from the one returned:\n  %s\n  %s", msgString(&stored), msgString(&returned))
		}
		if len(m.KeyId) == 0 {
			err = krypto431.ErrNotCipherText
		}
	}
	r.Step(1)
	r.StateOf(c.GS, string(cipher), c.Raw, c.Entry, fmt.Sprint(before))
	if c.Entry < 2 {
		// whatever becomes of it, what is around the text stays
		now := *m
		now.KeyId, now.CipherText, now.PlainText = nil, nil, nil
		wasMsg.KeyId, wasMsg.CipherText, wasMsg.PlainText = nil, nil, nil
		if len(wasMsg.Id) == 0 {
			now.Id = nil // it may be given one
		}
		if msgString(&now) != msgString(&wasMsg) {
			return kit.Fail("deciphering changed what is around the text: %s, was %s", msgString(&now), msgString(&wasMsg))
		}
	}
	describe := fmt.Sprintf("received %s %q (%s at %d)%s by entry %d", start, string(cipher), c.Damage, c.Pos, c.Raw, c.Entry)
	// received lower case letters are read as capitals
	if c.Damage == "foreign" && foreign[c.Letter] == 'a' && c.Entry > 0 {
		up := cp(cipher)
		up[c.Pos] = 'A'
		want, segs, werr = ref.Decode(up, start, c.GS, keyMap(k), nil)
		open = unclear(werr, len(up))
	}
	if c.Damage == "raw" {
		if err == nil {
			// it happened to be cipher text: must be what the hand says
			w, sg, e := handRaw(k, c.Raw)
			if unclear(e, len(c.Raw)) || e != nil && strings.Contains(e.Error(), "binary mode") {
				return nil
			}
			if e != nil {
				return kit.Fail("%s: deciphered as %q but it is not cipher text (%v)", describe, string(m.PlainText), e)
			}
			want, segs, werr = w, sg, nil
		} else {
			if !equal(before, keysSnap(k)) {
				return kit.Fail("%s: not deciphered (%v) but keys changed", describe, err)
			}
			if c.Entry == 1 && string(m.PlainText) != text {
				return kit.Fail("%s: ordinary text became %q", describe, string(m.PlainText))
			}
			if len(m.KeyId) != 0 || len(m.CipherText) != 0 {
				return kit.Fail("%s: not deciphered (%v) but key %q and ciphertext %q appear in the message", describe, err, string(m.KeyId), string(m.CipherText))
			}
			return nil
		}
	}
	if open {
		return nil
	}
	if len(cipher) < c.GS && c.Damage != "raw" {
		if err == nil && len(cipher) == 0 {
			return nil
		}
	}
	if err != nil {
		if werr == nil && len(cipher) >= c.GS {
			return kit.Fail("%s: not deciphered (%v), by hand it reads %q", describe, err, string(want))
		}
		if !equal(before, keysSnap(k)) {
			return kit.Fail("%s: not deciphered (%v) but keys changed: %s", describe, err, diff(strings.Join(before, "\n"), strings.Join(keysSnap(k), "\n")))
		}
		switch c.Entry {
		case 0:
			if string(m.CipherText) != string(cipher) || string(m.KeyId) != start || string(m.PlainText) != "KEEP" {
				return kit.Fail("%s: not deciphered (%v), the message became %s", describe, err, msgString(m))
			}
		case 1:
			if string(m.PlainText) != text || len(m.KeyId) != 0 || len(m.CipherText) != 0 {
				return kit.Fail("%s: not deciphered (%v), the message became %s", describe, err, msgString(m))
			}
		case 2:
			if string(m.PlainText) != text || len(m.CipherText) != 0 {
				return kit.Fail("%s: not deciphered, the message became %s", describe, msgString(m))
			}
		}
		return nil
	}
	if werr != nil {
		return kit.Fail("%s: deciphered as %q, by hand: %v", describe, string(m.PlainText), werr)
	}
	if string(m.PlainText) != string(want) {
		return kit.Fail("%s: deciphered as %q, by hand %q", describe, string(m.PlainText), string(want))
	}
	inChain := map[string]bool{}
	for _, s := range segs {
		inChain[s.KeyID] = true
	}
	for i := range k.Keys {
		if k.Keys[i].Used != (inChain[string(k.Keys[i].Id)] || usedBefore[string(k.Keys[i].Id)]) {
			return kit.Fail("%s: key %s used=%t, the message runs through %v", describe, string(k.Keys[i].Id), k.Keys[i].Used, segs)
		}
		was := before[i]
		k.Keys[i].Used = usedBefore[string(k.Keys[i].Id)]
		if keyString(&k.Keys[i]) != was {
			return kit.Fail("%s: key %s changed: %s, was %s", describe, string(k.Keys[i].Id), keyString(&k.Keys[i]), was)
		}
	}
	return nil
}

// handRaw reads ordinary looking text as a key name and groups.
func handRaw(k *K, raw string) ([]rune, []ref.Segment, error) {
	var l []rune
	for _, x := range strings.ToUpper(raw) {
		if x >= 'A' && x <= 'Z' {
			l = append(l, x)
		} else if !strings.ContainsRune(" =\u2028\u2029\n\r\t", x) {
			return nil, nil, fmt.Errorf("contains %q", x)
		}
	}
	if len(l) < 2*k.GroupSize {
		return nil, nil, fmt.Errorf("too short")
	}
	return ref.Decode(l[k.GroupSize:], string(l[:k.GroupSize]), k.GroupSize, keyMap(k), nil)
}

func init() {
	kit.Register(&kit.Prop{ID: "C04", Level: "model_checking",
		Bounds:   fmt.Sprintf("all sequences of %d operations (automatic, requested and multi-part enciphering, failures, reception, deletion, reload, wiping, marks, generation) to depth 4 (5) from two stores of 3 and 5 keys", len(histOps)),
		Families: []*kit.Family{kit.F("histories", "every operation sequence up to the depth, executed from scratch", enumHistories(func(r *kit.Run, s int) int { return kit.Pick(r, 4, 5) }), execHistory)}})
	kit.Register(&kit.Prop{ID: "C05", Level: "model_checking",
		Bounds:   "all stores of up to 4 (5) keys of 6 kinds x 9 texts x addressed or not x automatic, first, last or unknown requested key x two entries x 3 group sizes; each failing one is repeated after the cause is removed",
		Families: []*kit.Family{kit.F("failures", "every store, text, addressee, key request and entry", enumFailures, execFailure)}})
	kit.Register(&kit.Prop{ID: "C06", Level: "model_checking",
		Bounds:   "all stores of up to two keys over 72 kinds (marks, identifier length, keepers) and of three (four) keys over 18 kinds x 11 addressee lists",
		Families: []*kit.Family{kit.F("selection", "every store times every addressee list", enumSelection, execSelection)}})
	kit.Register(&kit.Prop{ID: "C07", Level: "model_checking",
		Bounds:   "six enciphered messages of one to several keys: every truncation, dropped letter, substituted letter and foreign letter at every position, every set of missing keys, damaged keys, through three entries, the receiver's keys unmarked, compromised, used, expired, of others, and others whose identifiers begin alike; all token sequences to length 5 (6) as ordinary text",
		Families: []*kit.Family{kit.F("received", "every damage of every message through every entry", enumReceived, execReceived)}})
}
