package checks

import (
	"fmt"
	"strings"
	"testing/iotest"
	"unicode"
	"unicode/utf8"

	"github.com/sa6mwa/krypto431"
	"verif/kit"
	"verif/ref"
)

// textCase is one text enciphered under one configuration.
type textCase struct {
	GS, KL int
	KLs    []int `json:",omitempty"` // key lengths, cycled (default KL)
	Mat    int   `json:",omitempty"` // 0: varied key letters; 1..26: every key letter is that letter
	Text   string
	To     []string `json:",omitempty"`
	N      int      `json:",omitempty"` // number of keys (0: plenty)
}

// build makes the sending station.
func (c textCase) build() (*K, *Msg) {
	k := blank(c.GS, c.KL, "AA")
	text := []rune(c.Text)
	n := c.N
	if n == 0 {
		min := c.KL
		for _, l := range c.KLs {
			if l < min {
				min = l
			}
		}
		per := (min - c.GS - 6) / 4
		if per < 1 {
			per = 1
		}
		n = len(text)/per + 2
	}
	for i := 0; i < n; i++ {
		l := c.KL
		if len(c.KLs) > 0 {
			l = c.KLs[i%len(c.KLs)]
		}
		letters := keyLetters(i, l)
		if c.Mat > 0 {
			for x := range letters {
				letters[x] = rune('A' + c.Mat - 1)
			}
		}
		addKey(k, mkKey(c.id(i), letters, c.To...))
	}
	return k, newMsg(k, c.Text, c.To...)
}

func (c textCase) id(i int) string {
	switch c.GS {
	case 1:
		return keyID(i%26, 1)
	case 2:
		return keyID((i*7+3)%676, 2)
	case 3:
		return keyID((i*131+5)%17576, 3)
	}
	return keyID(i*40507+17, c.GS)
}

// maxKeys that have distinct identifiers.
func (c textCase) maxKeys() int {
	switch c.GS {
	case 1:
		return 26
	case 2:
		return 676
	}
	return 1 << 30
}

var classes = []rune("Kk 7ÖqZ/å.")

// Text spaces shared by C01, C02 and C08.

func enumClasses(r *kit.Run, yield func(textCase) bool) {
	// every sequence over character classes, one key
	n := 8
	top := kit.Pick(r, 5, 6)
	sequences(n, 1, top, func(s []int) bool {
		t := make([]rune, len(s))
		for i, x := range s {
			t[i] = classes[x]
		}
		return yield(textCase{GS: 5, KL: 350, Text: string(t)})
	})
}

func enumAlphabet(r *kit.Run, yield func(textCase) bool) {
	// every pair, and (thorough: every; quick: a third of the) triples of the
	// full alphabet
	a := ref.Alphabet
	for _, x := range a {
		if !yield(textCase{GS: 5, KL: 350, Text: string(x)}) {
			return
		}
	}
	for _, x := range a {
		for _, y := range a {
			for _, z := range a {
				if !yield(textCase{GS: 5, KL: 350, Text: string([]rune{x, y, z})}) {
					return
				}
			}
		}
	}
}

type gskl struct{ gs, kl int }

func enumBoundary(r *kit.Run, yield func(textCase) bool) {
	// filler up to three keys long, then every class sequence, then a tail that
	// continues
	cfgs := []gskl{{5, 20}, {5, 24}, {1, 20}, {2, 20}, {3, 20}, {4, 21}, {6, 22}, {10, 25}, {5, 350}}
	cl := []rune("Ak7Å z")
	fillers := []rune("A1a")
	top := kit.Pick(r, 3, 4)
	for _, cf := range cfgs {
		from, to := 0, 3*cf.kl
		if cf.kl > 100 {
			from, to = cf.kl-cf.gs-9, cf.kl+2
		}
		for _, f := range fillers {
			for n := from; n <= to; n++ {
				ok := sequences(len(cl), 0, top, func(s []int) bool {
					t := make([]rune, 0, n+len(s)+3)
					for i := 0; i < n; i++ {
						t = append(t, f)
					}
					for _, x := range s {
						t = append(t, cl[x])
					}
					tail := ""
					if len(s)%2 == 1 {
						tail = "Ba"
					}
					return yield(textCase{GS: cf.gs, KL: cf.kl, Text: string(t) + tail})
				})
				if !ok {
					return
				}
			}
		}
	}
}

var patterns = []string{
	"HELLO WORLD ",
	"Hello World 2026, Åäö? ",
	"aB1å-Ö Z.q",
	"0A",
	"aA",
	"a1A",
	"z",
	"Ä:ä+/",
}

func patternText(p string, n int) string {
	pr := []rune(p)
	t := make([]rune, n)
	for i := range t {
		t[i] = pr[i%len(pr)]
	}
	return string(t)
}

func enumLengths(r *kit.Run, yield func(textCase) bool) {
	// every length under the default configuration
	top := kit.Pick(r, 1500, 4000)
	for n := 1; n <= top; n++ {
		for pi, p := range patterns {
			if n > 400 && pi != (n%len(patterns)) {
				continue
			}
			if !yield(textCase{GS: 5, KL: 350, Text: patternText(p, n)}) {
				return
			}
		}
	}
	// beyond every preallocated capacity (7000 characters, 20 keys)
	for _, n := range []int{2047, 2048, 2049, 4095, 4096, 4097, 6860, 6999, 7000, 7001, 7500, 8191, 8193, 9999, 12000, 20000} {
		for _, p := range patterns {
			if !yield(textCase{GS: 5, KL: 350, Text: patternText(p, n)}) {
				return
			}
		}
	}
}

func enumConfigs(r *kit.Run, yield func(textCase) bool) {
	// every small group size and key length, texts up to several keys
	topGS := kit.Pick(r, 9, 14)
	topKL := kit.Pick(r, 48, 64)
	for gs := 1; gs <= topGS; gs++ {
		for kl := 20; kl <= topKL; kl++ {
			if kl < gs+10 {
				continue
			}
			for pi, p := range patterns {
				top := 3*kl + 5
				for n := 1; n <= top; n++ {
					if n > 40 && (n+pi+kl)%3 != 0 {
						continue
					}
					c := textCase{GS: gs, KL: kl, Text: patternText(p, n)}
					if !yield(c) {
						return
					}
				}
			}
		}
	}
	// keys of different length in one store (imported keys)
	mixes := [][]int{{20, 40}, {40, 20}, {25, 350}, {350, 25}, {21, 22, 23}, {60, 20, 350}}
	for _, mix := range mixes {
		for gs := 1; gs <= 5; gs++ {
			for _, p := range patterns {
				for n := 1; n <= 160; n++ {
					if !yield(textCase{GS: gs, KL: 350, KLs: mix, Text: patternText(p, n)}) {
						return
					}
				}
			}
		}
	}
	// large groups and keys
	for _, cf := range []gskl{{15, 40}, {20, 31}, {25, 60}, {50, 100}, {5, 1000}, {10, 701}, {7, 699}, {5, 5000}} {
		for _, p := range patterns {
			for _, n := range []int{1, 7, cf.kl - cf.gs - 3, cf.kl - cf.gs - 2, cf.kl - cf.gs - 1, cf.kl - 1, cf.kl, cf.kl + 1, 2*cf.kl + 3, 5 * cf.kl} {
				if n < 1 {
					continue
				}
				if !yield(textCase{GS: cf.gs, KL: cf.kl, Text: patternText(p, n)}) {
					return
				}
			}
		}
	}
}

func enumMaterial(r *kit.Run, yield func(textCase) bool) {
	// every key letter against every code letter, including in key changes
	all := string(ref.Alphabet)
	for mat := 1; mat <= 26; mat++ {
		for _, kl := range []int{20, 33, 350} {
			for off := 0; off < 6; off++ {
				if !yield(textCase{GS: 5, KL: kl, Mat: mat, Text: all[off:] + all}) {
					return
				}
			}
		}
	}
	// addressees
	for _, to := range [][]string{nil, {"BB"}, {"BB", "CC"}, {"BB", "CC", "DD"}, {"SM5XYZ/P"}} {
		for _, p := range patterns {
			for _, n := range []int{1, 20, 300, 700} {
				if !yield(textCase{GS: 5, KL: 350, To: to, Text: patternText(p, n)}) {
					return
				}
			}
		}
	}
}

func (c textCase) feasible() bool {
	if c.Text == "" {
		return false
	}
	if c.N != 0 {
		return true
	}
	k := c.KL
	for _, l := range c.KLs {
		if l < k {
			k = l
		}
	}
	per := (k - c.GS - 6) / 4
	if per < 1 {
		per = 1
	}
	return len([]rune(c.Text))/per+2 <= c.maxKeys()
}

func feasibleOnly(e func(*kit.Run, func(textCase) bool)) func(*kit.Run, func(textCase) bool) {
	return func(r *kit.Run, yield func(textCase) bool) {
		e(r, func(c textCase) bool {
			if !c.feasible() {
				return true
			}
			return yield(c)
		})
	}
}

func textFamilies(exec func(*kit.Run, textCase) error) []*kit.Family {
	mk := func(name, rule string, w float64, e func(*kit.Run, func(textCase) bool)) *kit.Family {
		return kit.F(name, rule, feasibleOnly(e), exec).W(w)
	}
	return []*kit.Family{
		mk("classes", "every sequence of character classes (capital, small, figure, space, Ö, q, Z, sign) up to the bound; every one is a distinct text", 1, enumClasses),
		mk("alphabet", "every one and three character text of the full 76 character alphabet", 2, enumAlphabet),
		mk("boundary", "filler of every length up to three keys followed by every class sequence, for 9 group size/key length pairs", 3, enumBoundary),
		mk("lengths", "every text length with mixed patterns under the default configuration, and lengths beyond every preallocated size", 2, enumLengths),
		mk("configs", "every group size and key length in the bound times text lengths up to three keys, mixed key lengths", 3, enumConfigs),
		mk("material", "every key letter against every code letter; recipient sets", 1, enumMaterial),
	}
}

func execRoundTrip(r *kit.Run, c textCase) error {
	k, m := c.build()
	err := m.Encipher()
	r.Step(1)
	if err != nil {
		r.Count("refused", 1)
		return nil
	}
	if got := string(m.PlainText); got != c.Text {
		return kit.Fail("enciphering changed the text of the message: %q became %q", c.Text, got)
	}
	// The other station holds the keys in another order, with marks, dates,
	// keepers and settings of its own.
	p := peer(k, "BB")
	p.KeyLength, p.Columns, p.KeyColumns = c.KL+c.GS, 90, 200
	for i, j := 0, len(p.Keys)-1; i < j; i, j = i+1, j-1 {
		p.Keys[i], p.Keys[j] = p.Keys[j], p.Keys[i]
	}
	for i := range p.Keys {
		x := &p.Keys[i]
		x.Compromised, x.Used = i%3 == 1, i%7 == 3
		x.Created, x.Expires = x.Expires, x.Created
		x.Keepers = runes2([][]string{nil, {"AA"}, {"XX", "YY"}}[i%3])
	}
	m2 := &Msg{KeyId: cp(m.KeyId), CipherText: cp(m.CipherText)}
	dressMessage(m2, len(c.Text))
	m2.SetInstance(p)
	err = m2.Decipher()
	r.Step(len(m.CipherText))
	if err != nil {
		return kit.Fail("text %q (group size %d, key length %d): the other station fails to decipher: %v", trunc(c.Text), c.GS, c.KL, err)
	}
	if got := string(m2.PlainText); got != c.Text {
		return kit.Fail("group size %d, key length %d: text %q deciphers as %q", c.GS, c.KL, trunc(c.Text), trunc(got))
	}
	// same station, too (its own key store may have been touched by Encipher)
	m3 := &Msg{KeyId: cp(m.KeyId), CipherText: cp(m.CipherText)}
	m3.SetInstance(k)
	if err := m3.Decipher(); err != nil {
		return kit.Fail("text %q: the sending station fails to decipher its own traffic: %v", trunc(c.Text), err)
	}
	if got := string(m3.PlainText); got != c.Text {
		return kit.Fail("text %q deciphers at the sending station as %q", trunc(c.Text), trunc(got))
	}
	used := 0
	for i := range k.Keys {
		if k.Keys[i].Used {
			used++
		}
	}
	r.StateOf(c.GS, c.KL, used, len(c.Text)%c.GS, len(m.CipherText))
	return nil
}

// dressMessage fills in what is around the text of a message.
func dressMessage(m *Msg, v int) {
	if v%2 == 1 {
		m.Id, m.From, m.PlainText = []rune("Ab12"), []rune("AA"), []rune("what was there before")
	}
	m.Recipients = runes2([][]string{nil, {"BB"}, {"CC", "BB"}, {"BB", "BB", "QQ"}}[v/2%4])
	if v/8%2 == 1 {
		m.DTG.Time, m.Radiogram, m.Binary = day0.In(keyZones[1]), []rune("BB DE AA"), []byte{0, 1, 2}
	}
}

func execHandDecode(r *kit.Run, c textCase) error {
	k, m := c.build()
	keys := keyMap(k)
	if err := m.Encipher(); err != nil {
		r.Count("refused", 1)
		return nil
	}
	for i, x := range m.CipherText {
		if x < 'A' || x > 'Z' {
			return kit.Fail("text %q: ciphertext letter %d is %q", trunc(c.Text), i, x)
		}
	}
	if len(m.CipherText)%c.GS != 0 || len(m.CipherText) == 0 {
		return kit.Fail("text %q: %d letters of ciphertext are not whole groups of %d", trunc(c.Text), len(m.CipherText), c.GS)
	}
	plain, segs, err := decodeByHand(r, k, m, keys)
	if err != nil {
		return kit.Fail("text %q (group size %d, key length %d): the ciphertext can not be deciphered by hand: %v (so far %q)", trunc(c.Text), c.GS, c.KL, err, trunc(string(plain)))
	}
	if string(plain) != c.Text {
		return kit.Fail("group size %d, key length %d: text %q deciphers by hand as %q", c.GS, c.KL, trunc(c.Text), trunc(string(plain)))
	}
	seen := map[string]bool{}
	for _, s := range segs {
		if seen[s.KeyID] {
			return kit.Fail("text %q: key %s is used for two parts of the message", trunc(c.Text), s.KeyID)
		}
		seen[s.KeyID] = true
	}
	return nil
}

func execComplete(r *kit.Run, c textCase) error {
	k, m := c.build()
	keys := keyMap(k)
	err := m.Encipher()
	if err != nil {
		return kit.Fail("text %q (%d characters, group size %d, key length %d, %d unused keys): refused: %v", trunc(c.Text), len([]rune(c.Text)), c.GS, c.KL, len(k.Keys), err)
	}
	_, segs, err := decodeByHand(r, k, m, keys)
	if err != nil {
		return nil // C02
	}
	for i, s := range segs[:len(segs)-1] {
		kr, _ := keys(s.KeyID)
		if left := len(kr) - s.Letters; left > c.GS+8 {
			return kit.Fail("text %q (group size %d): key %s (part %d of %d) is abandoned with %d of %d letters unused", trunc(c.Text), c.GS, s.KeyID, i+1, len(segs), left, len(kr))
		}
	}
	if len(c.KLs) > 0 {
		return nil
	}
	// exactly as many keys as were needed must do as well
	need := len(segs)
	if need < len(k.Keys) {
		c2 := c
		c2.N = need
		k2, m2 := c2.build()
		if err := m2.Encipher(); err != nil {
			return kit.Fail("text %q (group size %d, key length %d): refused with exactly the %d keys it needs: %v", trunc(c.Text), c.GS, c.KL, need, err)
		}
		_ = k2
		r.Step(len(m2.CipherText))
	}
	r.StateOf("need", c.GS, c.KL, need, segs[len(segs)-1].Letters)
	return nil
}

// ------------------------------------------------------------ hand-made codes

// handCase is a code sequence written by hand: letters, and # for "change to
// the next key" (Y must precede it in table 2: the sequence decides).
type handCase struct {
	GS    int
	Codes string
}

// Every sequence of code letters (without W, binary mode) where the letters
// after a key change name existing keys.
func enumHand(r *kit.Run, yield func(handCase) bool) {
	letters := []rune("ABCDEFGHIJKLMNOPQRSTUVXYZ")
	top := kit.Pick(r, 4, 4)
	// group size 1: every letter names a key, so every sequence is correct
	sequences(len(letters), 1, top, func(s []int) bool {
		t := make([]rune, len(s))
		for i, x := range s {
			t[i] = letters[x]
		}
		return yield(handCase{GS: 1, Codes: string(t)})
	})
	// longer sequences over representatives
	rep := []rune("AMQZXY")
	sequences(len(rep), 5, kit.Pick(r, 7, 8), func(s []int) bool {
		t := make([]rune, len(s))
		for i, x := range s {
			t[i] = rep[x]
		}
		return yield(handCase{GS: 1, Codes: string(t)})
	})
	// groups of five with a key change symbol '#'
	rep = []rune("ALZX#")
	sequences(len(rep), 1, kit.Pick(r, 7, 8), func(s []int) bool {
		t := make([]rune, len(s))
		for i, x := range s {
			t[i] = rep[x]
		}
		return yield(handCase{GS: 5, Codes: string(t)})
	})
}

func execHand(r *kit.Run, c handCase) error {
	k := blank(c.GS, 60, "BB")
	nk := 26
	if c.GS > 1 {
		nk = 9
	}
	ids := make([]string, nk)
	for i := 0; i < nk; i++ {
		ids[i] = keyID(i, c.GS)
		if c.GS > 1 {
			ids[i] = keyID(i*40507+17, c.GS)
		}
		addKey(k, mkKey(ids[i], keyLetters(i, 60)))
	}
	// write the message
	cur := 0
	pos := 0
	next := 1
	var cipher []rune
	emit := func(e rune) {
		cipher = append(cipher, ref.Third(k.Keys[cur].Runes[pos], e))
		pos++
	}
	table, changing := 0, false
	for _, e := range c.Codes {
		if e == '#' {
			if table == 0 {
				emit('Z')
			}
			emit('Y')
			for _, x := range ids[next] {
				emit(x)
			}
			cur, pos, table = next, 0, 0
			next++
			continue
		}
		emit(e)
		if changing { // group size 1: this letter named the key
			cur, pos, table, changing = int(e-'A'), 0, 0, false
			continue
		}
		switch {
		case e == 'Z':
			table = 1 - table
		case e == 'Y' && table == 1:
			changing = true
		}
		if changing && c.GS > 1 {
			return nil // names no key
		}
	}
	if changing {
		return nil // not a complete message
	}
	for len(cipher)%c.GS != 0 {
		emit('Z')
	}
	keys := keyMap(k)
	want, segs, err := ref.Decode(cipher, ids[0], c.GS, keys, nil)
	if err != nil {
		return kit.Broken("hand-made text is wrong: %v", err)
	}
	m := &Msg{KeyId: []rune(ids[0]), CipherText: cp(cipher)}
	m.SetInstance(k)
	err = m.Decipher()
	r.Step(len(cipher))
	if err != nil {
		return kit.Fail("code sequence %q, correctly written by hand, is refused: %v", c.Codes, err)
	}
	if string(m.PlainText) != string(want) {
		return kit.Fail("code sequence %q reads %q by hand, the program deciphers %q", c.Codes, string(want), string(m.PlainText))
	}
	r.StateOf("hand", c.GS, string(want), len(segs))
	return nil
}

// ------------------------------------------------------------ unsupported text

// pointCase is a block of code points in one coding context.
type pointCase struct {
	From, To int // inclusive
	Ctx      int
}

var pointCtx = []struct {
	name, before, after string
	kl                  int
}{
	{"alone", "", "", 350},
	{"between capitals", "HEJ", "DU", 350},
	{"between small letters", "hej", "du", 350},
	{"after a figure", "A1", "2B", 350},
	{"after small letter and figure", "a1", "2b", 350},
	{"at the end of a key", "AAAAAAAAAAAAA", "AAAAAAAAAAAAAAAA", 20},
	{"in the second key", "AAAAAAAAAAAAAAAAAa", "AAAA", 20},
}

func enumPoints(r *kit.Run, yield func(pointCase) bool) {
	const step = 0x800
	for ctx := range pointCtx {
		for a := 0; a <= 0x10FFFF; a += step {
			if !yield(pointCase{a, a + step - 1, ctx}) {
				return
			}
		}
		// values that are not code points at all
		for _, v := range []int{-1, -2, -65, -1 << 31, 0x110000, 0x110041, 0x7fffffff, 0x1000041, 0x10000041, 0x40000041} {
			if !yield(pointCase{v, v, ctx}) {
				return
			}
		}
	}
}

func execPoints(r *kit.Run, c pointCase) error {
	cx := pointCtx[c.Ctx]
	for v := c.From; v <= c.To; v++ {
		ch := rune(v)
		k := blank(5, cx.kl, "AA")
		addPlain(k, 4, cx.kl)
		if cx.kl > 100 {
			k.Keys = k.Keys[:1]
		}
		before := keysSnap(k)
		keys := keyMap(k)
		m := newMsg(k, "")
		m.PlainText = append(append([]rune(cx.before), ch), []rune(cx.after)...)
		text := cp(m.PlainText)
		err := m.Encipher()
		r.Step(1)
		if ref.Supported(ch) {
			if err != nil {
				return kit.Fail("%s: supported character %q refused: %v", cx.name, ch, err)
			}
			plain, _, derr := decodeByHand(r, k, m, keys)
			if derr != nil || string(plain) != string(text) {
				return kit.Fail("%s: supported character %q is sent as %q (%v)", cx.name, ch, string(plain), derr)
			}
			r.Distinct(kit.Hash(c.Ctx, v))
			continue
		}
		if err == nil {
			plain, _, _ := decodeByHand(nil, k, m, keys)
			return kit.Fail("%s: unsupported character U+%04X %q is accepted and sent as %q", cx.name, v, ch, string(plain))
		}
		if len(m.CipherText) != 0 {
			return kit.Fail("%s: unsupported character U+%04X refused, but ciphertext %q is left in the message", cx.name, v, string(m.CipherText))
		}
		if !equal(before, keysSnap(k)) {
			return kit.Fail("%s: unsupported character U+%04X refused, but the key store changed", cx.name, v)
		}
		if v&0xff == 0 {
			r.Distinct(kit.Hash(c.Ctx, v))
		}
	}
	return nil
}

// the same through the radiogram entry
func execPointsRadiogram(r *kit.Run, c pointCase) error {
	for v := c.From; v <= c.To; v++ {
		ch := rune(v)
		if v < 0 || v > 0x10FFFF || (v >= 0xD800 && v < 0xE000) {
			continue
		}
		k := blank(5, 350, "AA")
		addKey(k, mkKey("KEYAB", keyLetters(1, 350), "BB"))
		before := keysSnap(k)
		keys := keyMap(k)
		m, err := k.NewTextMessage("BB DE AA 010203 = OVA" + string(ch) + "Vid = K")
		r.Step(1)
		want := "OVA" + string(ch) + "Vid"
		if ref.Supported(ch) {
			if err != nil {
				return kit.Fail("radiogram with supported character %q refused: %v", ch, err)
			}
			plain, _, derr := decodeByHand(r, k, m, keys)
			if derr != nil || string(plain) != want {
				return kit.Fail("radiogram text %q is sent as %q (%v)", want, string(plain), derr)
			}
			continue
		}
		if err == nil {
			// line breaks and other white space may become a space
			if unicode.IsSpace(ch) && string(m.PlainText) == "OVA Vid" {
				plain, _, derr := decodeByHand(nil, k, m, keys)
				if derr == nil && string(plain) == "OVA Vid" {
					continue
				}
			}
			return kit.Fail("radiogram with unsupported character U+%04X %q is accepted as %q", v, ch, string(m.PlainText))
		}
		if len(k.Messages) != 0 {
			return kit.Fail("radiogram with U+%04X refused, but a message was stored", v)
		}
		if !equal(before, keysSnap(k)) {
			return kit.Fail("radiogram with U+%04X refused, but the key store changed", v)
		}
	}
	return nil
}

// text that is not made of supported characters, by every way in and at every
// place of the text
type entryCase struct{ Bytes []byte }

func enumEntries(r *kit.Run, yield func(entryCase) bool) {
	add := func(b ...byte) bool { return yield(entryCase{b}) }
	for b := 0x80; b <= 0xff; b++ { // a byte that is no character
		if !add(byte(b)) {
			return
		}
	}
	for a := 0xc0; a <= 0xff; a++ { // the beginning of a character, one too long, one that must not be
		for _, b := range []byte{0x80, 0x85, 0x9f, 0xa0, 0xa4, 0xbf} {
			for _, rest := range [][]byte{nil, {0x80}, {0xa5}, {0x80, 0x80}, {0xbf, 0xbf}} {
				x := append([]byte{byte(a), b}, rest...)
				if !utf8.Valid(x) && !add(x...) {
					return
				}
			}
		}
	}
	for _, x := range [][2]rune{{0, 0x30ff}, {0xa640, 0xa7ff}, {0xfb00, 0xffff}, {0x1d400, 0x1d7ff}, {0x1f600, 0x1f64f}, {0xe0000, 0xe007f}, {0x10fff0, 0x10ffff}} {
		for v := x[0]; v <= x[1]; v++ {
			if ref.Supported(v) || unicode.IsSpace(v) || v == '=' || v == '+' { // of the form
				continue
			}
			if v > 0x3ff && v>>8 != 0x20 && v>>8 != 0xff && v>>8 != 0xfe && v%8 != 0 && !r.Thorough() {
				continue
			}
			if !add([]byte(string(v))...) {
				return
			}
		}
	}
}

func execEntries(r *kit.Run, c entryCase) error {
	for place, text := range []string{"%sOVAVid", "OVA%sVid", "OVAVid%s", "OVA %s Vid", "%[1]sOVA%[1]sVid%[1]s", "OVAVid %s", "%s"} {
		text = fmt.Sprintf(text, string(c.Bytes))
		for way := 0; way < 4; way++ {
			k := blank(5, 350, "AA")
			addKey(k, mkKey("KEYAB", keyLetters(1, 350), "BB"))
			before := keysSnap(k)
			radiogram := "BB DE AA 010203 = " + text + " = K"
			var err error
			var m *Msg
			switch way {
			case 0:
				m, err = k.NewTextMessage(radiogram)
			case 1:
				m, err = k.NewTextMessage(radiogram, "KEYAB")
			case 2:
				m, err = k.NewTextMessageFromReader(strings.NewReader(radiogram + "\n"))
			case 3:
				m, err = k.NewTextMessageFromReader(iotest.OneByteReader(strings.NewReader(radiogram)))
			}
			r.Step(1)
			if err == nil {
				return kit.Fail("place %d, way %d: the text %q is accepted as %q", place, way, text, string(m.PlainText))
			}
			if len(k.Messages) != 0 || !equal(before, keysSnap(k)) {
				return kit.Fail("place %d, way %d: the text %q is refused and a message or a key marked used remains", place, way, text)
			}
		}
	}
	r.Distinct(kit.Hash(string(c.Bytes)))
	return nil
}

// pairs of an unsupported character and everything that can precede it
type badPairCase struct{ Bad rune }

func enumBadPairs(r *kit.Run, yield func(badPairCase) bool) {
	bad := []rune("!\"#$%&'()*;<=>@[\\]^_`{|}~\t\n\r\u00a0\u00e9\u00c9\u00fc\u00dc\u00e6\u00df\u0130\u0131\u017f\u212a\u212b\u00b9\u0660\uff21\uff11\u00a4\u2191\ufeff\ufffd\x00\x7f\u0391\u0410\u0435")
	for _, b := range bad {
		if !yield(badPairCase{b}) {
			return
		}
	}
}

func execBadPairs(r *kit.Run, c badPairCase) error {
	for _, pre := range ref.Alphabet {
		for _, pre2 := range ref.Alphabet {
			k := blank(5, 350, "AA")
			addPlain(k, 1, 350)
			m := newMsg(k, "")
			m.PlainText = []rune{pre2, pre, c.Bad}
			keys := keyMap(k)
			err := m.Encipher()
			r.Step(1)
			if err == nil {
				plain, _, _ := decodeByHand(nil, k, m, keys)
				return kit.Fail("unsupported U+%04X after %q is accepted and sent as %q", c.Bad, string([]rune{pre2, pre}), string(plain))
			}
			r.Distinct(kit.Hash(c.Bad, pre, pre2))
		}
	}
	return nil
}

func init() {
	_ = krypto431.Version
	kit.Register(&kit.Prop{ID: "C01", Level: "model_checking",
		Bounds:      fmt.Sprintf("texts: all class sequences to length 5 (6), all triples of %d characters, all fillers to 3 keys x class sequences to 3 (4), all lengths to 1500 (4000) and selected to 20000; group sizes 1-9 (14), key lengths 20-48 (64) and selected to 5000", len(ref.Alphabet)),
		Assumptions: []string{"key material enters only through the trigraph, which C03 enumerates completely"},
		Families:    textFamilies(execRoundTrip)})
	kit.Register(&kit.Prop{ID: "C02", Level: "model_checking",
		Bounds: "as C01 for program-to-hand; hand-to-program: all 25^4 code sequences with one-letter keys, class sequences to length 7 (8) with key changes",
		Families: append(textFamilies(execHandDecode),
			kit.F("hand", "every sequence of code letters (no binary mode) with every letter naming a key, and class sequences with key changes in groups of five, padded with Z", enumHand, execHand).W(2))})
	kit.Register(&kit.Prop{ID: "C08", Level: "model_checking",
		Bounds:   "text spaces of C01; each also with exactly the number of keys needed",
		Families: textFamilies(execComplete)})
	kit.Register(&kit.Prop{ID: "C09", Level: "exploration",
		Rule:   "every code point 0..0x10FFFF (and 10 values outside) in each of 7 coding contexts and inside a radiogram; bytes that are no character and blocks of others at 7 places of a radiogram by four ways in; every of 50 look-alike characters after every pair of supported characters; distinct cases counted are the supported ones, one in 256 of the others and all pairs",
		Bounds: "complete over single code points; one unsupported character per text",
		Families: []*kit.Family{
			kit.F("points", "every code point in every coding context, in blocks of 2048", enumPoints, execPoints).W(4),
			kit.F("radiogram", "every code point inside an outgoing radiogram", func(r *kit.Run, y func(pointCase) bool) {
				for a := 0; a <= 0x10FFFF; a += 0x400 {
					if !y(pointCase{a, a + 0x3ff, 0}) {
						return
					}
				}
			}, execPointsRadiogram).W(2),
			kit.F("entries", "bytes that are no character and characters that are not supported, at every place of a radiogram's text, by every way in", enumEntries, execEntries),
			kit.F("pairs", "look-alikes after every pair of supported characters", enumBadPairs, execBadPairs),
		}})
}
