package checks

import (
	crand "crypto/rand"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/sa6mwa/krypto431"
	"verif/kit"
)

// ---------------------------------------------------------------- aliases

// trace is memory an object occupied, with what was in it.
type trace struct {
	what string
	r    []rune
	b    []byte
	was  []rune
	wasB []byte
}

func (t *trace) left() bool {
	for i := range t.was {
		if t.r[i] == t.was[i] {
			return true
		}
	}
	for i := range t.wasB {
		if t.b[i] == t.wasB[i] {
			return true
		}
	}
	return false
}

func runeTrace(what string, r []rune) trace { return trace{what: what, r: r, was: cp(r)} }
func byteTrace(what string, b []byte) trace {
	return trace{what: what, b: b, wasB: append([]byte(nil), b...)}
}

func keyTraces(k *Key, what string) []trace {
	o := []trace{runeTrace(what+" letters", k.Runes), runeTrace(what+" identifier", k.Id), runeTrace(what+" comment", k.Comment)}
	for i := range k.Keepers {
		o = append(o, runeTrace(fmt.Sprintf("%s keeper %d", what, i), k.Keepers[i]))
	}
	return o
}

func msgTraces(m *Msg, what string) []trace {
	return []trace{runeTrace(what+" text", m.PlainText), runeTrace(what+" ciphertext", m.CipherText), runeTrace(what+" key identifier", m.KeyId),
		runeTrace(what+" identifier", m.Id), runeTrace(what+" radiogram", m.Radiogram), byteTrace(what+" binary", m.Binary)}
}

func anyLeft(ts []trace) string {
	for i := range ts {
		if ts[i].left() {
			return ts[i].what
		}
	}
	return ""
}

// secretsOf leaves out identifiers and keepers.
func secretsOf(ts []trace) (o []trace) {
	for _, t := range ts {
		if !strings.Contains(t.what, "identifier") && !strings.Contains(t.what, "keeper") {
			o = append(o, t)
		}
	}
	return
}

// source is a random source that never delivers anything found in the test
// data, and fails where told to.
type source struct {
	good   int // bytes before it fails, -1: never
	once   bool
	step   int // bytes at most per read, 0: all
	failed bool
	calls  int
}

var errSource = errors.New("random source failed")

func (s *source) Read(p []byte) (int, error) {
	s.calls++
	if s.good == 0 && !(s.once && s.failed) {
		s.failed = true
		return 0, errSource
	}
	n := len(p)
	if s.step > 0 && n > s.step {
		n = s.step
	}
	if s.good > 0 && n > s.good && !s.failed {
		n = s.good
	}
	for i := 0; i < n; i++ {
		p[i] = 0xA5
	}
	if s.good > 0 {
		s.good -= n
	}
	return n, nil
}

func withSource(s *source, f func()) {
	old := crand.Reader
	crand.Reader = s
	defer func() { crand.Reader = old }()
	f()
}

// ---------------------------------------------------------------- C18

type wipeCase struct {
	Object string
	Way    string
	Good   int
	Once   bool
	Step   int
}

var wipeObjects = map[string][]string{
	"key":        {"Wipe", "RandomWipe", "ZeroWipe"},
	"bare-key":   {"Wipe", "RandomWipe", "ZeroWipe"},
	"message":    {"Wipe", "RandomWipe", "ZeroWipe"},
	"sent":       {"Wipe", "RandomWipe", "ZeroWipe"},
	"runes":      {"Wipe", "RandomWipe", "ZeroWipe"},
	"bytes":      {"WipeBytes", "RandomWipeBytes", "ZeroWipeBytes"},
	"store":      {"Wipe", "Close"},
	"used-store": {"Wipe", "Close"},
	"password":   {"DerivePFKFromPassword", "DerivePFKFromPasswordWithValidation", "refused", "weak"},
}

func enumWipes(r *kit.Run, yield func(wipeCase) bool) {
	for _, o := range []string{"key", "bare-key", "message", "sent", "runes", "bytes", "store", "used-store", "password"} {
		max := map[string]int{"key": 400, "bare-key": 80, "message": 700, "sent": 1600, "runes": 90, "bytes": 40, "store": 2600, "used-store": 4000, "password": 24}[o]
		stride := 1
		if max > 300 && !r.Thorough() {
			stride = 3
		}
		for _, w := range wipeObjects[o] {
			for g := -1; g <= max; g++ {
				if g > 40 && g%stride != 0 {
					continue
				}
				for _, once := range []bool{false, true} {
					for _, st := range []int{0, 1, 7} {
						if g < 0 && once {
							continue
						}
						if !yield(wipeCase{o, w, g, once, st}) {
							return
						}
					}
				}
			}
		}
	}
}

func secretKey(i int) Key {
	k := mkKey(keyID(700+i, 5), keyLetters(i, 40), "BB", "CC")
	k.Comment = []rune("comment")
	return k
}

func secretMsg(i int) Msg {
	return Msg{Id: []rune(fmt.Sprintf("x%03d", i)), From: []rune("AA"), Recipients: runes2([]string{"BB"}), KeyId: []rune("QWERT"),
		PlainText: []rune("secret plain text"), CipherText: keyLetters(i, 30), Radiogram: []rune("BB DE AA = secret plain text = K"), Binary: []byte("binary part")}
}

func (c wipeCase) String() string {
	return fmt.Sprintf("%s of %s (source fails after %d bytes, once=%v, reads of %d)", c.Way, c.Object, c.Good, c.Once, c.Step)
}

func execWipe(r *kit.Run, c wipeCase) error {
	seedRandom(7)
	// an unrelated instance and objects that must not change
	k := fresh(krypto431.WithCallSign("AA"), krypto431.WithPFKString(strings.Repeat("1f2e", 16)))
	k.KeyLength, k.Keys, k.Messages = 40, nil, nil
	for i := 0; i < 3; i++ {
		addKey(k, secretKey(i))
		m := secretMsg(i)
		m.SetInstance(k)
		k.Messages = append(k.Messages, m)
	}
	r.Step(1)
	r.State(kit.Hash(c.Object, c.Way, c.Good, c.Once))
	var ts []trace
	var do func()
	var empty func() string
	others := func() string { return "" }
	single := func(skipKey, skipMsg int) {
		others = func() string {
			var o []string
			for i := range k.Keys {
				if i != skipKey {
					o = append(o, keyString(&k.Keys[i]))
				}
			}
			for i := range k.Messages {
				if i != skipMsg {
					o = append(o, msgString(&k.Messages[i]))
				}
			}
			return fmt.Sprint(k.CallSignString(), k.GetPFKString(), k.GetSaltString(), o, string(krypto431.NilRunes))
		}
	}
	switch c.Object {
	case "key", "bare-key":
		key := &k.Keys[1]
		if c.Object == "bare-key" {
			key.Keepers, key.Comment, key.Runes = nil, nil, keyLetters(3, 10)
		}
		ts = keyTraces(key, "key")
		do = func() {
			switch c.Way {
			case "Wipe":
				key.Wipe()
			case "RandomWipe":
				key.RandomWipe()
			default:
				key.ZeroWipe()
			}
		}
		empty = func() string {
			if len(key.Id)+len(key.Runes)+len(key.Comment)+len(key.Keepers) > 0 {
				return keyString(key)
			}
			return ""
		}
		single(1, -1)
	case "message", "sent":
		m := &k.Messages[1]
		if c.Object == "sent" {
			x, err := k.NewTextMessage("BB DE AA 010203 = HELLO WORLD AND HELLO AGAIN = K")
			kit.Must(err)
			_ = x
			m = &k.Messages[3]
			ts = append(ts, msgTraces(x, "returned message")...)
		}
		ts = append(ts, msgTraces(m, "message")...)
		do = func() {
			switch c.Way {
			case "Wipe":
				m.Wipe()
			case "RandomWipe":
				m.RandomWipe()
			default:
				m.ZeroWipe()
			}
		}
		empty = func() string {
			if len(m.Id)+len(m.PlainText)+len(m.CipherText)+len(m.KeyId)+len(m.Binary)+len(m.Radiogram) > 0 {
				return msgString(m)
			}
			return ""
		}
		if c.Object == "sent" {
			single(-1, 3)
		} else {
			single(-1, 1)
		}
	case "runes":
		b := []rune("some secret runes åäö")
		ts = []trace{runeTrace("buffer", b)}
		do = func() {
			switch c.Way {
			case "Wipe":
				krypto431.Wipe(&b)
			case "RandomWipe":
				krypto431.RandomWipe(&b)
			default:
				krypto431.ZeroWipe(&b)
			}
		}
		empty = func() string { return string(b) }
		single(-1, -1)
	case "bytes":
		b := []byte("some secret bytes in a buffer")
		ts = []trace{byteTrace("buffer", b)}
		do = func() {
			switch c.Way {
			case "WipeBytes":
				krypto431.WipeBytes(&b)
			case "RandomWipeBytes":
				krypto431.RandomWipeBytes(&b)
			default:
				krypto431.ZeroWipeBytes(&b)
			}
		}
		empty = func() string { return string(b) }
		single(-1, -1)
	case "password":
		p := []byte("Fjorton gula 14 apor!!")
		switch c.Way {
		case "refused":
			*k.GetSalt() = (*k.GetSalt())[:31]
		case "weak":
			p = []byte("abcabcab")
		}
		if c.Step > 0 || c.Good > 8 && c.Good%4 != 0 {
			return nil // the derivation takes its time
		}
		ts = []trace{byteTrace("password", p)}
		do = func() {
			if c.Way == "DerivePFKFromPassword" {
				k.DerivePFKFromPassword(&p)
			} else {
				k.DerivePFKFromPasswordWithValidation(&p)
			}
		}
		empty = func() string { return string(p) }
	case "store", "used-store":
		if c.Object == "used-store" {
			_, err := k.NewTextMessage("BB DE AA 010203 = HELLO WORLD AND HELLO AGAIN = K")
			kit.Must(err)
			_, err = k.NewTextMessage("AA DE BB 010203 = HELLO WORLD AND HELLO AGAIN = K")
			kit.Must(err)
			k.NewKey(farFuture, "BB", "CC")
			k.DeleteKey(cp(k.Keys[0].Id))
			k.DeleteMessage(cp(k.Messages[0].Id))
		}
		for i := range k.Keys {
			ts = append(ts, keyTraces(&k.Keys[i], fmt.Sprintf("key %d", i))...)
		}
		for i := range k.Messages {
			ts = append(ts, msgTraces(&k.Messages[i], fmt.Sprintf("message %d", i))...)
		}
		ts = append(ts, byteTrace("persistence key", *k.GetPFK()), byteTrace("salt", *k.GetSalt()))
		do = func() {
			if c.Way == "Wipe" {
				k.Wipe()
			} else {
				k.Close()
			}
		}
		empty = func() string {
			if len(k.Keys) > 0 || len(k.Messages) > 0 || k.GetPFKString() != "" || k.GetSaltString() != "" {
				return storeSnap(k) + k.GetPFKString()
			}
			return ""
		}
	}
	if a := anyLeft(ts); a == "" {
		return kit.Broken("nothing to wipe: %v", c)
	}
	before := others()
	src := &source{good: c.Good, once: c.Once, step: c.Step}
	withSource(src, do)
	if a := anyLeft(ts); a != "" {
		return kit.Fail("%v leaves %s in memory", c, a)
	}
	if e := empty(); e != "" {
		return kit.Fail("%v leaves fields that are not empty: %s", c, e)
	}
	if after := others(); after != before {
		return kit.Fail("%v changes something else: %s", c, diff(before, after))
	}
	// once more
	withSource(&source{good: c.Good, once: c.Once, step: c.Step}, do)
	if e := empty(); e != "" {
		return kit.Fail("%v, repeated, leaves fields that are not empty: %s", c, e)
	}
	if after := others(); after != before {
		return kit.Fail("%v, repeated, changes something else: %s", c, diff(before, after))
	}
	return nil
}

// ---------------------------------------------------------------- C17

type deleteCase struct {
	What  string // keys, messages
	N     int    // items in the store
	Names []int  // what is named: 0..N-1 items, N unknown, N+1 empty, N+2.. the items in other case
	Way   int
	Near  bool `json:",omitempty"` // identifiers that begin like others
}

const deleteWays = 6

func enumDeletes(r *kit.Run, yield func(deleteCase) bool) {
	for _, w := range []string{"keys", "messages"} {
		for n := 0; n <= kit.Pick(r, 4, 5); n++ {
			ok := sequences(2*n+2, 0, kit.Pick(r, 3, 4), func(s []int) bool {
				if n == 5 && len(s) > 3 {
					return true
				}
				for way := 0; way < deleteWays; way++ {
					for _, near := range []bool{false, true} {
						if near && (n < 2 || len(s) > 2) {
							continue
						}
						if !yield(deleteCase{w, n, append([]int{}, s...), way, near}) {
							return false
						}
					}
				}
				return true
			})
			if !ok {
				return
			}
		}
	}
}

func (c deleteCase) build() *K {
	k := blank(5, 40, "AA")
	for i := 0; i < c.N; i++ {
		key := secretKey(i)
		key.Used = i%2 == 1
		addKey(k, key)
		m := secretMsg(i)
		m.Id = []rune([]string{"abCD", "ABcd", "aBCD", "ab1D", "Z9zZ", "zzzz"}[i])
		if c.Near {
			k.Keys[i].Id = []rune([]string{"ABCDE", "ABCDEF", "ABCD", "ABCDEFGHIJ", "ABCDF"}[i])
			m.Id = []rune([]string{"abCD", "abC", "ab", "abCE", "bCD"}[i])
		}
		m.SetInstance(k)
		k.Messages = append(k.Messages, m)
	}
	return k
}

func execDelete(r *kit.Run, c deleteCase) error {
	seedRandom(3)
	k := c.build()
	otherBefore := ""
	items := func() []string {
		if c.What == "keys" {
			return keysSnap(k)
		}
		return msgsSnap(k)
	}
	rest := func() string {
		s := fmt.Sprint(k.CallSignString(), k.GroupSize, k.KeyLength, k.GetPFKString(), string(krypto431.NilRunes))
		if c.What == "keys" {
			return s + strings.Join(msgsSnap(k), "\n")
		}
		return s + strings.Join(keysSnap(k), "\n")
	}
	otherBefore = rest()
	all := items()
	// the names, and what they mean
	gone := map[int]bool{}
	var names []string
	var lines [][]rune
	if c.What == "keys" {
		_, lines = k.SummaryOfKeys(func(*Key) bool { return true })
	} else {
		_, lines = k.SummaryOfMessages(func(*Msg) bool { return true })
		all = items()
	}
	for _, n := range c.Names {
		switch {
		case n < c.N:
			id := string(k.Keys[n].Id)
			if c.What == "messages" {
				id = string(k.Messages[n].Id)
			}
			names = append(names, id)
			gone[n] = true
		case n == c.N:
			names = append(names, "UNKNO")
		case n == c.N+1:
			names = append(names, "")
		default: // other case: keys are named in any case, messages are not
			i := n - c.N - 2
			if c.What == "keys" {
				names = append(names, strings.ToLower(string(k.Keys[i].Id)))
				gone[i] = true
			} else {
				s := strings.ToLower(string(k.Messages[i].Id))
				if s == string(k.Messages[i].Id) {
					s = strings.ToUpper(s)
				}
				names = append(names, s)
				for j := range k.Messages {
					if string(k.Messages[j].Id) == s {
						gone[j] = true
					}
				}
			}
		}
	}
	var ts []trace
	for i := range gone {
		if c.What == "keys" {
			ts = append(ts, keyTraces(&k.Keys[i], fmt.Sprintf("key %d", i))...)
		} else {
			ts = append(ts, msgTraces(&k.Messages[i], fmt.Sprintf("message %d", i))...)
		}
	}
	var n int
	var err error
	run := func(byRunes func(...[]rune) (int, error), byString, bySummary func(...string) (int, error)) {
		switch c.Way {
		case 0:
			var rs [][]rune
			for _, s := range names {
				rs = append(rs, []rune(s))
			}
			n, err = byRunes(rs...)
		case 1:
			n, err = byString(names...)
		case 2:
			n, err = byString(strings.Join(names, ","))
		case 3:
			n, err = byString(strings.Join(names, " "), "")
		case 4:
			n, err = byString(" " + strings.Join(names, " , ") + " ,")
		case 5:
			var ls []string
			for x, i := range c.Names {
				if i < c.N {
					ls = append(ls, string(lines[i]))
				} else {
					ls = append(ls, names[x]+"  BB,CC  012345ZJAN23")
				}
			}
			n, err = bySummary(ls...)
		}
	}
	withSource(&source{good: -1}, func() {
		if c.What == "keys" {
			run(k.DeleteKey, k.DeleteKeyByString, k.DeleteKeysBySummaryString)
		} else {
			run(k.DeleteMessage, k.DeleteMessageByString, k.DeleteMessagesBySummaryString)
		}
	})
	r.Step(1)
	r.StateOf(c.What, c.N, fmt.Sprint(gone))
	desc := fmt.Sprintf("deleting %s %q of %d (way %d)", c.What, names, c.N, c.Way)
	if err != nil {
		return kit.Fail("%s: error %v", desc, err)
	}
	if n != len(gone) {
		return kit.Fail("%s: %d reported as removed, not %d", desc, n, len(gone))
	}
	var want []string
	for i := range all {
		if !gone[i] {
			want = append(want, all[i])
		}
	}
	have := items()
	sort.Strings(want)
	sort.Strings(have)
	if !equal(want, have) {
		return kit.Fail("%s: not what remains: %s", desc, diff(strings.Join(want, "\n"), strings.Join(have, "\n")))
	}
	if a := anyLeft(secretsOf(ts)); a != "" {
		return kit.Fail("%s: %s remains in memory", desc, a)
	}
	if rest() != otherBefore {
		return kit.Fail("%s: something else changed: %s", desc, diff(otherBefore, rest()))
	}
	return nil
}

// ------------------------------------------------- C17, histories

type delHistCase struct{ Ops []int }

var delHistOps = []string{"generate", "generate-shared", "send", "send-long", "receive", "receive-plain", "delete-key-first", "delete-key-last", "delete-used", "delete-message-first", "delete-message-last", "list", "import", "export-wiped"}

func enumDelHist(r *kit.Run, yield func(delHistCase) bool) {
	sequences(len(delHistOps), 1, kit.Pick(r, 4, 5), func(s []int) bool {
		// deletions only matter with something to delete; the last operation is one
		if l := delHistOps[s[len(s)-1]]; !strings.HasPrefix(l, "delete") && l != "export-wiped" {
			return true
		}
		return yield(delHistCase{append([]int{}, s...)})
	})
}

func execDelHist(r *kit.Run, c delHistCase) error {
	seedRandom(11)
	k := blank(5, 40, "AA")
	k.SetPFKFromString(pfkHex)
	addKey(k, mkKey("AAAAA", keyLetters(1, 40), "BB"))
	addKey(k, mkKey("BBBBB", keyLetters(2, 40), "BB"))
	addKey(k, mkKey("CCCCC", keyLetters(3, 40), "BB", "CC"))
	addKey(k, mkKey("DDDDD", keyLetters(4, 40), "AA"))
	addKey(k, mkKey("EEEEE", keyLetters(5, 40)))
	far := peer(k, "BB")
	for i := range far.Keys {
		far.Keys[i].Keepers = runes2([]string{"AA"})
	}
	far.Keys = far.Keys[:2]
	incoming := newMsg(far, "hello there", "AA")
	kit.Must(incoming.Encipher())
	radio := fmt.Sprintf("AA DE BB 010203 = %s %s = K", string(incoming.KeyId), grouped(incoming.CipherText, 5))
	snapAll := func() []string {
		var o []string
		for i := range k.Keys {
			s := keyString(&k.Keys[i])
			o = append(o, s)
		}
		return append(o, msgsSnap(k)...)
	}
	for step, op := range c.Ops {
		name := delHistOps[op]
		before := snapAll()
		var ts []trace
		removed := ""
		count := 0
		r.Step(1)
		switch name {
		case "generate":
			k.NewKey(farFuture, "BB", "CC")
		case "generate-shared":
			exp := "010203ZJAN40"
			k.GenerateKeys(2, &exp, "BB")
		case "send":
			k.NewTextMessage("BB DE AA 010203 = HELLO = K")
		case "send-long":
			k.NewTextMessage("BB DE AA 010203 = HELLO THERE THIS IS A LONGER TEXT WHICH NEEDS TWO KEYS = K")
		case "receive":
			k.NewTextMessage(radio)
		case "receive-plain":
			k.NewTextMessage("DE BB HELLO")
		case "list":
			k.SummaryOfMessages(func(*Msg) bool { return true })
			k.SummaryOfKeys(func(*Key) bool { return true })
		case "import":
			x := k.ExportKeys(func(*Key) bool { return true })
			if len(x.Keys) > 0 {
				addKey(k, Key{Id: []rune(keyID(step*31+9, 5)), Runes: cp(x.Keys[0].Runes), Keepers: runes2([]string{"BB"}), Expires: x.Keys[0].Expires})
			}
		case "export-wiped":
			x := k.ExportKeys(func(*Key) bool { return true })
			if len(x.Keys) > 0 {
				if n, _ := x.DeleteKey(cp(x.Keys[0].Id)); n != 1 {
					return kit.Fail("can not delete from an export")
				}
			}
			x.Wipe()
			if after := snapAll(); !equal(before, after) {
				return kit.Fail("after %v: deleting in and wiping an export changes the store: %s", c.names(), diff(strings.Join(before, "\n"), strings.Join(after, "\n")))
			}
			continue
		case "delete-key-first", "delete-key-last", "delete-used":
			at := -1
			for i := range k.Keys {
				if name == "delete-used" && !k.Keys[i].Used {
					continue
				}
				if at < 0 || name == "delete-key-last" {
					at = i
				}
			}
			if at < 0 {
				continue
			}
			removed = keyString(&k.Keys[at])
			ts = keyTraces(&k.Keys[at], "key")
			id := cp(k.Keys[at].Id)
			withSource(&source{good: -1}, func() { count, _ = k.DeleteKey(id) })
		case "delete-message-first", "delete-message-last":
			if len(k.Messages) == 0 {
				continue
			}
			at := 0
			if name == "delete-message-last" {
				at = len(k.Messages) - 1
			}
			removed = msgString(&k.Messages[at])
			ts = msgTraces(&k.Messages[at], "message")
			id := cp(k.Messages[at].Id)
			withSource(&source{good: -1}, func() { count, _ = k.DeleteMessage(id) })
		}
		if removed == "" {
			r.State(kit.Hash(fmt.Sprint(snapAll())))
			continue
		}
		after := snapAll()
		r.State(kit.Hash(fmt.Sprint(after)))
		if count != 1 {
			return kit.Fail("after %v: %d items removed instead of 1", c.names(), count)
		}
		var want []string
		done := false
		for _, s := range before {
			if s == removed && !done {
				done = true
				continue
			}
			want = append(want, s)
		}
		sort.Strings(want)
		sort.Strings(after)
		if !equal(want, after) {
			return kit.Fail("after %v: %s changes something else: %s", c.names(), name, diff(strings.Join(want, "\n"), strings.Join(after, "\n")))
		}
		if a := anyLeft(secretsOf(ts)); a != "" {
			return kit.Fail("after %v: the %s remains in memory", c.names(), a)
		}
		if k.CallSignString() != "AA" || string(krypto431.NilRunes) != "NIL" {
			return kit.Fail("after %v: the call-sign is %q", c.names(), k.CallSignString())
		}
	}
	return nil
}

func (c delHistCase) names() (o []string) {
	for _, i := range c.Ops {
		o = append(o, delHistOps[i])
	}
	return
}

func grouped(r []rune, n int) string {
	var b strings.Builder
	for i := range r {
		if i > 0 && i%n == 0 {
			b.WriteByte(' ')
		}
		b.WriteRune(r[i])
	}
	return b.String()
}

func init() {
	kit.Register(&kit.Prop{ID: "C17", Level: "model_checking",
		Bounds: "all stores of 0-4 (5) keys and messages x all sequences of up to 3 (4) names (present, in other case, unknown, empty, repeated) x 6 ways of naming them; all histories of up to 4 (5) operations over 14 kinds ending in a deletion",
		Families: []*kit.Family{
			kit.F("names", "every list of names", enumDeletes, execDelete).W(1),
			kit.F("histories", "every history", enumDelHist, execDelHist).W(2),
		}})
	kit.Register(&kit.Prop{ID: "C18", Level: "fault_enumeration",
		Rule:   "every wiping operation with the random source failing after every number of bytes, once or for good, delivering all or few bytes at a time; the observer holds aliases of all memory",
		Bounds: "9 kinds of objects x all their wiping operations x every failing byte (quick: every third beyond 40 for large objects) x once/for good x reads of any/1/7 bytes",
		Families: []*kit.Family{
			kit.F("wipes", "every wipe and failing point", enumWipes, execWipe),
		}})
}
