package checks

import (
	crand "crypto/rand"
	"encoding/hex"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/sa6mwa/krypto431"
	"verif/kit"
)

// tape is a random source that plays a fixed byte sequence, counts what it
// delivers and fails where told to.
type tape struct {
	gen    func(i int64) byte
	data   []byte // used before gen
	at     int64
	limit  int64 // fails at this offset, -1: never
	once   bool
	failed bool
	step   int
}

func (t *tape) Read(p []byte) (int, error) {
	n := len(p)
	if t.step > 0 && n > t.step {
		n = t.step
	}
	if t.limit >= 0 && !(t.once && t.failed) {
		if t.at >= t.limit {
			t.failed = true
			return 0, errSource
		}
		if int64(n) > t.limit-t.at {
			n = int(t.limit - t.at)
		}
	}
	for i := 0; i < n; i++ {
		if t.at < int64(len(t.data)) {
			p[i] = t.data[t.at]
		} else {
			p[i] = t.gen(t.at)
		}
		t.at++
	}
	return n, nil
}

func mix(v uint64) uint64 {
	v += 0x9e3779b97f4a7c15
	v = (v ^ (v >> 30)) * 0xbf58476d1ce4e5b9
	v = (v ^ (v >> 27)) * 0x94d049bb133111eb
	return v ^ (v >> 31)
}

func hashTape(seed uint64) *tape {
	return &tape{limit: -1, gen: func(i int64) byte { return byte(mix(seed<<40+uint64(i)) >> 16) }}
}

func withReader(t *tape, f func()) {
	old := crand.Reader
	crand.Reader = t
	defer func() { crand.Reader = old }()
	f()
}

// attempt runs f, turning a panic into a message.
func attempt(f func()) (p string) {
	defer func() {
		if e := recover(); e != nil {
			p = fmt.Sprint(e)
			if p == "" {
				p = "panic"
			}
		}
	}()
	f()
	return
}

// ---------------------------------------------------------------- shape

type shapeCase struct {
	GS, KL  int
	Keepers []string
	Own     string
	N       int
	Expire  string // DTG, "" for none
	At      int64  // what it means
}

func wantKeepers(given []string, own string) []string {
	o := []string{}
	for _, g := range given {
		for _, f := range strings.FieldsFunc(g, func(c rune) bool { return c == ',' || c == ' ' }) {
			f = strings.ToUpper(f)
			if f != strings.ToUpper(own) {
				o = append(o, f)
			}
		}
	}
	sort.Strings(o)
	return o
}

func checkShape(k *K, from int, n int, c shapeCase, before, after time.Time) error {
	if len(k.Keys) != from+n {
		return kit.Fail("%d keys were asked for, the store grew from %d to %d", n, from, len(k.Keys))
	}
	want := wantKeepers(c.Keepers, string(k.CallSign))
	length := (c.KL + c.GS - 1) / c.GS * c.GS
	ids := map[string]bool{}
	for i := range k.Keys {
		x := &k.Keys[i]
		id := strings.ToUpper(string(x.Id))
		if ids[id] {
			return kit.Fail("two keys share the identifier %q", id)
		}
		ids[id] = true
		if i < from {
			continue
		}
		if len(x.Id) != c.GS || !onlyAZ(x.Id) {
			return kit.Fail("group size %d: a key was generated with identifier %q", c.GS, string(x.Id))
		}
		if len(x.Runes) < c.KL || len(x.Runes)%c.GS != 0 || !onlyAZ(x.Runes) || len(x.Runes) != length {
			return kit.Fail("group size %d, key length %d: a key of %d letters was generated: %q", c.GS, c.KL, len(x.Runes), trunc(string(x.Runes)))
		}
		if x.Used || x.Compromised {
			return kit.Fail("a new key is marked used=%t compromised=%t", x.Used, x.Compromised)
		}
		have := append([]string{}, krypto431.RunesToStrings(&x.Keepers)...)
		sort.Strings(have)
		if !equal(have, want) {
			return kit.Fail("station %s asked for a key with keepers %q, got one kept by %q", string(k.CallSign), c.Keepers, have)
		}
		if x.GetInstance() != k {
			return kit.Fail("the new key does not belong to the instance")
		}
		if x.Created.Time.Before(before.Add(-time.Second)) || x.Created.Time.After(after.Add(time.Second)) {
			return kit.Fail("the new key is said to be created at %s", x.Created.Time)
		}
		if c.Expire == "" {
			if x.Expires.Time.Before(before.Add(365*24*time.Hour-time.Minute)) || x.Expires.Time.After(after.Add(365*24*time.Hour+time.Minute)) {
				return kit.Fail("a key without requested expiry expires at %s", x.Expires.Time)
			}
		} else if x.Expires.Time.Unix() != c.At {
			return kit.Fail("a key to expire at %s (%s) expires at %s", c.Expire, time.Unix(c.At, 0).UTC(), x.Expires.Time.UTC())
		}
	}
	return nil
}

func onlyAZ(r []rune) bool {
	for _, c := range r {
		if c < 'A' || c > 'Z' {
			return false
		}
	}
	return true
}

var keeperForms = [][]string{nil, {"BB"}, {"bb", "CC"}, {"BB,CC"}, {"BB, cc  DD"}, {"AA"}, {"aa", "BB"}, {"BB,AA,CC", "Aa"}, {" , "}, {"AAA", "A"}, {"BB", "bb"}}

func dtgOf(t time.Time) string { return strings.ToUpper(t.Format("021504") + "Z" + t.Format("Jan06")) }

func enumShapes(r *kit.Run, yield func(shapeCase) bool) {
	dates := []time.Time{time.Date(2031, 1, 2, 3, 4, 0, 0, time.UTC), time.Date(2028, 2, 29, 23, 59, 0, 0, time.UTC), time.Date(2001, 12, 31, 0, 0, 0, 0, time.UTC)}
	for gs := 1; gs <= kit.Pick(r, 9, 20); gs++ {
		var kls []int
		for kl := 20; kl <= kit.Pick(r, 46, 120); kl++ {
			kls = append(kls, kl)
		}
		kls = append(kls, 99, 100, 101, 350, 351, 1000)
		for _, kl := range kls {
			for fi, f := range keeperForms {
				if !r.Thorough() && kl > 24 && kl != 350 && fi > 2 {
					continue
				}
				for n := 1; n <= 2; n++ {
					if !yield(shapeCase{GS: gs, KL: kl, Keepers: f, N: n}) {
						return
					}
				}
				for _, d := range dates {
					if !yield(shapeCase{GS: gs, KL: kl, Keepers: f, N: 1, Expire: dtgOf(d), At: d.Unix()}) {
						return
					}
				}
			}
		}
	}
}

func execShape(r *kit.Run, c shapeCase) error {
	seedRandom(uint64(c.GS*1000 + c.KL))
	k := blank(c.GS, c.KL, "AA")
	addPlain(k, 2, 30, "ZZ")
	m := newMsg(k, "stays")
	k.Messages = append(k.Messages, *m)
	old := keysSnap(k)
	before := time.Now()
	var exp *string
	if c.Expire != "" {
		e := c.Expire
		exp = &e
	}
	r.Step(1)
	if err := k.GenerateKeys(c.N, exp, c.Keepers...); err != nil {
		return kit.Fail("generating %d keys (group size %d, length %d, keepers %q, expiry %q) failed: %v", c.N, c.GS, c.KL, c.Keepers, c.Expire, err)
	}
	if err := checkShape(k, 2, c.N, c, before, time.Now()); err != nil {
		return err
	}
	if !equal(old, keysSnap(k)[:2]) || len(k.Messages) != 1 {
		return kit.Fail("generating keys changed other parts of the store")
	}
	r.StateOf(c.GS, c.KL, c.N, len(c.Keepers))
	r.Distinct(kit.Hash(c))
	// a single key, through NewKey
	d := time.Unix(c.At, 0)
	x := k.NewKey(d, c.Keepers...)
	r.Step(1)
	c2 := c
	c2.Expire, c2.At = "given", c.At
	if x == nil || len(k.Keys) == 0 || keyString(x) != keyString(&k.Keys[len(k.Keys)-1]) {
		return kit.Fail("NewKey does not return the key it added")
	}
	k2 := *k
	k2.Keys = append([]Key{}, k.Keys[:2]...)
	y := k.Keys[len(k.Keys)-1]
	y.SetInstance(&k2)
	k2.Keys = append(k2.Keys, y)
	return checkShape(&k2, 2, 1, c2, before, time.Now())
}

// ---------------------------------------------------------------- bad expiry

type expiryCase struct{ DTG string }

func execExpiry(r *kit.Run, c expiryCase) error {
	seedRandom(3)
	k := blank(5, 30, "AA")
	addPlain(k, 1, 30)
	was := storeSnap(k)
	r.Step(1)
	r.StateOf(c.DTG)
	e := c.DTG
	if err := k.GenerateKeys(2, &e, "BB"); err == nil {
		return kit.Fail("keys with the impossible expiry %q were generated: %s", c.DTG, k.Keys[len(k.Keys)-1].Expires.Time)
	}
	if d := diff(was, storeSnap(k)); d != "" {
		return kit.Fail("a refused expiry %q changed the store: %s", c.DTG, d)
	}
	return nil
}

// ---------------------------------------------------------------- influence

// drawing is one way of drawing; it gives the positions drawn as symbols.
type drawing struct {
	name string
	do   func() []string
}

func keyDrawing(gs, kl, n int) drawing {
	return drawing{fmt.Sprintf("%d keys, group size %d, length %d", n, gs, kl), func() []string {
		k := blank(gs, kl, "AA")
		k.Keys = nil
		k.GenerateKeys(n, nil, "BB")
		var o []string
		for i := range k.Keys {
			for _, c := range k.Keys[i].Id {
				o = append(o, string(c))
			}
			for _, c := range k.Keys[i].Runes {
				o = append(o, string(c))
			}
		}
		return o
	}}
}

func hexDrawing(name string, f func() string) drawing {
	return drawing{name, func() []string {
		s := f()
		var o []string
		for i := 0; i+2 <= len(s); i += 2 {
			o = append(o, s[i:i+2])
		}
		return o
	}}
}

func runesDrawing(name string, f func() []rune) drawing {
	return drawing{name, func() []string {
		var o []string
		for _, c := range f() {
			o = append(o, string(c))
		}
		return o
	}}
}

func drawings(r *kit.Run) []drawing {
	var o []drawing
	for gs := 1; gs <= kit.Pick(r, 6, 8); gs++ {
		for _, kl := range kit.Pick(r, []int{20, 23}, []int{20, 21, 22, 23, 24, 25, 26, 30, 40}) {
			for n := 1; n <= kit.Pick(r, 2, 3); n++ {
				if n > 1 && gs < 5 {
					continue // identifiers would collide
				}
				o = append(o, keyDrawing(gs, kl, n))
			}
		}
	}
	o = append(o, keyDrawing(5, 350, 1))
	o = append(o, hexDrawing("persistence key", krypto431.GeneratePFK), hexDrawing("salt", krypto431.GenerateSalt))
	for n := 0; n <= 12; n++ {
		n := n
		o = append(o, runesDrawing(fmt.Sprintf("%d alphanumeric letters", n), func() []rune { return krypto431.RandomAlnumRunes(n) }))
	}
	o = append(o, runesDrawing("message identifier", func() []rune { k := blank(5, 30, "AA"); return k.NewUniqueMessageId() }))
	o = append(o, runesDrawing("identifiers of two messages", func() []rune {
		k := blank(5, 30, "AA")
		k.NewTextMessage("BB DE AA = A = K")
		k.NewTextMessage("BB DE AA = A = K")
		var o []rune
		for i := range k.Messages {
			o = append(o, k.Messages[i].Id...)
		}
		return o
	}))
	return o
}

type influenceCase struct {
	Name string
	N    int
	Seed uint64
}

func execInfluence(r *kit.Run, c influenceCase) error {
	d := drawings(r)[c.N]
	// a tape, and what is drawn from it
	var base []string
	t := hashTape(c.Seed)
	withReader(t, func() { base = d.do() })
	used := t.at
	data := make([]byte, used+64)
	for i := range data {
		data[i] = t.gen(int64(i))
	}
	if len(base) > 0 && used == 0 {
		return kit.Fail("%s: drawn without reading the system's random source", d.name)
	}
	owner := map[int]map[int]bool{} // position -> bytes
	vals := []byte{1, 2, 0x80, 0xff, 0x40, 0x13}
	if r.Thorough() && used < 400 {
		vals = nil
		for v := 1; v < 256; v++ {
			vals = append(vals, byte(v))
		}
	}
	for o := int64(0); o < used; o++ {
		single := -1
		for _, v := range vals {
			data[o] ^= v
			var got []string
			n := &tape{limit: -1, data: data, gen: t.gen}
			withReader(n, func() { got = d.do() })
			data[o] ^= v
			r.Step(1)
			if n.at != used || len(got) != len(base) {
				r.Count("resynchronised", 1)
				continue // a rejected value or a repeated identifier: what follows moves
			}
			for i := range got {
				if got[i] == base[i] {
					continue
				}
				if single >= 0 && single != i {
					return kit.Fail("%s: byte %d of the random source determines both position %d and position %d, they are not independent", d.name, o, single, i)
				}
				single = i
				if owner[i] == nil {
					owner[i] = map[int]bool{}
				}
				owner[i][int(o)] = true
			}
		}
	}
	for i := range base {
		if len(owner[i]) == 0 {
			return kit.Fail("%s: position %d (%q) does not depend on the random source", d.name, i, base[i])
		}
	}
	r.StateOf(d.name, c.Seed)
	r.Distinct(kit.Hash(strings.Join(base, "")))
	return nil
}

// ---------------------------------------------------------------- uniform

type uniformCase struct {
	What  string
	Chunk int64
	N     int64
}

// perm31 is a permutation of the numbers below 2^31.
func perm31(v uint64) uint64 {
	const m = 1<<31 - 1
	v &= m
	for i := 0; i < 2; i++ {
		v ^= v >> 16
		v = v * 0x45d9f3b & m
		v ^= v >> 15
		v = v * 0x2c1b3c6d & m
		v ^= v >> 16
	}
	return v
}

// blockTape gives 8-byte blocks whose bits 32..62 run through a permutation
// of the numbers from start on; all other bits are mixed from them.
func blockTape(start int64) *tape {
	var cur uint64
	curAt := int64(-1)
	return &tape{limit: -1, gen: func(i int64) byte {
		if b := i / 8; b != curAt {
			curAt = b
			n := uint64(start + b)
			h := mix(n)
			cur = h&^(uint64(1<<31-1)<<32) | perm31(n)<<32
		}
		return byte(cur >> (56 - 8*uint(i%8)))
	}}
}

func execUniform(r *kit.Run, c uniformCase) error {
	t := blockTape(c.Chunk * c.N)
	counts := map[rune]int64{}
	small := [128]int64{}
	total := int64(0)
	withReader(t, func() {
		k := blank(5, 1<<15, "AA")
		for t.at < c.N*8 {
			switch c.What {
			case "key letters":
				k.Keys = nil
				k.NewKey(farFuture, "BB")
				for _, x := range k.Keys[0].Runes {
					if x >= 0 && x < 128 {
						small[x]++
					}
					total++
				}
			case "key identifiers":
				k.KeyLength = 1
				k.Keys = nil
				k.NewKey(farFuture, "BB")
				for _, x := range k.Keys[0].Id {
					small[x&127]++
					total++
				}
			case "message identifiers":
				for i := 0; i < 4096; i++ {
					for _, x := range k.NewUniqueMessageId() {
						small[x&127]++
						total++
					}
				}
			}
		}
	})
	for i, n := range small {
		if n > 0 {
			counts[rune(i)] = n
		}
	}
	r.Step(int(total))
	r.Count("symbols drawn", int(total))
	want := 26
	if c.What == "message identifiers" {
		want = 62
	}
	if len(counts) != want {
		return kit.Fail("%s: of %d drawn, %d different symbols occur instead of %d", c.What, total, len(counts), want)
	}
	mean := float64(total) / float64(want)
	tol := 6.5*math.Sqrt(mean) + 16
	for s, n := range counts {
		r.StateOf(c.What, s)
		r.Distinct(kit.Hash(c.What, s))
		if math.Abs(float64(n)-mean) > tol {
			return kit.Fail("%s: over %d blocks of the random source %q is drawn %d times, expected %.0f (tolerance %.0f): not uniform", c.What, c.N, string(s), n, mean, tol)
		}
	}
	return nil
}

func enumUniform(r *kit.Run, yield func(uniformCase) bool) {
	for i := int64(0); i < 64; i++ {
		if !yield(uniformCase{"key letters", i, kit.Pick(r, int64(1)<<23, 1<<25)}) {
			return
		}
	}
	for i := int64(0); i < 8; i++ {
		if !yield(uniformCase{"key identifiers", i, kit.Pick(r, int64(1)<<21, 1<<24)}) || !yield(uniformCase{"message identifiers", i, kit.Pick(r, int64(1)<<21, 1<<25)}) {
			return
		}
	}
}

// ---------------------------------------------------------------- collisions

type collisionCase struct {
	Kind  string
	GS    int
	Taken int // number of identifiers already there
	Seed  uint64
	Where int
}

func enumCollisions(r *kit.Run, yield func(collisionCase) bool) {
	for seed := uint64(0); seed < uint64(kit.Pick(r, 40, 400)); seed++ {
		for taken := 0; taken <= 25; taken++ {
			if !yield(collisionCase{"one letter", 1, taken, seed, int(seed) % 3}) {
				return
			}
		}
		for gs := 2; gs <= 5; gs++ {
			for n := 1; n <= kit.Pick(r, 4, 12); n++ {
				for w := 0; w < 4; w++ {
					if !yield(collisionCase{"replayed", gs, n, seed, w}) {
						return
					}
				}
			}
		}
		for _, taken := range []int{1, 13, 26, 27, 40, 64, 101, 255, 256, 257, 338, 512, 600, 675} {
			if seed < uint64(kit.Pick(r, 8, 60)) && !yield(collisionCase{"two letters", 2, taken, seed, int(seed) % 3}) {
				return
			}
		}
		for _, others := range []int{0, 2, 9, 31, 70, 127, 260, 600} {
			for w := 0; w < 3 && seed < uint64(kit.Pick(r, 8, 40)); w++ {
				if !yield(collisionCase{"key among many", 5, others, seed, w}) || !yield(collisionCase{"key among many", 3, others, seed, w}) || !yield(collisionCase{"message among many", 5, others, seed, w}) {
					return
				}
			}
		}
		for n := 1; n <= kit.Pick(r, 6, 20); n++ {
			if !yield(collisionCase{"message", 5, n, seed, 0}) || !yield(collisionCase{"message numbers", 5, n, seed, 0}) {
				return
			}
		}
	}
}

func execCollision(r *kit.Run, c collisionCase) error {
	k := blank(c.GS, 20, "AA")
	r.StateOf(c.Kind, c.GS, c.Taken, c.Where)
	r.Distinct(kit.Hash(c))
	unique := func() error {
		seen := map[string]bool{}
		for i := range k.Keys {
			id := string(k.Keys[i].Id)
			if seen[id] {
				return kit.Fail("the generated key has the identifier %q of another key in the store", id)
			}
			if len(k.Keys[i].Id) != c.GS || !onlyAZ(k.Keys[i].Id) {
				return kit.Fail("the generated key has the identifier %q", id)
			}
			seen[id] = true
		}
		seen = map[string]bool{}
		for i := range k.Messages {
			id := string(k.Messages[i].Id)
			if seen[id] || len(k.Messages[i].Id) != 4 {
				return kit.Fail("a message was given the identifier %q, others are %v", id, seen)
			}
			seen[id] = true
		}
		return nil
	}
	switch c.Kind {
	case "one letter":
		first := int(c.Seed) % 26
		for i := 0; i < c.Taken; i++ {
			x := mkKey(string(rune('A'+(first+i)%26)), keyLetters(i, 20), "BB")
			x.Used, x.Compromised = c.Where == 1, c.Where == 2
			addKey(k, x)
		}
		withReader(hashTape(c.Seed), func() {
			r.Step(1)
			k.NewKey(farFuture, "BB")
		})
		return unique()
	case "two letters":
		first := int(c.Seed) * 97
		for i := 0; i < c.Taken; i++ {
			n := (first + i) % 676
			x := mkKey(string([]rune{rune('A' + n/26), rune('A' + n%26)}), keyLetters(i, 20), "BB")
			x.Used, x.Compromised = c.Where == 1, c.Where == 2
			addKey(k, x)
		}
		withReader(hashTape(c.Seed), func() {
			r.Step(1)
			k.NewKey(farFuture, "BB")
		})
		return unique()
	case "key among many", "message among many":
		// what the source gives first is taken already, by one of many
		msg := c.Kind == "message among many"
		draw := func() {
			withReader(hashTape(c.Seed), func() {
				r.Step(1)
				if msg {
					k.Messages = append(k.Messages, Msg{Id: k.NewUniqueMessageId()})
				} else {
					k.NewKey(farFuture, "BB")
				}
			})
		}
		draw()
		for i := 0; i < c.Taken; i++ {
			if msg {
				k.Messages = append(k.Messages, Msg{Id: []rune(keyID(i*31+int(c.Seed), 4))})
			} else {
				addKey(k, mkKey(keyID(i*31+int(c.Seed), c.GS), keyLetters(i, 20), "BB"))
			}
		}
		if n := max(len(k.Keys), len(k.Messages)) - 1; c.Where > 0 {
			to := n
			if c.Where == 2 {
				to = n / 2
			}
			if msg {
				k.Messages[0], k.Messages[to] = k.Messages[to], k.Messages[0]
			} else {
				k.Keys[0], k.Keys[to] = k.Keys[to], k.Keys[0]
			}
		}
		if unique() != nil {
			return nil // a filler is the identifier drawn
		}
		draw()
		return unique()
	case "replayed":
		// the source gives the same identifiers again and again
		for i := 0; i < c.Taken; i++ {
			withReader(hashTape(c.Seed), func() {
				r.Step(1)
				k.NewKey(farFuture, "BB")
			})
			last := &k.Keys[len(k.Keys)-1]
			switch c.Where {
			case 1:
				last.Used = true
			case 2:
				k.Keys[0], k.Keys[len(k.Keys)-1] = k.Keys[len(k.Keys)-1], k.Keys[0]
			case 3:
				last.Keepers = nil
				last.Compromised = true
			}
			if err := unique(); err != nil {
				return err
			}
		}
	case "message", "message numbers":
		for i := 0; i < 2; i++ {
			addKey(k, mkKey(keyID(100+i, 5), keyLetters(i, 40), "BB"))
		}
		for i := 0; i < c.Taken; i++ {
			withReader(hashTape(c.Seed), func() {
				r.Step(1)
				if c.Kind == "message" {
					_, err := k.NewTextMessage(fmt.Sprintf("BB DE AA = TEXT %d = K", i))
					if err != nil && i < 2 {
						kit.Must(err)
					}
				} else {
					id := k.NewUniqueMessageId()
					k.Messages = append(k.Messages, Msg{Id: id})
				}
			})
			if err := unique(); err != nil {
				return err
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- failing

type failingCase struct {
	What  string
	Limit int64
	Once  bool
	Step  int
}

func enumFailing(r *kit.Run, yield func(failingCase) bool) {
	for _, w := range []string{"3 keys", "salt", "persistence key", "alphanumeric", "message", "NewKey"} {
		max := map[string]int64{"3 keys": 640, "salt": 33, "persistence key": 33, "alphanumeric": 70, "message": 40, "NewKey": 220}[w]
		for l := int64(-1); l <= max; l++ {
			for _, once := range []bool{false, true} {
				for _, st := range []int{0, 1, 3, 7} {
					if l < 0 && once {
						continue
					}
					if !yield(failingCase{w, l, once, st}) {
						return
					}
				}
			}
		}
	}
}

func execFailing(r *kit.Run, c failingCase) error {
	r.StateOf(c.What, c.Limit, c.Once, c.Step)
	r.Distinct(kit.Hash(c))
	r.Step(1)
	run := func(t *tape) (o []string, p string, k *K) {
		k = blank(5, 20, "AA")
		addKey(k, mkKey("ZZZZZ", keyLetters(1, 20), "BB"))
		addKey(k, mkKey("YYYYY", keyLetters(2, 20), "BB"))
		withReader(t, func() {
			p = attempt(func() {
				switch c.What {
				case "3 keys":
					if err := k.GenerateKeys(3, nil, "BB"); err != nil {
						panic(err)
					}
				case "NewKey":
					k.NewKey(farFuture, "BB")
				case "salt":
					o = append(o, krypto431.GenerateSalt())
				case "persistence key":
					o = append(o, krypto431.GeneratePFK())
				case "alphanumeric":
					o = append(o, string(krypto431.RandomAlnumRunes(8)))
				case "message":
					if _, err := k.NewTextMessage("BB DE AA = TEXT = K"); err != nil {
						panic(err)
					}
				}
			})
		})
		for i := range k.Keys {
			if i >= 2 {
				o = append(o, string(k.Keys[i].Id)+" "+string(k.Keys[i].Runes))
			}
		}
		for i := range k.Messages {
			o = append(o, string(k.Messages[i].Id))
		}
		return
	}
	good := hashTape(5)
	want, p, _ := run(good)
	if p != "" || len(want) == 0 {
		return kit.Broken("%s from a good source: %s %q", c.What, p, want)
	}
	each := good.at / int64(len(want))
	if c.What == "message" { // wiping afterwards draws as well
		t := hashTape(5)
		withReader(t, func() { blank(5, 20, "AA").NewUniqueMessageId() })
		each = t.at
	}
	t := hashTape(5)
	t.limit, t.once, t.step = c.Limit, c.Once, c.Step
	got, p, k := run(t)
	what := fmt.Sprintf("%s, random source failing after %d bytes (once=%t, reads of %d)", c.What, c.Limit, c.Once, c.Step)
	if !t.failed {
		if p != "" || !equal(got, want) {
			return kit.Fail("%s: nothing failed, but %q was drawn instead of %q (%s)", what, got, want, p)
		}
		return nil
	}
	if int64(len(got))*each > t.at {
		return kit.Fail("%s: %d results %q were produced from %d random bytes, each needs %d", what, len(got), got, t.at, each)
	}
	if !c.Once {
		for i := range got {
			if got[i] != want[i] {
				return kit.Fail("%s: %q was produced instead of %q", what, got[i], want[i])
			}
		}
	}
	for i := 2; i < len(k.Keys); i++ {
		if len(k.Keys[i].Id) != 5 || len(k.Keys[i].Runes) != 20 || !onlyAZ(k.Keys[i].Id) || !onlyAZ(k.Keys[i].Runes) {
			return kit.Fail("%s: an incomplete key was left in the store: %s", what, keyString(&k.Keys[i]))
		}
	}
	if k.Keys[0].IdString() != "ZZZZZ" || string(k.Keys[0].Runes) != string(keyLetters(1, 20)) || k.Keys[1].Used && c.What != "message" {
		return kit.Fail("%s: other keys changed", what)
	}
	return nil
}

// ---------------------------------------------------------------- CLI

type cliKeysCase struct {
	Args []string // init or keys
	GS   int
	KL   int
	Keep []string
	N    int
	Exp  string
	At   int64
	More int // further keys with keys -n
}

func enumCLIKeys(r *kit.Run, yield func(cliKeysCase) bool) {
	d := time.Date(2041, 5, 6, 7, 8, 0, 0, time.UTC)
	for _, gs := range []int{0, 1, 2, 5, 7} {
		for _, kl := range []int{0, 20, 33, 100} {
			for _, keep := range [][]string{nil, {"BB"}, {"bb,CC"}, {"BB", "AA", "DD"}} {
				for _, exp := range []bool{false, true} {
					for _, more := range []int{0, 3} {
						c := cliKeysCase{GS: gs, KL: kl, Keep: keep, N: 4, More: more}
						if exp {
							c.Exp, c.At = dtgOf(d), d.Unix()
						}
						if !yield(c) {
							return
						}
					}
				}
			}
		}
	}
}

func execCLIKeys(r *kit.Run, c cliKeysCase) error {
	dir, done := r.Dir()
	defer done()
	file := filepath.Join(dir, "store")
	gs, kl := 5, 350
	args := []string{"-f", file, "init", "-y", "-c", "aa", "-n", fmt.Sprint(c.N)}
	if c.GS > 0 {
		gs = c.GS
		args = append(args, "-g", fmt.Sprint(gs))
	}
	if c.KL > 0 {
		kl = c.KL
		args = append(args, "-l", fmt.Sprint(kl))
	}
	for _, k := range c.Keep {
		args = append(args, "-k", k)
	}
	if c.Exp != "" {
		args = append(args, "-x", c.Exp)
	}
	before := time.Now()
	out := krypto(dir, "", args...)
	r.Step(1)
	if out.Code != 0 {
		return kit.Fail("%q failed: %s", args, out.Err)
	}
	sc := shapeCase{GS: gs, KL: kl, Keepers: c.Keep, N: c.N, Expire: c.Exp, At: c.At}
	k, err := loadFrom(file)
	if err != nil {
		return kit.Fail("after %q the store does not load: %v", args, err)
	}
	if err := checkShape(k, 0, c.N, sc, before, time.Now()); err != nil {
		return err
	}
	letters := func(k *K) []string {
		var o []string
		for i := range k.Keys {
			o = append(o, string(k.Keys[i].Runes))
		}
		return o
	}
	if c.More > 0 {
		args := []string{"-f", file, "keys", "-n", fmt.Sprint(c.More)}
		for _, k := range c.Keep {
			args = append(args, "-k", k)
		}
		if c.Exp != "" {
			args = append(args, "-x", c.Exp)
		}
		first := letters(k)
		was := keysSnap(k)
		out := krypto(dir, "", args...)
		r.Step(1)
		if out.Code != 0 {
			return kit.Fail("%q failed: %s", args, out.Err)
		}
		k, err = loadFrom(file)
		if err != nil {
			return kit.Fail("after %q the store does not load: %v", args, err)
		}
		if err := checkShape(k, c.N, c.More, sc, before, time.Now()); err != nil {
			return err
		}
		if !equal(was, keysSnap(k)[:c.N]) {
			return kit.Fail("%q changed the keys that were there", args)
		}
		_ = first
	}
	// no two keys share a run of 12 letters
	seen := map[string]string{}
	for _, l := range letters(k) {
		for i := 0; i+12 <= len(l); i++ {
			w := l[i : i+12]
			if o, ok := seen[w]; ok {
				return kit.Fail("generated keys repeat letters: %q occurs twice (%s)", w, trunc(o))
			}
			seen[w] = l
		}
	}
	r.StateOf(gs, kl, len(c.Keep), c.Exp != "", c.More)
	r.Distinct(kit.Hash(c))
	return nil
}

type genCase struct {
	Args []string
}

func execGen(r *kit.Run, c genCase) error {
	dir, done := r.Dir()
	defer done()
	seen := map[string]bool{}
	for i := 0; i < 3; i++ {
		out := plain(cli(dir, "", c.Args...))
		r.Step(1)
		if out.Code != 0 {
			return kit.Fail("%q failed: %s", c.Args, out.Err)
		}
		v := strings.TrimSpace(out.Out)
		b, err := hex.DecodeString(v)
		if err != nil || len(b) != 32 {
			return kit.Fail("%q prints %q, not 32 bytes in hexadecimal", c.Args, v)
		}
		zero := 0
		for _, x := range b {
			if x == 0 {
				zero++
			}
		}
		if zero > 8 || seen[v] {
			return kit.Fail("%q prints %q, which is not random", c.Args, v)
		}
		seen[v] = true
		r.StateOf(c.Args, i)
	}
	if e, _ := os.ReadDir(dir); len(e) > 0 {
		return kit.Fail("%q wrote files", c.Args)
	}
	return nil
}

func init() {
	kit.Register(&kit.Prop{
		ID:    "C15",
		Level: "model_checking",
		Bounds: "group sizes 1-9 (20 thorough) x key lengths 20-46 (120) and up to 1000, 11 keeper lists, 4 expiries; every byte of the random source changed for keys of up to 350 letters; " +
			"2^29 (2^31 thorough: all) values of the 31 bits a letter is drawn from; all numbers of taken one-letter identifiers; failure of the source after every byte",
		Assumptions: []string{"uniformity is counted over the values of the source, with a tolerance of 6.5 standard deviations, so a bias below about 0.5 % of one letter is not seen"},
		Families: []*kit.Family{
			kit.F("shape", "all group sizes, key lengths, keepers and expiries within the bounds; a case is non-trivial if keys were generated", enumShapes, execShape),
			kit.F("expiry", "all malformed expiry dates of a list made by damaging each character of a good one", func(r *kit.Run, yield func(expiryCase) bool) {
				good := "020304ZJAN31"
				for _, s := range []string{"", "x", "2031-01-02", "320304ZJAN31", "022504ZJAN31", "020360ZJAN31", "000304ZJAN31", "020304ZXXX31", "300304ZFEB31"} {
					if !yield(expiryCase{s}) {
						return
					}
				}
				for i := range good {
					for _, c := range "!?" {
						if !yield(expiryCase{good[:i] + string(c) + good[i+1:]}) {
							return
						}
					}
				}
			}, execExpiry),
			kit.F("influence", "every byte of the random source is changed in turn; it may change at most one position of what is drawn and every position must depend on some byte", func(r *kit.Run, yield func(influenceCase) bool) {
				for s := uint64(1); s <= uint64(kit.Pick(r, 2, 3)); s++ {
					for i, d := range drawings(r) {
						if !yield(influenceCase{d.name, i, s}) {
							return
						}
					}
				}
			}, execInfluence).W(2),
			kit.F("uniform", "blocks of the random source enumerated, letters counted", enumUniform, execUniform).W(4),
			kit.F("collisions", "identifiers drawn again although taken: all numbers of taken identifiers, all places in the store", enumCollisions, execCollision),
			kit.F("failing", "the random source fails after every byte, once or for good, with short reads", enumFailing, execFailing),
			kit.F("command line keys", "init and keys -n with all combinations of group size, length, keepers, expiry", enumCLIKeys, execCLIKeys).W(2),
			kit.F("command line secrets", "pfk --gen-pfk --random and --gen-salt", func(r *kit.Run, yield func(genCase) bool) {
				for _, a := range [][]string{{"pfk", "-G"}, {"pfk", "-g", "-r"}, {"pfk", "--gen-salt"}, {"pfk", "--gen-pfk", "--random"}} {
					if !yield(genCase{a}) {
						return
					}
				}
			}, execGen),
		},
	})
}
