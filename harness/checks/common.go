// Package checks holds one file per group of properties.
package checks

import (
	crand "crypto/rand"
	"fmt"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/sa6mwa/krypto431"
	"verif/kit"
	"verif/ref"
)

type K = krypto431.Krypto431
type Key = krypto431.Key
type Msg = krypto431.Message

// ---------------------------------------------------------------- randomness

// prng is a fast deterministic stand-in for crypto/rand.Reader.
type prng struct {
	mu sync.Mutex
	s  uint64
}

func (p *prng) next() uint64 {
	p.s += 0x9e3779b97f4a7c15
	z := p.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (p *prng) Read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for i := 0; i < len(b); {
		v := p.next()
		for j := 0; j < 8 && i < len(b); j++ {
			b[i] = byte(v >> (8 * j))
			i++
		}
	}
	return len(b), nil
}

var realReader = crand.Reader

func init() { crand.Reader = &prng{s: 1} }

// seedRandom makes what follows a function of n alone.
func seedRandom(n uint64) { crand.Reader = &prng{s: n*0x2545F4914F6CDD1D + 7} }

// ---------------------------------------------------------------- stations

var tmpl *K

// blank gives an instance like New() without its large preallocations.
func blank(gs, kl int, call string) *K {
	if tmpl == nil {
		t := krypto431.New()
		t.Keys, t.Messages = nil, nil
		tmpl = &t
	}
	k := *tmpl
	pfk := make([]byte, 32)
	for i := range pfk {
		pfk[i] = byte(i + 1)
	}
	salt := krypto431.ByteCopy(tmpl.GetSalt())
	_ = salt
	k.GroupSize, k.KeyLength = gs, kl
	k.CallSign = []rune(call)
	k.Keys, k.Messages = nil, nil
	return &k
}

// fresh is a real New() instance.
func fresh(opts ...krypto431.Option) *K {
	k := krypto431.New(opts...)
	return &k
}

// keyID makes the n-th identifier of gs letters.
func keyID(n, gs int) string {
	b := make([]byte, gs)
	for i := gs - 1; i >= 0; i-- {
		b[i] = byte('A' + n%26)
		n /= 26
	}
	return string(b)
}

// keyLetters makes key material: different for every n and position.
func keyLetters(n, length int) []rune {
	r := make([]rune, length)
	s := &prng{s: uint64(n)*7919 + 13}
	for i := range r {
		r[i] = rune('A' + s.next()%26)
	}
	return r
}

func runes2(keepers []string) [][]rune {
	var o [][]rune
	for _, s := range keepers {
		o = append(o, []rune(s))
	}
	return o
}

var day0 = time.Date(2026, 3, 4, 5, 6, 0, 0, time.UTC)
var farFuture = time.Date(2090, 1, 2, 3, 4, 0, 0, time.UTC)

func mkKey(id string, letters []rune, keepers ...string) Key {
	k := Key{Id: []rune(id), Runes: append([]rune(nil), letters...), Keepers: runes2(keepers)}
	// dates and remarks of all kinds, nothing but what is about them depends on them
	h := uint(0)
	for _, x := range id {
		h = h*31 + uint(x)
	}
	h = h * 2654435761 >> 7
	k.Created.Time = []time.Time{day0, {}, farFuture}[h/4%3]
	k.Expires.Time = []time.Time{farFuture, day0.AddDate(-6, 0, 0), {}, farFuture.AddDate(0, 0, 1)}[h%4]
	// as they are written in other zones
	k.Created.Time = k.Created.Time.In(keyZones[h/36%4])
	k.Expires.Time = k.Expires.Time.In(keyZones[h/144%4])
	k.Comment = [][]rune{nil, []rune("Åt 2, no. 7"), []rune("x")}[h/12%3]
	return k
}

var keyZones = []*time.Location{time.UTC, time.FixedZone("", 3600), time.FixedZone("", -5*3600), time.UTC}

// written is a time and the zone it is written in.
func written(t time.Time) string {
	_, off := t.Zone()
	return strconv.FormatInt(t.UnixNano(), 10) + "z" + strconv.Itoa(off)
}

// addKey appends a key to the store.
func addKey(k *K, key Key) {
	key.SetInstance(k)
	k.Keys = append(k.Keys, key)
}

// addPlain adds n numbered keys of the given length.
func addPlain(k *K, n, length int, keepers ...string) {
	for i := 0; i < n; i++ {
		addKey(k, mkKey(keyID(1000+i, k.GroupSize), keyLetters(i, length), keepers...))
	}
}

// peer copies the keys into another station (own slices).
func peer(k *K, call string) *K {
	p := blank(k.GroupSize, k.KeyLength, call)
	for i := range k.Keys {
		s := &k.Keys[i]
		n := Key{Id: cp(s.Id), Runes: cp(s.Runes), Created: s.Created, Expires: s.Expires}
		addKey(p, n)
	}
	return p
}

func cp(r []rune) []rune { return append([]rune(nil), r...) }

func keyMap(k *K) func(string) ([]rune, bool) {
	m := map[string][]rune{}
	for i := range k.Keys {
		m[string(k.Keys[i].Id)] = cp(k.Keys[i].Runes)
	}
	return func(id string) ([]rune, bool) { r, ok := m[id]; return r, ok }
}

func newMsg(k *K, text string, to ...string) *Msg {
	m := &Msg{PlainText: []rune(text), Recipients: runes2(to), From: cp(k.CallSign)}
	m.SetInstance(k)
	return m
}

// ---------------------------------------------------------------- snapshots

func keyString(x *Key) string {
	return fmt.Sprintf("%q %q %q c=%s e=%s u=%t x=%t %q", string(x.Id), string(x.Runes), krypto431.RunesToStrings(&x.Keepers),
		written(x.Created.Time), written(x.Expires.Time), x.Used, x.Compromised, string(x.Comment))
}

func msgString(m *Msg) string {
	return fmt.Sprintf("%q to=%q de=%q t=%s key=%q p=%q b=%q c=%q r=%q", string(m.Id), krypto431.RunesToStrings(&m.Recipients), string(m.From),
		written(m.DTG.Time), string(m.KeyId), string(m.PlainText), m.Binary, string(m.CipherText), string(m.Radiogram))
}

func keysSnap(k *K) []string {
	o := make([]string, len(k.Keys))
	for i := range k.Keys {
		o[i] = keyString(&k.Keys[i])
	}
	return o
}

func msgsSnap(k *K) []string {
	o := make([]string, len(k.Messages))
	for i := range k.Messages {
		o[i] = msgString(&k.Messages[i])
	}
	return o
}

func storeSnap(k *K) string {
	return fmt.Sprintf("gs=%d kl=%d col=%d kcol=%d call=%q\n%s\n--\n%s", k.GroupSize, k.KeyLength, k.Columns, k.KeyColumns, string(k.CallSign),
		strings.Join(keysSnap(k), "\n"), strings.Join(msgsSnap(k), "\n"))
}

func diff(a, b string) string {
	if a == b {
		return ""
	}
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "<nothing>", "<nothing>"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("line %d:\n  want %s\n  have %s", i, trunc(x), trunc(y))
		}
	}
	return "differs"
}

func trunc(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

func equal(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// decodeByHand runs the reference procedure over an enciphered message,
// recording the coding states it passes through.
func decodeByHand(r *kit.Run, k *K, m *Msg, keys func(string) ([]rune, bool)) ([]rune, []ref.Segment, error) {
	gs, kl := k.GroupSize, k.KeyLength
	plain, segs, err := ref.Decode(m.CipherText, string(m.KeyId), gs, keys, func(pos, table int, low bool) {
		if r != nil {
			h := uint64(pos)<<20 | uint64(table)<<1 | uint64(gs)<<40 | uint64(kl)<<48
			if low {
				h |= 1
			}
			r.State(h * 0x9e3779b97f4a7c15)
		}
	})
	if r != nil {
		r.Step(len(m.CipherText))
	}
	return plain, segs, err
}

func repeat(s string, n int) string { return strings.Repeat(s, n) }

// sequences yields every sequence over n symbols with length lo..hi, shortest
// first.
func sequences(n, lo, hi int, yield func(s []int) bool) bool {
	for l := lo; l <= hi; l++ {
		s := make([]int, l)
		for {
			if !yield(s) {
				return false
			}
			i := l - 1
			for ; i >= 0; i-- {
				s[i]++
				if s[i] < n {
					break
				}
				s[i] = 0
			}
			if i < 0 {
				break
			}
		}
	}
	return true
}
