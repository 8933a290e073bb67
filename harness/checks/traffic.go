package checks

import (
	"strconv"
	"strings"
	"time"

	"verif/kit"
	"verif/ref"
)

// trafficCase: a station enciphers a message, what it displays is keyed into
// the stations of the addressees.
type trafficCase struct {
	GS, KL int
	N      int    // number of keys
	Text   string `json:",omitempty"`
	Len    int    `json:",omitempty"` // length of a text made of Pat
	Pat    string `json:",omitempty"`
	To     []string
	Call   string `json:",omitempty"`
	Zone   int    `json:",omitempty"` // hours east
	Width  int    // 0: default
	Typed  int    // how it is keyed in
	Path   int    `json:",omitempty"` // 0: enciphered message as is, 1: by radiogram, 2: by radiogram, saved and loaded on both sides
}

const typings = 7

// keyIn is the same traffic typed in another way.
func keyIn(s string, how int) string {
	switch how {
	case 1:
		return strings.ReplaceAll(s, "\n", "\r\n")
	case 2:
		return strings.ReplaceAll(s, "\n", " ")
	case 3:
		return strings.ToLower(s)
	case 4:
		return "\n" + strings.ReplaceAll(s, " ", "\n")
	case 5:
		return strings.ReplaceAll(s, " ", "  ") + "\n\n"
	case 6: // the letters of the text run together
		h, t, _ := strings.Cut(strings.Join(strings.Fields(s), " "), " = ")
		t, e, _ := strings.Cut(t, " = ")
		return h + " = " + strings.Join(strings.Fields(t), "") + " = " + e
	}
	return s
}

func (c trafficCase) text() string {
	if c.Pat == "" {
		return c.Text
	}
	p := []rune(c.Pat)
	o := make([]rune, c.Len)
	for i := range o {
		o[i] = p[i%len(p)]
	}
	if o[0] == ' ' {
		o[0] = 'A'
	}
	if o[c.Len-1] == ' ' {
		o[c.Len-1] = 'B'
	}
	return string(o)
}

func execTraffic(r *kit.Run, c trafficCase) error {
	call := c.Call
	if call == "" {
		call = "AA"
	}
	k := blank(c.GS, c.KL, call)
	for i := 0; i < c.N; i++ {
		addKey(k, mkKey(textCase{GS: c.GS, KL: c.KL}.id(i), keyLetters(i, c.KL), c.To...))
	}
	text := c.text()
	when := time.Date(2026, 2, 28, 23, 59, 0, 0, time.FixedZone("", c.Zone*3600))
	if c.Zone == 0 {
		when = when.UTC()
	}
	var m *Msg
	if c.Path == 0 {
		m = newMsg(k, text, c.To...)
		m.DTG.Time = when
		if err := m.Encipher(); err != nil {
			return kit.Broken("encipher: %v", err)
		}
	} else {
		g := strings.Join(c.To, ",") + " DE " + call + " = " + text + " = K"
		x, err := k.NewTextMessage(strings.TrimSpace(g))
		if err != nil {
			return kit.Fail("the radiogram %q is not sent: %v", g, err)
		}
		m = x
	}
	if c.Path == 2 {
		dir, done := r.Dir()
		defer done()
		file := dir + "/store"
		if err := saveTo(k, file); err != nil {
			return kit.Fail("saving: %v", err)
		}
		l, err := loadFrom(file)
		if err != nil {
			return kit.Fail("loading: %v", err)
		}
		m = &l.Messages[0]
	}
	var shown string
	if c.Width > 0 {
		shown = m.String(c.Width)
	} else {
		shown = m.String()
	}
	_, traffic, ok := strings.Cut(shown, "=TRAFFIC=EXAMPLE=\n")
	if !ok {
		return kit.Fail("no example traffic is displayed for the message: %q", shown)
	}
	r.Step(1)
	// the displayed group count
	head, rest, ok := strings.Cut(strings.Join(strings.Fields(traffic), " "), " = ")
	body, end, ok2 := strings.Cut(rest, " = ")
	hw := strings.Fields(head)
	if !ok || !ok2 || end != "K" || len(hw) < 4 {
		return kit.Fail("the traffic has no documented form: %q", traffic)
	}
	n := len(strings.Fields(body))
	if hw[len(hw)-1] != strconv.Itoa(n) {
		return kit.Fail("the displayed group count is %s, the traffic has %d groups: %q", hw[len(hw)-1], n, trunc(traffic))
	}
	if letters := strings.ReplaceAll(body, " ", ""); letters != string(m.KeyId)+string(m.CipherText) {
		return kit.Fail("the traffic %q is not the key %q and the cipher text %q", trunc(traffic), string(m.KeyId), trunc(string(m.CipherText)))
	}
	for _, g := range strings.Fields(body) {
		if len(g) != c.GS {
			return kit.Fail("the traffic has a group of %d letters (%q): %q", len(g), g, trunc(traffic))
		}
	}
	_, segs, err := decodeByHand(nil, k, m, keyMap(k))
	if err != nil {
		return kit.Fail("the cipher text can not be deciphered by hand: %v", err)
	}
	stations := c.To
	if len(stations) == 0 {
		stations = []string{"BB"}
	}
	for _, st := range stations {
		p := peer(k, st)
		for i := range p.Keys {
			p.Keys[i].Keepers = runes2([]string{call})
		}
		typed := keyIn(traffic, c.Typed)
		b, err := p.NewTextMessage(typed)
		r.Step(1)
		if err != nil {
			return kit.Fail("the traffic %q keyed in at %s gives the error %v", trunc(typed), st, err)
		}
		if len(p.Messages) != 1 {
			return kit.Fail("%s holds %d messages after receiving one", st, len(p.Messages))
		}
		for _, x := range []*Msg{b, &p.Messages[0]} {
			if string(x.PlainText) != text {
				return kit.Fail("the text %q arrives at %s as %q (keyed in: %q)", trunc(text), st, trunc(string(x.PlainText)), trunc(typed))
			}
			want := append([]string(nil), c.To...)
			if len(want) == 0 {
				want = []string{st}
			}
			var got []string
			for _, t := range x.Recipients {
				got = append(got, string(t))
			}
			if !equal(got, want) {
				return kit.Fail("the addressees %q arrive at %s as %q", want, st, got)
			}
			if string(x.From) != call {
				return kit.Fail("the sender %q arrives at %s as %q", call, st, string(x.From))
			}
			if x.DTG.String() != m.DTG.String() || !x.DTG.Time.Equal(m.DTG.Time.Truncate(time.Minute)) {
				return kit.Fail("the date-time group %s arrives at %s as %s", m.DTG, st, x.DTG)
			}
			if string(x.KeyId) != string(m.KeyId) || string(x.CipherText) != string(m.CipherText) {
				return kit.Fail("the cipher message %q %q arrives at %s as %q %q", string(m.KeyId), trunc(string(m.CipherText)), st, string(x.KeyId), trunc(string(x.CipherText)))
			}
		}
		used := map[string]bool{}
		for _, s := range segs {
			used[s.KeyID] = true
		}
		for i := range p.Keys {
			if p.Keys[i].Used != used[string(p.Keys[i].Id)] {
				return kit.Fail("key %q at %s is marked used=%t after deciphering with the keys %v", string(p.Keys[i].Id), st, p.Keys[i].Used, used)
			}
		}
		// what the addressee displays is the same traffic once more
		_, again, _ := strings.Cut(b.String(), "=TRAFFIC=EXAMPLE=\n")
		h2, r2, _ := strings.Cut(strings.Join(strings.Fields(again), " "), " = ")
		if len(c.To) > 0 && h2 != head || r2 != rest {
			return kit.Fail("%s displays the traffic %q as %q", st, trunc(traffic), trunc(again))
		}
		if c.Path == 2 {
			dir, done := r.Dir()
			file := dir + "/store"
			err := saveTo(p, file)
			var l *K
			if err == nil {
				l, err = loadFrom(file)
			}
			done()
			if err != nil {
				return kit.Fail("saving and loading at %s: %v", st, err)
			}
			if string(l.Messages[0].PlainText) != text {
				return kit.Fail("the text is stored at %s as %q", st, string(l.Messages[0].PlainText))
			}
		}
	}
	r.StateOf(c.GS, c.KL, len(m.CipherText), len(segs), c.Width, c.Typed, len(c.To))
	return nil
}

var trafficTos = [][]string{{"BB"}, nil, {"BB", "CC"}, {"SA6MWA/P", "VJ", "1A"}}

func enumTrafficLengths(r *kit.Run, yield func(trafficCase) bool) {
	pats := []string{"HELLO DE ", "hej Pa 12 DE ", "A1b2Ö ", "1", "K"}
	for _, g := range []gskl{{5, 40}, {5, 350}, {3, 30}, {1, 100}, {4, 20}, {7, 64}, {2, 20}} {
		top := kit.Pick(r, 260, 700)
		step := 1
		for l := 1; l <= top; l += step {
			for pi, p := range pats {
				for ti, to := range trafficTos {
					if r.Tier != "thorough" && (l+pi+ti)%4 != 0 {
						continue
					}
					c := trafficCase{GS: g.gs, KL: g.kl, Len: l, Pat: p, To: to, Typed: (l + ti) % typings}
					per := (g.kl - g.gs - 6) / 4
					if per < 1 {
						per = 1
					}
					c.N = l/per + 2
					if c.N > (textCase{GS: g.gs, KL: g.kl}).maxKeys() {
						c.N = textCase{GS: g.gs, KL: g.kl}.maxKeys()
						if l > per*(c.N-2) {
							continue
						}
					}
					if !yield(c) {
						return
					}
				}
			}
		}
	}
}

func enumTrafficWidths(r *kit.Run, yield func(trafficCase) bool) {
	many := make([]string, 40)
	for i := range many {
		many[i] = "S" + strconv.Itoa(i) + "X/P"
	}
	tos := append([][]string{}, trafficTos...)
	tos = append(tos, many, many[:12])
	for w := 0; w <= kit.Pick(r, 160, 300); w++ {
		for _, to := range tos {
			for _, l := range []int{1, 9, 30, 75, 200} {
				for typed := 0; typed < typings; typed++ {
					if r.Tier != "thorough" && (w+l+typed+len(to))%3 != 0 {
						continue
					}
					if !yield(trafficCase{GS: 5, KL: 120, N: 12, Len: l, Pat: "Hej DE 12 ", To: to, Width: w, Typed: typed}) {
						return
					}
				}
			}
		}
	}
}

func enumTrafficLarge(r *kit.Run, yield func(trafficCase) bool) {
	// group counts about every power of ten
	for _, g := range []struct{ gs, kl, n int }{{1, 30000, 3}, {5, 60000, 2}, {1, 2000, 20}, {5, 350, 300}} {
		for _, groups := range []int{7, 8, 9, 10, 11, 97, 98, 99, 100, 101, 997, 998, 999, 1000, 1001, 1002, 9996, 9997, 9998, 9999, 10000, 10001, 10002} {
			l := groups * g.gs
			if l > (g.kl-10)*g.n*8/10 {
				continue
			}
			for _, typed := range []int{0, 2, 4} {
				if !yield(trafficCase{GS: g.gs, KL: g.kl, N: g.n, Len: l, Pat: "ABCDEFGH", To: []string{"BB"}, Typed: typed}) {
					return
				}
			}
		}
	}
}

func enumTrafficTexts(r *kit.Run, yield func(trafficCase) bool) {
	// short texts over the classes, every way of typing
	n := 6
	sequences(n, 1, kit.Pick(r, 4, 5), func(s []int) bool {
		t := make([]rune, len(s))
		for i, x := range s {
			t[i] = classes[x]
		}
		for typed := 0; typed < typings; typed++ {
			if !yield(trafficCase{GS: 5, KL: 20, N: 6, Text: string(t), To: []string{"BB"}, Typed: typed, Width: 85 * (typed % 2)}) {
				return false
			}
		}
		return true
	})
	for _, a := range ref.Alphabet {
		for _, b := range ref.Alphabet {
			if !yield(trafficCase{GS: 5, KL: 20, N: 6, Text: string([]rune{a, b}), To: []string{"BB"}}) {
				return
			}
		}
	}
}

func enumTrafficHeads(r *kit.Run, yield func(trafficCase) bool) {
	// zones, call-signs and addressees
	for z := -12; z <= 12; z++ {
		for _, to := range trafficTos {
			for _, call := range []string{"AA", "SM0AAA/P", "1", "DEAD", "Z9"} {
				for typed := 0; typed < typings; typed++ {
					if !yield(trafficCase{GS: 5, KL: 60, N: 4, Text: "HEJ DE 17", To: to, Call: call, Zone: z, Typed: typed}) {
						return
					}
				}
			}
		}
	}
	// by radiogram, and saved and loaded in between
	for path := 1; path <= 2; path++ {
		for _, to := range trafficTos {
			for _, l := range []int{1, 2, 5, 17, 60, 150} {
				for _, gs := range []int{1, 3, 5} {
					for typed := 0; typed < typings; typed++ {
						if !yield(trafficCase{GS: gs, KL: 90, N: 14, Len: l, Pat: "Vi ser DE 12", To: to, Path: path, Typed: typed}) {
							return
						}
					}
				}
			}
		}
	}
}

func init() {
	kit.Register(&kit.Prop{
		ID: "C20", Level: "model_checking",
		Rule:   "the example traffic displayed for a message, keyed in at every addressee, gives the same text, sender, addressees, date-time group and used keys, and the displayed group count is the number of groups",
		Bounds: "texts of every length to 260 (thorough 700) over seven configurations; every width to 160 (300) with up to 40 addressees; group counts about every power of ten to 10000; all class sequences to four (five) and all letter pairs; all zones; seven ways of typing the traffic; by radiogram and through saved stores; radiograms typed on a terminal in every division into lines, and interrupted on each",
		Assumptions: []string{
			"the station keying in is an addressee holding the keys; a message without addressees is received as addressed to the station itself, as documented",
			"times are shown to the minute, zones of whole hours",
		},
		Families: []*kit.Family{
			kit.F("lengths", "text lengths x configurations x addressees", enumTrafficLengths, execTraffic).W(3),
			kit.F("widths", "display widths x lengths x addressees x typing", enumTrafficWidths, execTraffic).W(2),
			kit.F("texts", "short texts x typing", enumTrafficTexts, execTraffic).W(2),
			kit.F("heads", "zones x call-signs x addressees x typing, radiograms, saved stores", enumTrafficHeads, execTraffic),
			kit.F("large", "group counts about powers of ten", enumTrafficLarge, execTraffic),
			kit.F("typed", "breaks of a radiogram into lines typed on a terminal", enumTyped, execTyped).W(2),
		},
	})
}
