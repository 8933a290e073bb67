package checks

import (
	"strings"
	"time"

	"github.com/sa6mwa/krypto431"
	"verif/kit"
)

// A radiogram is put together from its parts, so what has to be understood is
// known by construction.
type gramCase struct {
	Lead  string   `json:",omitempty"`
	To    []string `json:",omitempty"`
	ToSep string   `json:",omitempty"`
	Gap   string   // between the words of the header
	From  string
	DTG   string    `json:",omitempty"`
	Form  string    // full, semi, short, mini
	List  string    `json:",omitempty"`
	Instr string    `json:",omitempty"`
	Count string    `json:",omitempty"`
	Eq    [2]string // before and after an equals sign
	Text  string
	End   string `json:",omitempty"`
	Case  int    `json:",omitempty"` // 0: as given, 1: header in lower case, 2: header in mixed case
}

func (c gramCase) casing(s string) string {
	switch c.Case {
	case 1:
		return strings.ToLower(s)
	case 2:
		b := []byte(s)
		for i := range b {
			if i%2 == 0 && b[i] >= 'A' && b[i] <= 'Z' {
				b[i] += 32
			}
		}
		return string(b)
	}
	return s
}

func (c gramCase) radiogram() string {
	var h []string
	if len(c.To) > 0 {
		h = append(h, strings.Join(c.To, c.ToSep))
	}
	h = append(h, "DE", c.From)
	if c.DTG != "" {
		h = append(h, c.DTG)
	}
	head := strings.Join(h, c.Gap)
	words := func(w ...string) string {
		var s []string
		for _, x := range w {
			if x != "" {
				s = append(s, x)
			}
		}
		return strings.Join(s, c.Gap)
	}
	switch c.Form {
	case "full":
		head += c.Eq[0] + "==" + c.Eq[1] + c.List + c.Eq[0] + "==" + c.Eq[1] + words(c.Instr, c.Count) + c.Eq[0] + "=" + c.Eq[1]
	case "semi":
		head += c.Eq[0] + "==" + c.Eq[1] + words(c.List, c.Count) + c.Eq[0] + "=" + c.Eq[1]
	case "short":
		if s := words(c.Instr, c.Count); s != "" {
			head += c.Gap + s
		}
		head += c.Eq[0] + "=" + c.Eq[1]
	case "mini":
		head += c.Gap
	}
	return c.Lead + c.casing(head) + c.Text + c.End
}

func asciiLetter(b byte) bool { return b >= 'A' && b <= 'Z' || b >= 'a' && b <= 'z' }
func isDigit(b byte) bool     { return b >= '0' && b <= '9' }

// ambiguous texts of the mini form read as the short form: what stands before
// the first equals sign could be an instruction and a group count.
func (c gramCase) ambiguous() bool {
	if c.Form != "mini" {
		return false
	}
	s := c.Text + c.End
	if c.DTG == "" && len(s) >= 6 {
		six := true
		for i := 0; i < 6; i++ {
			six = six && isDigit(s[i])
		}
		if six {
			return true
		}
	}
	i, n := 0, 0
	for i < len(s) && n < 4 && asciiLetter(s[i]) {
		i, n = i+1, n+1
	}
	for i < len(s) && strings.IndexByte(" \t\n\r", s[i]) >= 0 {
		i++
	}
	for i < len(s) && isDigit(s[i]) {
		i++
	}
	for i < len(s) && strings.IndexByte(" \t\n\r", s[i]) >= 0 {
		i++
	}
	return i < len(s) && s[i] == '='
}

var zoneHours = map[byte]int{'Z': 0, 'A': 1, 'B': 2, 'C': 3, 'D': 4, 'E': 5, 'F': 6, 'G': 7, 'H': 8, 'I': 9, 'K': 10, 'L': 11, 'M': 12,
	'N': -1, 'O': -2, 'P': -3, 'Q': -4, 'R': -5, 'S': -6, 'T': -7, 'U': -8, 'V': -9, 'W': -10, 'X': -11, 'Y': -12}

var monthNames = []string{"JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"}

// instant is what a date-time group says at the given time.
func instant(s string, now time.Time) time.Time {
	num := func(s string) int { return int(s[0]-'0')*10 + int(s[1]-'0') }
	day, hour, minute := num(s[0:2]), num(s[2:4]), num(s[4:6])
	loc := time.Local
	if len(s) > 6 && s[6] != 'J' {
		loc = time.FixedZone("", zoneHours[s[6]]*3600)
	}
	month, year := now.In(loc).Month(), now.In(loc).Year()
	if len(s) >= 10 {
		for i, m := range monthNames {
			if m == s[7:10] {
				month = time.Month(i + 1)
			}
		}
	}
	if len(s) >= 12 {
		y := num(s[10:12])
		year = 2000 + y
		if y >= 69 { // the standard two-digit year window
			year = 1900 + y
		}
	}
	return time.Date(year, month, day, hour, minute, 0, 0, loc)
}

var breaks = strings.NewReplacer("\r\n", " ", "\r", " ", "\n", " ", "\v", " ", "\f", " ", "\u0085", " ", "\u2028", " ", "\u2029", " ")

var gramStation = blank(5, 350, "AA")

func execGram(r *kit.Run, c gramCase) error {
	if c.ambiguous() {
		r.Count("ambiguous texts left out", 1)
		return nil
	}
	g := c.radiogram()
	before := time.Now()
	m, err := gramStation.ParseRadiogram(g)
	after := time.Now()
	r.Step(1)
	if err != nil {
		return kit.Fail("the radiogram %q is not understood: %v", g, err)
	}
	var to []string
	for _, t := range c.To {
		to = append(to, strings.ToUpper(t))
	}
	var got []string
	for _, t := range m.Recipients {
		got = append(got, string(t))
	}
	if !equal(got, to) {
		return kit.Fail("the addressees of the radiogram %q are %q, understood as %q", g, to, got)
	}
	if string(m.From) != strings.ToUpper(c.From) {
		return kit.Fail("the sender of the radiogram %q is %q, understood as %q", g, c.From, string(m.From))
	}
	if text := breaks.Replace(c.Text); string(m.PlainText) != text {
		return kit.Fail("the text of the radiogram %q is %q, understood as %q", g, text, string(m.PlainText))
	}
	if c.DTG == "" {
		if m.DTG.Time.Before(before.Add(-time.Second)) || m.DTG.Time.After(after.Add(time.Second)) {
			return kit.Fail("the radiogram %q has no date-time group, its time is %v and not now", g, m.DTG.Time)
		}
	} else {
		d := strings.ToUpper(c.DTG)
		a, b := instant(d, before), instant(d, after)
		if !m.DTG.Time.Equal(a) && !m.DTG.Time.Equal(b) {
			return kit.Fail("the date-time group of the radiogram %q is %v, understood as %v", g, a, m.DTG.Time)
		}
		_, o1 := m.DTG.Time.Zone()
		_, o2 := a.Zone()
		if o1 != o2 {
			return kit.Fail("the date-time group of the radiogram %q has the zone offset %d, understood as %d", g, o2, o1)
		}
		if len(c.DTG) == 12 && d[6] != 'J' && m.DTG.String() != d {
			return kit.Fail("the date-time group of the radiogram %q is shown as %s", g, m.DTG.String())
		}
	}
	if breaks.Replace(string(m.Radiogram)) != breaks.Replace(g) {
		return kit.Fail("the radiogram %q is kept as %q", g, string(m.Radiogram))
	}
	if len(m.KeyId) != 0 || len(m.CipherText) != 0 {
		return kit.Fail("parsing %q fills in a key (%q) or cipher text (%q)", g, string(m.KeyId), string(m.CipherText))
	}
	if m.GetInstance() != gramStation || len(m.Id) == 0 {
		return kit.Fail("the message of %q has no identifier or another instance", g)
	}
	r.StateOf(got, string(m.From), c.Form, string(m.PlainText))
	return nil
}

// execGramTaken takes the radiogram in as a message.
func execGramTaken(r *kit.Run, c gramCase) error {
	if c.ambiguous() {
		return nil
	}
	g := c.radiogram()
	p, err := gramStation.ParseRadiogram(g)
	if err != nil {
		return kit.Fail("the radiogram %q is not understood: %v", g, err)
	}
	k := blank(5, 350, "AA")
	addKey(k, mkKey("KKKKK", keyLetters(1, 350), "VJ", "VL", "SA6MWA/P", "DEX", "1A", "DEAD", "ADE"))
	addKey(k, mkKey("LLLLL", keyLetters(2, 350)))
	sent := strings.EqualFold(c.From, "AA")
	m, err := k.NewTextMessage(g)
	r.Step(1)
	if err != nil {
		return kit.Fail("the radiogram %q is not taken: %v", g, err)
	}
	to := krypto431.RunesToStrings(&p.Recipients)
	if len(to) == 0 && !sent {
		to = []string{"AA"}
	}
	if got := krypto431.RunesToStrings(&m.Recipients); !equal(got, to) {
		return kit.Fail("the radiogram %q makes a message to %q instead of %q", g, got, to)
	}
	a, b := p.DTG.Time, m.DTG.Time
	if string(m.From) != string(p.From) || string(m.PlainText) != string(p.PlainText) || string(m.Radiogram) != string(p.Radiogram) || (c.DTG != "" && !a.Equal(b)) || b.Sub(a) > time.Minute {
		return kit.Fail("the radiogram %q makes the message %s", g, msgString(m))
	}
	if sent != (len(m.KeyId) > 0) || sent != (len(m.CipherText) > 0) {
		return kit.Fail("the radiogram %q makes a message with the key %q", g, string(m.KeyId))
	}
	if len(k.Messages) != 1 || msgString(&k.Messages[0]) != msgString(m) {
		return kit.Fail("the radiogram %q leaves %d messages", g, len(k.Messages))
	}
	r.StateOf(to, string(m.From), sent, c.Form)
	return nil
}

func gramTaken(r *kit.Run, yield func(gramCase) bool) {
	for _, f := range gramForms {
		for _, to := range append(gramTos[:len(gramTos):len(gramTos)], []string{"AA"}, []string{"VJ", "AA"}) {
			for _, from := range []string{"BA", "SA6MWA/P", "A", "AAA", "AA"} {
				if from == "AA" && len(to) > 0 && to[len(to)-1] == "AA" {
					continue // to oneself
				}
				for _, d := range []string{"", "012345", "161810ADEC22"} {
					for cs := 0; cs < 3; cs++ {
						for ti, t := range []string{"HELLO WORLD", "hej, hur mar ni?", "3 man"} {
							c := f
							c.To, c.ToSep, c.Gap, c.From, c.DTG, c.Case = to, " ", " ", from, d, cs
							c.Eq, c.Text, c.End = gramEqs[ti%2], t, []string{" = K", "", "\n+\n"}[ti]
							if !yield(c) {
								return
							}
						}
					}
				}
			}
		}
	}
}

var gramTos = [][]string{nil, {"VJ"}, {"VJ", "VL"}, {"SA6MWA/P", "DEX", "1A"}, {"DEAD", "ADE"}}

var gramForms = func() []gramCase {
	var f []gramCase
	for _, l := range []string{"XY ZZ/P", "BA, VJ", ""} {
		for _, i := range []string{"", "COL", "COL MBS"} {
			for _, n := range []string{"", "3", "12345"} {
				f = append(f, gramCase{Form: "full", List: l, Instr: i, Count: n})
			}
		}
	}
	for _, l := range []string{"XY ZZ/P", "BA, VJ"} {
		for _, n := range []string{"", "3", "12345"} {
			f = append(f, gramCase{Form: "semi", List: l, Count: n})
		}
	}
	for _, i := range []string{"", "C", "MBS", "FLSH"} {
		for _, n := range []string{"", "3", "1234", "12345"} {
			f = append(f, gramCase{Form: "short", Instr: i, Count: n})
		}
	}
	return append(f, gramCase{Form: "mini"})
}()

var gramGaps = []string{" ", "\n", "  ", "\t", "\r\n", " \n "}
var gramEqs = [][2]string{{" ", " "}, {"", ""}, {"\n", "\n"}, {" ", "\r\n"}, {"  ", ""}, {"", "  "}}

var gramTexts = []string{
	"HELLO", "ABCDE FGHIJ KLMNO", "Hej, hur mår ni? - bra", "Jag tror de kommer", "VI SER DE TVA", "SECTION 1 = SECTION 2",
	"A B C D", "10 MAN MED 3 BILAR", "TACK", "X: 1+1 OCH 2/3", "RAD ETT\nRAD TVA\r\nRAD TRE", "DEN 24 DE KL 18.00 VID BRON. DE AA = JA",
	"de", "HEJ  DUBBELT", "NOT. VJ DE BA 010203 == XY == COL 2 = NEJ", "NOT VJ DE BA 010203 = NEJ", "ÅÄÖ", "SVAR = K = OCH + MER",
	"A == B == C = D", "AR", "K9", "LILLA k", "+1", "012345",
}

var gramEnds = []string{"", " = K", " K", " +", " = +", " [AR]", " = AR", "=K", " = k", " k", "\n= K\n", " = K \n\n", "\nK", "  =  K", "[ar]", "=+"}

func textDamagedByTrail(t, e string) bool {
	// texts that themselves end like an ending, when none follows
	u := strings.ToUpper(t)
	return e == "" && (strings.HasSuffix(u, " K") || strings.HasSuffix(u, "+") || strings.HasSuffix(u, "="))
}

func gramTexted(r *kit.Run, yield func(gramCase) bool) {
	// texts x endings x forms, few headers
	dtgs := []string{"", "012345", "161810ADEC22"}
	for _, f := range gramForms {
		for ti, to := range gramTos {
			for di, d := range dtgs {
				for gi, gap := range gramGaps {
					if r.Tier != "thorough" && gi > 0 && (ti+di)%3 != 0 {
						continue
					}
					for ei, eq := range gramEqs {
						if r.Tier != "thorough" && ei > 1 && gi > 0 {
							continue
						}
						for _, t := range gramTexts {
							for _, e := range gramEnds {
								if textDamagedByTrail(t, e) {
									continue
								}
								c := f
								c.To, c.ToSep, c.Gap, c.From, c.DTG, c.Eq, c.Text, c.End = to, " ", gap, "BA", d, eq, t, e
								if !yield(c) {
									return
								}
							}
						}
					}
				}
			}
		}
	}
}

// gramEnded: every ending with every spacing.
func gramEnded(r *kit.Run, yield func(gramCase) bool) {
	var ends []string
	for _, pre := range []string{"", " ", "\n", "  "} {
		for _, post := range []string{"", " ", "\n\n", "\r\n"} {
			for _, mid := range []string{"", " ", "\n", "  "} {
				for _, x := range []string{"K", "k", "+", "AR", "ar"} {
					ends = append(ends, pre+"="+mid+x+post)
				}
			}
			for _, x := range []string{"K", "k", "+"} {
				if pre != "" {
					ends = append(ends, pre+x+post)
				}
			}
			ends = append(ends, pre+"[AR]"+post, pre+"[ar]"+post)
		}
	}
	for _, f := range gramForms {
		for _, d := range []string{"", "161810ADEC22"} {
			for _, t := range gramTexts {
				for _, e := range ends {
					c := f
					c.To, c.ToSep, c.Gap, c.From, c.DTG, c.Eq, c.Text, c.End = []string{"VJ"}, " ", " ", "BA", d, gramEqs[0], t, e
					if !yield(c) {
						return
					}
				}
			}
		}
	}
}

func gramHeaded(r *kit.Run, yield func(gramCase) bool) {
	// headers x forms, few texts and endings
	dtgs := []string{"", "012345", "282359Z", "010000J", "151200N", "161810ADEC22", "010000ZJAN00", "312359YJUL68", "290200MFEB24", "050607jmay22"}
	seps := []string{" ", ",", ", ", "\n", "  ", "\t", ",,", " , ", "\r\n"}
	texts := []string{"HELLO WORLD", "vi ser de tva = bra", "3 man"}
	for _, f := range gramForms {
		for _, to := range gramTos {
			for si, sep := range seps {
				if si > 0 && len(to) < 2 {
					break
				}
				for _, lead := range []string{"", "\n ", "\t"} {
					for _, from := range []string{"BA", "SA6MWA/P", "DEAD", "1", "AA"} {
						for _, d := range dtgs {
							for gi, gap := range gramGaps {
								if r.Tier != "thorough" && gi > 1 && si > 1 {
									continue
								}
								for cs := 0; cs < 3; cs++ {
									if r.Tier != "thorough" && cs > 0 && gi > 0 {
										continue
									}
									for ti, t := range texts {
										c := f
										c.Lead, c.To, c.ToSep, c.Gap, c.From, c.DTG, c.Case = lead, to, sep, gap, from, d, cs
										c.Eq, c.Text, c.End = gramEqs[(gi+ti)%2], t, []string{" = K", "", "\n+\n"}[ti]
										if !yield(c) {
											return
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}
}

func gramDates(r *kit.Run, yield func(gramCase) bool) {
	// every zone letter, month, year and day, hour and minute
	add := func(d string) bool {
		for _, f := range []gramCase{{Form: "mini"}, {Form: "short"}, {Form: "semi", List: "XY QJ"}, {Form: "full", List: "XY", Instr: "COL", Count: "2"}} {
			f.To, f.ToSep, f.Gap, f.From, f.DTG, f.Eq, f.Text, f.End = []string{"VJ"}, " ", " ", "BA", d, [2]string{" ", " "}, "HELLO WORLD", " = K"
			for f.Case = 0; f.Case < 3; f.Case++ {
				if !yield(f) {
					return false
				}
			}
		}
		return true
	}
	two := func(n int) string { return string([]byte{byte('0' + n/10), byte('0' + n%10)}) }
	for z := byte('A'); z <= 'Z'; z++ {
		for _, d := range []string{"010000", "282359", "151230"} {
			if !add(d + string(z)) {
				return
			}
			for _, m := range monthNames {
				if !add(d + string(z) + m) {
					return
				}
				for y := 0; y < 100; y++ {
					if !add(d + string(z) + m + two(y)) {
						return
					}
				}
			}
		}
	}
	for d := 1; d <= 28; d++ {
		for h := 0; h < 24; h++ {
			for m := 0; m < 60; m++ {
				if !add(two(d) + two(h) + two(m)) {
					return
				}
			}
		}
	}
}

// ---------------------------------------------------------------- examples

type gramExample struct {
	Radiogram  string
	To         []string
	From, Text string
	DTG        string
}

var gramExamples = []gramExample{
	// the help text
	{"TO1 TO2 TO3 DE FROM 012345 = Hello, this is the body of the message = K", []string{"TO1", "TO2", "TO3"}, "FROM", "Hello, this is the body of the message", "012345"},
	{"DE FROM This is the shortest form.", nil, "FROM", "This is the shortest form.", ""},
	{"TO DE FROM 012345ZDEC22 COL 3 = ABCDE FGHIJ KLMNO = K", []string{"TO"}, "FROM", "ABCDE FGHIJ KLMNO", "012345ZDEC22"},
	{"TO DE FROM 012345 == TO2 TO3 == COL 2 = Hello world K", []string{"TO"}, "FROM", "Hello world", "012345"},
	{"TO DE FROM 012345 C = This is a broadcast message. +", []string{"TO"}, "FROM", "This is a broadcast message.", "012345"},
	{"DE FROM 012345 4 = ABCDE FGHIJ KLMNO QRSTU = K", nil, "FROM", "ABCDE FGHIJ KLMNO QRSTU", "012345"},
	// MESSAGE_FORMAT.md
	{"VJ VL VN DE BA 161810 15 =\nCGIFA ABCDE ABCDE ABCDE ABCDE\nABCDE ABCDE ABCDE ABCDE ABCDE\nABCDE ABCDE ABCDE ABCDE ABCDE\n= K", []string{"VJ", "VL", "VN"}, "BA", "CGIFA ABCDE ABCDE ABCDE ABCDE ABCDE ABCDE ABCDE ABCDE ABCDE ABCDE ABCDE ABCDE ABCDE ABCDE", "161810"},
	{"VJ VN DE BA == VJ VL VN 15 = TXT = K", []string{"VJ", "VN"}, "BA", "TXT", ""},
	{"VJ VN DE BA == VJ VL VN == MBS 15 = TXT = K", []string{"VJ", "VN"}, "BA", "TXT", ""},
	{"VJ DE BA 221745 COL 11 = TXT = K", []string{"VJ"}, "BA", "TXT", "221745"},
	// the comments of the forms
	{"AA BB CC DE DD 012345 == XY ZZ/P == COL 3 = ABCDE FGHIJ KLMNO = K", []string{"AA", "BB", "CC"}, "DD", "ABCDE FGHIJ KLMNO", "012345"},
	{"DE VP 012345 == BA == COL 3 = ABCDE FGHIJ KLMNO = K", nil, "VP", "ABCDE FGHIJ KLMNO", "012345"},
	{"AA DE BB 012345 == VJ QJ 3 = ABCDE FGHIJ KLMNO = K", []string{"AA"}, "BB", "ABCDE FGHIJ KLMNO", "012345"},
	{"AA DE BB 012345 == VJ QJ = HELLO WORLD = K", []string{"AA"}, "BB", "HELLO WORLD", "012345"},
	{"AA BB CC DE VJ 012345 COL = HELLO WORLD = SECTION 2 GOES HERE, INCLUDED IN TXT = K", []string{"AA", "BB", "CC"}, "VJ", "HELLO WORLD = SECTION 2 GOES HERE, INCLUDED IN TXT", "012345"},
	{"AA BB CC DE VJ 012345 = HELLO WORLD", []string{"AA", "BB", "CC"}, "VJ", "HELLO WORLD", "012345"},
	{"AA DE VJ = HELLO WORLD", []string{"AA"}, "VJ", "HELLO WORLD", ""},
	{"DE VJ = HELLO WORLD = K", nil, "VJ", "HELLO WORLD", ""},
	{"DE SA6MWA HELLO WORLD", nil, "SA6MWA", "HELLO WORLD", ""},
	{"AB DE ZY 012345 WELL, HELLO THERE = K", []string{"AB"}, "ZY", "WELL, HELLO THERE", "012345"},
}

func execGramExample(r *kit.Run, c gramExample) error {
	m, err := gramStation.ParseRadiogram(c.Radiogram)
	r.Step(1)
	if err != nil {
		return kit.Fail("the documented radiogram %q is not understood: %v", c.Radiogram, err)
	}
	var to []string
	for _, t := range m.Recipients {
		to = append(to, string(t))
	}
	if !equal(to, c.To) || string(m.From) != c.From || string(m.PlainText) != c.Text {
		return kit.Fail("the documented radiogram %q is understood as %q to %q, text %q", c.Radiogram, string(m.From), to, string(m.PlainText))
	}
	if c.DTG != "" && !m.DTG.Time.Equal(instant(c.DTG, time.Now())) {
		return kit.Fail("the documented radiogram %q is understood with the time %v", c.Radiogram, m.DTG.Time)
	}
	return nil
}

// ---------------------------------------------------------------- anything else

type gramAny struct{ Radiogram string }

func execGramAny(r *kit.Run, c gramAny) error {
	m, err := gramStation.ParseRadiogram(c.Radiogram)
	r.Step(1)
	if err == nil && m == nil {
		return kit.Fail("the radiogram %q gives neither an error nor a message", c.Radiogram)
	}
	if err != nil {
		r.Count("errors", 1)
		return nil
	}
	r.Count("messages", 1)
	// characters that are no valid text become the replacement character
	if breaks.Replace(string(m.Radiogram)) != string([]rune(breaks.Replace(c.Radiogram))) {
		return kit.Fail("the radiogram %q is kept as %q", c.Radiogram, string(m.Radiogram))
	}
	if strings.TrimSpace(string(m.From)) == "" {
		return kit.Fail("the radiogram %q is accepted without a sender", c.Radiogram)
	}
	r.StateOf(len(m.Recipients), string(m.From), string(m.PlainText))
	return nil
}

func gramTokens(r *kit.Run, yield func(gramAny) bool) {
	tokens := []string{"DE", "AA", "012345", "999999", "=", "==", "K", "+", "COL", "3", "Å", ",", "012345ZDEC22"}
	ok := sequences(len(tokens), 0, kit.Pick(r, 5, 6), func(s []int) bool {
		var w []string
		for _, x := range s {
			w = append(w, tokens[x])
		}
		return yield(gramAny{strings.Join(w, " ")})
	})
	if !ok {
		return
	}
	chars := []string{"D", "E", " ", "A", "0", "=", "+", "K", "\n", "\xff", "\u2028"}
	sequences(len(chars), 1, kit.Pick(r, 5, 6), func(s []int) bool {
		var b strings.Builder
		for _, x := range s {
			b.WriteString(chars[x])
		}
		return yield(gramAny{b.String()}) && yield(gramAny{"DE " + b.String()}) && yield(gramAny{"AA DE AA 012345 " + b.String()})
	})
}

func init() {
	kit.Register(&kit.Prop{
		ID: "C19", Level: "model_checking",
		Rule:   "a radiogram put together from known parts in one of the documented forms is parsed into exactly those parts; nothing else crashes the parser",
		Bounds: "all products of the listed addressee lists, separators, senders, date-time groups, forms, instructions, counts, texts, endings, spacings and letter cases; every zone letter, month, year, day, hour and minute; what a station keeps of them; all token sequences up to five (thorough six) tokens and all character strings up to five (six) characters",
		Assumptions: []string{
			"texts that the forms themselves make ambiguous are left out: mini-form texts whose beginning reads as an instruction, a group count or a date-time group, and texts ending like an ending",
			"line breaks of the radiogram may be kept as spaces",
		},
		Families: []*kit.Family{
			kit.F("examples", "every radiogram printed in the documentation", func(r *kit.Run, y func(gramExample) bool) {
				for _, e := range gramExamples {
					if !y(e) {
						return
					}
				}
			}, execGramExample).W(0.1),
			kit.F("texts", "texts x endings x forms x spacing", gramTexted, execGram).W(4),
			kit.F("endings", "endings with every spacing x texts x forms", gramEnded, execGram).W(1.5),
			kit.F("headers", "headers x forms x letter case", gramHeaded, execGram).W(4),
			kit.F("taken", "headers x forms x letter case, as messages received or sent", gramTaken, execGramTaken),
			kit.F("dates", "date-time groups", gramDates, execGram).W(1),
			kit.F("anything", "token and character strings", gramTokens, execGramAny).W(2),
		},
	})
}
