package checks

import (
	"os"
	"path/filepath"
	"strings"
	"time"

	"verif/kit"
)

// typedCase: a radiogram is typed on a terminal, line by line.
type typedCase struct {
	Receive bool // the traffic of another station, else a message of one's own
	Words   int  // how many words the text has
	Breaks  int  // bit i: a new line before word i+1
	Blank   int  `json:",omitempty"` // an empty line before this word
	Spaces  int  `json:",omitempty"` // 1: in front of lines, 2: behind them, 3: both
	Stop    int  `json:",omitempty"` // interrupted on this line, from 1
}

// No capital R: the terminal is asked where the cursor is while lines are
// typed, and takes it for the end of the answer.
var typedText = strings.Fields("Hej PA dig 17 ok Slut")

// lines as typed, the two empty ones at the end included
func (c typedCase) lines(radiogram string) []string {
	var lines []string
	for i, w := range strings.Fields(radiogram) {
		switch {
		case i == 0:
			lines = append(lines, w)
		case i == c.Blank:
			lines = append(lines, "", w)
		case c.Breaks&(1<<(i-1)) != 0:
			lines = append(lines, w)
		default:
			lines[len(lines)-1] += " " + w
		}
	}
	for i := range lines {
		if lines[i] != "" {
			lines[i] = strings.Repeat(" ", c.Spaces&1) + lines[i] + strings.Repeat(" ", c.Spaces>>1)
		}
	}
	return append(lines, "", "")
}

func execTyped(r *kit.Run, c typedCase) error {
	dir, done := r.Dir()
	defer done()
	file := filepath.Join(dir, "store")
	text := strings.Join(typedText[:c.Words], " ")
	from, own := "S1", "BB"
	when := time.Date(2026, 2, 17, 22, 59, 0, 0, time.UTC)
	station := func(call, keeper string) *K {
		k := blank(5, 60, call)
		for i := 0; i < 4; i++ {
			addKey(k, mkKey(keyID(1000+i, 5), keyLetters(i, 60), keeper))
		}
		return k
	}
	s := station(from, own)
	m := newMsg(s, text, own)
	m.DTG.Time = when
	kit.Must(m.Encipher())
	var radiogram string
	var k *K
	if c.Receive {
		k = station(own, from)
		_, traffic, ok := strings.Cut(m.String(), "=TRAFFIC=EXAMPLE=\n")
		if !ok {
			return kit.Fail("no example traffic is displayed for the message: %q", m.String())
		}
		radiogram = strings.ToLower(traffic)
	} else {
		k = station(from, own)
		radiogram = own + " DE " + from + " 172259ZFEB26 = " + text + " = K"
	}
	k.SetPersistence(file)
	kit.Must(k.SetPFKFromString(pfkHex))
	kit.Must(k.Save())
	before, err := os.ReadFile(file)
	kit.Must(err)
	var script []say
	lines := c.lines(radiogram)
	for i, l := range lines {
		x := say{"", l + enter, true}
		if i == 0 {
			x.Wait = "your call is " + k.CallSignString()
		}
		if c.Stop == i+1 {
			x.Send = l + "\x03"
		}
		script = append(script, x)
		if c.Stop == i+1 {
			break
		}
	}
	res := talk(cli(dir, "", "-K", pfkHex, "-f", file, "messages", "-n"), script...)
	r.Step(1)
	what := strings.Join(lines, "/")
	r.StateOf(what, c.Stop, res.Code)
	if res.Hung || strings.Contains(res.Out, "goroutine ") {
		return kit.Fail("%q: the program hangs or crashes: %s", what, trunc(res.Out))
	}
	if c.Stop > 0 {
		if res.Code == 0 {
			return kit.Fail("%q: interrupted on line %d, no error is reported", what, c.Stop)
		}
		after, err := os.ReadFile(file)
		if err != nil || string(after) != string(before) {
			return kit.Fail("%q: interrupted on line %d, and the store changed (%v)", what, c.Stop, err)
		}
		return nil
	}
	if res.Err != "" || res.Code != 0 {
		return kit.Fail("%q is not taken (%d): %s", what, res.Code, trunc(res.Out))
	}
	l, err := openAs(file, pfkHex)
	if err != nil {
		return kit.Fail("%q: the store does not open: %v", what, err)
	}
	if len(l.Messages) != 1 {
		return kit.Fail("%q: %d messages are stored", what, len(l.Messages))
	}
	g := &l.Messages[0]
	got := string(g.PlainText)
	spaced := !c.Receive && (c.Spaces > 0 || c.Blank > 0)
	if spaced { // more spaces in the text are more spaces to send
		got = strings.Join(strings.Fields(got), " ")
	}
	if got != text || g.JoinRecipients(",") != own || string(g.From) != from || !g.DTG.Time.Equal(when) {
		return kit.Fail("%q is stored as to %s from %s of %s: %q", what, g.JoinRecipients(","), string(g.From), g.DTG, trunc(string(g.PlainText)))
	}
	if spaced {
		m = g
	}
	if string(g.KeyId) != string(m.KeyId) || string(g.CipherText) != string(m.CipherText) {
		return kit.Fail("%q is stored with the cipher text %q %q, not %q %q", what, string(g.KeyId), string(g.CipherText), string(m.KeyId), string(m.CipherText))
	}
	for i := range l.Keys {
		if l.Keys[i].Used != (i == 0) {
			return kit.Fail("%q: key %s is marked used=%t", what, l.Keys[i].IdString(), l.Keys[i].Used)
		}
	}
	if _, shown, _ := strings.Cut(res.Out, "=TRAFFIC=EXAMPLE=\n"); !strings.Contains(strings.Join(strings.Fields(shown), ""), string(m.KeyId)+string(m.CipherText)) {
		return kit.Fail("%q: the traffic is not displayed: %q", what, trunc(shown))
	}
	return nil
}

func enumTyped(r *kit.Run, yield func(typedCase) bool) {
	for _, receive := range []bool{false, true} {
		words := kit.Pick(r, 1, 3) // and six or more words around them
		gaps := 6 + words
		if receive {
			gaps = 7 + 2 // group count and groups
		}
		for b := 0; b < 1<<gaps; b++ {
			if r.Tier != "thorough" && receive && b&3 != 0 && b&3 != 3 {
				continue
			}
			if !yield(typedCase{Receive: receive, Words: words, Breaks: b}) {
				return
			}
		}
		// long ones
		for words := 1; words <= len(typedText); words++ {
			for _, b := range []int{0, -1, 0x5555, 0xaaaa, 0xf0f0} {
				for sp := 0; sp < 4; sp++ {
					if !yield(typedCase{Receive: receive, Words: words, Breaks: b, Spaces: sp}) {
						return
					}
				}
			}
			for blank := 1; blank < 7+words; blank++ {
				if !yield(typedCase{Receive: receive, Words: words, Blank: blank}) {
					return
				}
			}
		}
		for stop := 1; stop <= 10; stop++ {
			if !yield(typedCase{Receive: receive, Words: 3, Breaks: -1, Stop: stop}) {
				return
			}
		}
	}
}
