package checks

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"os"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/sa6mwa/dtg"
	"github.com/sa6mwa/krypto431"
	"github.com/sa6mwa/krypto431/diana"
	"verif/kit"
)

// ---------------------------------------------------------------- reading printouts

func textLines(s string) []string {
	l := strings.Split(s, "\n")
	if len(l) > 0 && l[len(l)-1] == "" {
		l = l[:len(l)-1]
	}
	return l
}

func only(s string, c byte) bool { return s != "" && strings.Trim(s, string(c)) == "" }

func padTo(s string, n int) []rune {
	r := []rune(s)
	for len(r) < n {
		r = append(r, ' ')
	}
	return r
}

func keeperList(x *Key, none string) string {
	if len(x.Keepers) == 0 {
		return none
	}
	return strings.Join(krypto431.RunesToStrings(&x.Keepers), ",")
}

func recipientList(m *Msg, none string) string {
	if len(m.Recipients) == 0 {
		return none
	}
	return strings.Join(krypto431.RunesToStrings(&m.Recipients), ",")
}

// readGroups checks that what is printed are the letters in groups.
func readGroups(printed string, letters []rune, gs, width int) error {
	if width > 0 {
		for _, l := range textLines(printed) {
			if n := utf8.RuneCountInString(strings.TrimRight(l, " ")); n > width && n > gs {
				return kit.Fail("a line of groups is %d wide, configured are %d: %q", n, width, l)
			}
		}
	}
	groups := strings.Fields(printed)
	if got := strings.Join(groups, ""); got != string(letters) {
		return kit.Fail("the letters %q are printed as %q", trunc(string(letters)), trunc(printed))
	}
	for i, g := range groups {
		if n := utf8.RuneCountInString(g); n != gs && (i < len(groups)-1 || n > gs) {
			return kit.Fail("group %d has %d letters, the group size is %d: %q", i, n, gs, trunc(printed))
		}
	}
	return nil
}

var tableLines = textLines(diana.ReciprocalTable)
var footerLines = textLines(krypto431.KeyFooter)

// readKey checks the printed form of one key, given in lines.
func readKey(l []string, x *Key) error {
	k := x.GetInstance()
	all := strings.Join(l, "\n")
	if len(l) < 3+len(footerLines) || !only(l[0], '_') || !only(l[2], '-') {
		return kit.Fail("a printed key has not the form of one: %q", all)
	}
	cols := len(l[0])
	h := l[1]
	id := string(x.Id)
	if !strings.HasPrefix(h, id+" ") {
		return kit.Fail("the key %q is printed with the head %q", id, h)
	}
	mark := " "
	if x.Used {
		mark = "X"
	}
	want := "/ KEEPERS: " + keeperList(x, "NIL") + " / EXPIRES: " + x.Expires.String() + " / CREATED: " + x.Created.String() + " / USED: [" + mark + "]"
	if strings.TrimSpace(h[len(id):]) != want {
		return kit.Fail("the key %q is printed with the head\n  %s\nand not with\n  %s", id, h, want)
	}
	if utf8.RuneCountInString(h) > cols {
		return kit.Fail("the head of key %q is wider than the printout", id)
	}
	// legend
	foot := l[len(l)-len(footerLines):]
	for i := range foot {
		if strings.TrimRight(foot[i], " ") != strings.TrimRight(footerLines[i], " ") {
			return kit.Fail("the legend of key %q is printed as %q", id, foot[i])
		}
	}
	// groups on the left, the table on the right
	body := l[3 : len(l)-len(footerLines)]
	tw := 0
	for _, t := range tableLines {
		if n := utf8.RuneCountInString(t); n > tw {
			tw = n
		}
	}
	if cols < tw {
		return kit.Fail("the printout of key %q is narrower than the table", id)
	}
	at, left := -1, ""
	for i, b := range body {
		r := padTo(b, cols)
		if len(r) > cols {
			return kit.Fail("a line of key %q is wider than the printout: %q", id, b)
		}
		right := strings.TrimRight(string(r[cols-tw:]), " ")
		if at < 0 && right == strings.TrimRight(tableLines[0], " ") {
			at = i
		}
		if at >= 0 && i-at < len(tableLines) {
			if right != strings.TrimRight(tableLines[i-at], " ") {
				return kit.Fail("line %d of the table of key %q is printed as %q", i-at, id, right)
			}
		} else if right != "" {
			return kit.Fail("beside the table of key %q is printed %q", id, right)
		}
		left += string(r[:cols-tw]) + "\n"
	}
	if at < 0 || len(body)-at < len(tableLines) {
		return kit.Fail("the trigraph table is missing or incomplete on key %q", id)
	}
	return readGroups(left, x.Runes, k.GroupSize, k.KeyColumns)
}

// readKeys finds the selected keys in a text printout.
func readKeys(s string, want []*Key) error {
	l := textLines(s)
	var at []int
	for i := 0; i+2 < len(l); i++ {
		if only(l[i], '_') && only(l[i+2], '-') {
			at = append(at, i)
		}
	}
	if len(at) != len(want) {
		return kit.Fail("%d keys were selected, %d are printed", len(want), len(at))
	}
	if len(at) > 0 && at[0] != 0 {
		return kit.Fail("the printout of keys begins with %q", l[0])
	}
	left := append([]*Key(nil), want...)
	for n, i := range at {
		end := len(l)
		if n+1 < len(at) {
			end = at[n+1]
		}
		b := l[i:end]
		for len(b) > 0 && strings.TrimSpace(b[len(b)-1]) == "" {
			b = b[:len(b)-1]
		}
		id, _, _ := strings.Cut(b[1], " ")
		found := false
		for j, x := range left {
			if string(x.Id) == id {
				if err := readKey(b, x); err != nil {
					return err
				}
				left = append(left[:j:j], left[j+1:]...)
				found = true
				break
			}
		}
		if !found {
			return kit.Fail("the key %q is printed but was not selected, or is printed twice", id)
		}
	}
	return nil
}

// readMessage checks the printed form of one message, given in lines.
func readMessage(l []string, m *Msg, width int) error {
	all := strings.Join(l, "\n")
	if len(l) < 3 || !only(l[0], '_') {
		return kit.Fail("a printed message has not the form of one: %q", all)
	}
	f := strings.Fields(l[1])
	if len(f) != 3 || f[0] != m.DTG.String() || f[1] != "TO:" || f[2] != recipientList(m, "NIL") {
		return kit.Fail("the message %q of %s to %s is printed with %q", string(m.Id), m.DTG, recipientList(m, "NIL"), l[1])
	}
	f = strings.Fields(l[2])
	want := []string{"ID:", string(m.Id), "FROM", "(DE):", string(m.From)}
	if len(m.From) == 0 {
		want = want[:4]
	}
	if !equal(f, want) {
		return kit.Fail("the message %q from %q is printed with %q", string(m.Id), string(m.From), l[2])
	}
	// sections
	sect := map[string]string{}
	name := ""
	for _, x := range l[3:] {
		if x == "=TEXT=" || x == "=CIPHER=" || x == "=TRAFFIC=EXAMPLE=" {
			if _, dup := sect[x]; dup {
				return kit.Fail("the message %q is printed with %s twice", string(m.Id), x)
			}
			name = x
			sect[name] = ""
			continue
		}
		if name == "" {
			return kit.Fail("the message %q is printed with the line %q", string(m.Id), x)
		}
		sect[name] += x + "\n"
		if width > 0 && utf8.RuneCountInString(x) > width && len(strings.Fields(x)) > 1 {
			return kit.Fail("a line of message %q is wider than %d: %q", string(m.Id), width, x)
		}
	}
	if !equal(strings.Fields(sect["=TEXT="]), strings.Fields(string(m.PlainText))) {
		return kit.Fail("the text %q of message %q is printed as %q", trunc(string(m.PlainText)), string(m.Id), trunc(sect["=TEXT="]))
	}
	var groups []string
	if len(m.CipherText) > 0 {
		groups = append(groups, string(m.KeyId))
		c, gs := m.CipherText, m.GetInstance().GroupSize
		for len(c) > gs {
			groups = append(groups, string(c[:gs]))
			c = c[gs:]
		}
		groups = append(groups, string(c))
	}
	if !equal(strings.Fields(sect["=CIPHER="]), groups) {
		return kit.Fail("the cipher text %q %q of message %q is printed as %q", string(m.KeyId), trunc(string(m.CipherText)), string(m.Id), trunc(sect["=CIPHER="]))
	}
	if len(groups) > 0 {
		var tr []string
		tr = append(tr, krypto431.RunesToStrings(&m.Recipients)...)
		tr = append(append(tr, "DE", string(m.From), m.DTG.String(), strconv.Itoa(len(groups)), "="), groups...)
		tr = append(tr, "=", "K")
		if !equal(strings.Fields(sect["=TRAFFIC=EXAMPLE="]), tr) {
			return kit.Fail("the traffic of message %q is printed as %q", string(m.Id), trunc(sect["=TRAFFIC=EXAMPLE="]))
		}
	} else if sect["=TRAFFIC=EXAMPLE="] != "" {
		return kit.Fail("traffic is printed for message %q that was never enciphered", string(m.Id))
	}
	return nil
}

func readMessages(s string, want []*Msg) error {
	l := textLines(s)
	var at []int
	for i := 0; i+2 < len(l); i++ {
		if only(l[i], '_') && strings.HasPrefix(l[i+2], "ID:") {
			at = append(at, i)
		}
	}
	if len(at) != len(want) {
		return kit.Fail("%d messages were selected, %d are printed", len(want), len(at))
	}
	left := append([]*Msg(nil), want...)
	for n, i := range at {
		end := len(l)
		if n+1 < len(at) {
			end = at[n+1]
		}
		b := l[i:end]
		for len(b) > 0 && b[len(b)-1] == "" {
			b = b[:len(b)-1]
		}
		f := strings.Fields(b[2])
		found := false
		for j, m := range left {
			if len(f) > 1 && string(m.Id) == f[1] {
				if err := readMessage(b, m, 0); err != nil {
					return err
				}
				left = append(left[:j:j], left[j+1:]...)
				found = true
				break
			}
		}
		if !found {
			return kit.Fail("the message %q is printed but was not selected, or is printed twice", b[2])
		}
	}
	return nil
}

func readKeyLine(line string, x *Key) error {
	yes := func(b bool) string {
		if b {
			return "Yes"
		}
		return "No"
	}
	f := strings.Fields(line)
	want := append([]string{string(x.Id), keeperList(x, "Anonymous"), x.Created.String(), x.Expires.String(), yes(x.Used), yes(x.Compromised)}, strings.Fields(string(x.Comment))...)
	if !equal(f, want) {
		return kit.Fail("the key %s is listed as %q", strings.Join(want, "|"), line)
	}
	return nil
}

func readMessageLine(line string, m *Msg) error {
	from := string(m.From)
	if from == "" {
		from = "NIL"
	}
	want := []string{string(m.Id), m.DTG.String(), recipientList(m, "NIL"), from}
	rest := line
	for _, w := range want {
		rest = strings.TrimLeft(rest, " ")
		if !strings.HasPrefix(rest, w+" ") {
			return kit.Fail("the message %s is listed as %q", strings.Join(want, "|"), line)
		}
		rest = rest[len(w):]
	}
	// the digest is the beginning of text and cipher text
	text := []rune(strings.NewReplacer("\r", "", "\n", "").Replace(string(m.PlainText) + string(m.CipherText)))
	d := []rune(strings.TrimSpace(rest))
	cut := len(d) > 0 && d[len(d)-1] == '…'
	if cut {
		d = d[:len(d)-1]
	}
	t := strings.TrimLeft(string(text), " ")
	if !cut && strings.TrimRight(t, " ") != string(d) || cut && (!strings.HasPrefix(t, string(d)) || len(d) < 20) {
		return kit.Fail("the text %q is listed as %q", trunc(string(text)), rest)
	}
	return nil
}

// ---------------------------------------------------------------- PDF

var pdfStream = regexp.MustCompile(`(?s)stream\n(.*?)\nendstream`)
var pdfMove = regexp.MustCompile(`([-0-9.]+) ([-0-9.]+) Td`)

type pdfLine struct {
	page int
	x, y float64
	text string
}

// readPDF extracts the lines of text of a PDF, and the number of pages.
func readPDF(b []byte) ([]pdfLine, int, error) {
	var lines []pdfLine
	pages := 0
	for _, m := range pdfStream.FindAllSubmatch(b, -1) {
		z, err := zlib.NewReader(bytes.NewReader(m[1]))
		if err != nil {
			continue
		}
		s, err := io.ReadAll(z)
		if err != nil || !bytes.Contains(s, []byte(" Tf ET")) {
			continue
		}
		pages++
		// the operators, strings skipped over
		x, y := 0.0, 0.0
		inText := false
		for i := 0; i < len(s); {
			switch {
			case s[i] == '(':
				var raw []byte
				j := i + 1
				for ; j < len(s) && s[j] != ')'; j++ {
					if s[j] == '\\' {
						j++
						if s[j] == 'r' {
							raw = append(raw, '\r')
							continue
						}
					}
					raw = append(raw, s[j])
				}
				var t []rune
				for q := 0; q+1 < len(raw); q += 2 {
					t = append(t, rune(raw[q])<<8|rune(raw[q+1]))
				}
				if n := len(lines); n > 0 && inText {
					lines[n-1].text += string(t)
				} else {
					lines = append(lines, pdfLine{pages, x, y, string(t)})
				}
				inText = true
				i = j + 1
			case bytes.HasPrefix(s[i:], []byte("BT ")):
				end := bytes.IndexByte(s[i:], '(')
				head := s[i:]
				if end >= 0 {
					head = s[i : i+end]
				}
				if m := pdfMove.FindSubmatch(head); m != nil {
					x, _ = strconv.ParseFloat(string(m[1]), 64)
					y, _ = strconv.ParseFloat(string(m[2]), 64)
				}
				i += 3
				inText = false
			default:
				i++
			}
		}
	}
	if pages == 0 {
		return nil, 0, kit.Fail("the PDF has no readable page")
	}
	return lines, pages, nil
}

var pdfFont = regexp.MustCompile(`BT /F\S+ ([0-9.]+) Tf ET`)

// checkPDF compares the words in a PDF with the words of the printed items.
func checkPDF(b []byte, items []string, size float64) error {
	lines, _, err := readPDF(b)
	if err != nil {
		return err
	}
	var words []string
	for _, l := range lines {
		if l.y < 20 || l.y > 842 || l.x < 0 || l.x+float64(utf8.RuneCountInString(strings.TrimRight(l.text, " ")))*size*0.6002 > 595.3 {
			return kit.Fail("the line %q lies outside page %d (at %.0f %.0f)", l.text, l.page, l.x, l.y)
		}
		words = append(words, strings.Fields(l.text)...)
	}
	// no two lines of a page may lie over each other
	for i := 1; i < len(lines); i++ {
		a, b := lines[i-1], lines[i]
		if a.page == b.page && b.y > a.y-size*0.8 && !(b.y == a.y && b.x > a.x) {
			return kit.Fail("the lines %q and %q of page %d lie over each other", a.text, b.text, a.page)
		}
	}
	squeeze := func(w []string) string {
		var o strings.Builder
		for _, x := range w {
			if !only(x, '_') && !only(x, '-') {
				o.WriteString(x)
			}
		}
		return o.String()
	}
	long := false
	total := 0
	for _, it := range items {
		for _, w := range strings.Fields(it) {
			if utf8.RuneCountInString(w) > 80 && !only(w, '_') && !only(w, '-') {
				long = true
			}
		}
	}
	join := func(w []string) string {
		if long {
			return squeeze(w)
		}
		var o []string
		for _, x := range w {
			if !only(x, '_') && !only(x, '-') {
				o = append(o, x)
			}
		}
		return " " + strings.Join(o, " ") + " "
	}
	all := join(words)
	rest := all
	for _, it := range items {
		w := join(strings.Fields(it))
		n := strings.Count(all, w)
		if n == 0 {
			return kit.Fail("an item is missing or damaged in the PDF: %s", trunc(it))
		}
		rest = strings.Replace(rest, strings.Trim(w, " "), "", 1)
		total += len(strings.Fields(w))
	}
	if strings.TrimSpace(rest) != "" {
		return kit.Fail("the PDF holds more than the selected items: %s", trunc(rest))
	}
	return nil
}

// ---------------------------------------------------------------- cases

// printKey describes a key to print.
type printKey struct {
	Len     int
	Keepers int
	Wide    int `json:",omitempty"` // letters of a call-sign
	Used    bool
	Comp    bool
	Comment int `json:",omitempty"`
	When    int `json:",omitempty"`
}

var whens = []time.Time{
	time.Date(2026, 3, 4, 5, 6, 7, 8, time.UTC),
	time.Date(2026, 12, 31, 23, 59, 0, 0, time.FixedZone("", 3600)),
	time.Date(2000, 1, 1, 0, 0, 0, 0, time.FixedZone("", -12*3600)),
	time.Date(2068, 2, 29, 12, 0, 0, 0, time.FixedZone("", 12*3600)),
}

var comments = []string{"", "c", "made for the exercise in May, two copies", "åäö ÅÄÖ é"}

func callSign(i, wide int) string {
	s := "S" + strconv.Itoa(i) + "X"
	for len(s) < wide {
		s += "Q"
	}
	return s
}

func (p printKey) make(k *K, i int) Key {
	var keepers []string
	for j := 0; j < p.Keepers; j++ {
		keepers = append(keepers, callSign(j, p.Wide))
	}
	x := mkKey(textCase{GS: k.GroupSize}.id(i), keyLetters(i, p.Len), keepers...)
	x.Used, x.Compromised = p.Used, p.Comp
	x.Comment = []rune(comments[p.Comment])
	x.Created.Time = whens[p.When]
	x.Expires.Time = whens[(p.When+1)%len(whens)]
	return x
}

type printKeys struct {
	GS, Cols, KeyCols int
	Keys              []printKey
	Select            int `json:",omitempty"` // 0: all, otherwise a set of indexes plus one bit
	PDF               bool
	MaxPDF            int `json:",omitempty"`
}

func (c printKeys) selected(i int) bool { return c.Select == 0 || c.Select>>uint(i)&1 == 1 }

func execPrintKeys(r *kit.Run, c printKeys) error {
	k := blank(c.GS, 350, "AA")
	k.Columns, k.KeyColumns = c.Cols, c.KeyCols
	for i, p := range c.Keys {
		addKey(k, p.make(k, i))
	}
	before := storeSnap(k)
	chosen := map[string]bool{}
	var want []*Key
	for i := range k.Keys {
		if c.selected(i) {
			chosen[string(k.Keys[i].Id)] = true
			want = append(want, &k.Keys[i])
		}
	}
	filter := func(x *Key) bool { return chosen[string(x.Id)] }
	r.Step(len(want))
	if c.PDF {
		dir, done := r.Dir()
		defer done()
		file := dir + "/keys.pdf"
		if err := k.KeysPDF(filter, file); err != nil {
			return kit.Fail("printing keys to PDF: %v", err)
		}
		b, err := os.ReadFile(file)
		if err != nil {
			if len(want) == 0 && os.IsNotExist(err) {
				return nil
			}
			return kit.Fail("the PDF can not be read: %v", err)
		}
		var items []string
		for _, x := range want {
			s := x.String()
			if err := readKey(trimEnd(textLines(s)), x); err != nil {
				return err
			}
			items = append(items, s)
		}
		if err := checkPDF(b, items, 8); err != nil {
			return err
		}
		r.StateOf("pdf", len(want), len(b))
		return nil
	}
	s := k.KeysAsText(filter)
	if err := readKeys(s, want); err != nil {
		return err
	}
	for _, x := range want {
		g, err := x.Groups()
		if err != nil {
			return kit.Fail("groups of a key: %v", err)
		}
		if err := readGroups(string(*g), x.Runes, c.GS, 0); err != nil {
			return err
		}
		g, err = x.GroupsBlock()
		if err != nil {
			return kit.Fail("group block of a key: %v", err)
		}
		if err := readGroups(string(*g), x.Runes, c.GS, c.KeyCols); err != nil {
			return err
		}
	}
	_, lines := k.SummaryOfKeys(filter)
	if len(lines) != len(want) {
		return kit.Fail("%d keys were selected, %d are listed", len(want), len(lines))
	}
	for i := range lines {
		// any order
		var err error
		for _, x := range want {
			if strings.HasPrefix(string(lines[i]), string(x.Id)+" ") {
				err = readKeyLine(string(lines[i]), x)
				goto found
			}
		}
		err = kit.Fail("the line %q is listed for no selected key", string(lines[i]))
	found:
		if err != nil {
			return err
		}
		for j := range lines[:i] {
			if string(lines[i]) == string(lines[j]) {
				return kit.Fail("the line %q is listed twice", string(lines[i]))
			}
		}
	}
	if d := diff(before, storeSnap(k)); d != "" {
		return kit.Fail("printing and listing changes the store: %s", d)
	}
	r.StateOf(len(s), len(want), c.Cols, c.KeyCols, c.GS)
	return nil
}

func trimEnd(l []string) []string {
	for len(l) > 0 && strings.TrimSpace(l[len(l)-1]) == "" {
		l = l[:len(l)-1]
	}
	return l
}

func enumPrintLayouts(r *kit.Run, yield func(printKeys) bool) {
	// one key in every layout
	for _, gs := range []int{1, 2, 3, 4, 5, 6, 7, 10, 20, 26} {
		for _, cols := range []int{85, 86, 90, 99, 110, 111, 112, 113, 120, 150, 200, 400} {
			for kc := gs; kc <= 150; kc++ {
				if kc > 40 && kc%7 != 0 && r.Tier != "thorough" {
					continue
				}
				for _, l := range []int{20, 50, 350, 700, 1400} {
					if r.Tier != "thorough" && (kc+l/10+cols)%3 != 0 {
						continue
					}
					n := (l + gs - 1) / gs * gs
					if !yield(printKeys{GS: gs, Cols: cols, KeyCols: kc, Keys: []printKey{{Len: n, Keepers: 1, Used: kc%2 == 0}}}) {
						return
					}
				}
			}
		}
	}
	// every number of lines
	for l := 5; l <= kit.Pick(r, 2000, 4000); l += 5 {
		for _, kc := range []int{5, 11, 30} {
			if !yield(printKeys{GS: 5, Cols: 110, KeyCols: kc, Keys: []printKey{{Len: l, Keepers: 2}}}) {
				return
			}
		}
	}
}

func enumPrintHeads(r *kit.Run, yield func(printKeys) bool) {
	for _, cols := range []int{85, 97, 110, 130} {
		for keepers := 0; keepers <= 40; keepers++ {
			for _, wide := range []int{2, 5, 9, 30} {
				for _, gs := range []int{1, 5, 11} {
					for m := 0; m < 16; m++ {
						if r.Tier != "thorough" && (keepers+wide+m)%2 != 0 {
							continue
						}
						if !yield(printKeys{GS: gs, Cols: cols, KeyCols: 30, Keys: []printKey{{Len: 10 * gs, Keepers: keepers, Wide: wide, Used: m&1 != 0, Comp: m&2 != 0, Comment: m % 4, When: m / 4}}}) {
							return
						}
					}
				}
			}
		}
	}
}

func enumPrintSets(r *kit.Run, yield func(printKeys) bool) {
	// all selections from small stores of unlike keys
	kinds := []printKey{{Len: 20}, {Len: 350, Keepers: 2, Used: true, When: 1}, {Len: 55, Keepers: 9, Wide: 9, Comp: true, Comment: 2, When: 2}, {Len: 900, Keepers: 1, Comment: 3, When: 3}}
	sequences(len(kinds), 1, 4, func(s []int) bool {
		var ks []printKey
		for _, x := range s {
			ks = append(ks, kinds[x])
		}
		for sel := 1 << uint(len(s)); sel < 2<<uint(len(s)); sel++ {
			if !yield(printKeys{GS: 5, Cols: 110, KeyCols: 30, Keys: ks, Select: sel}) {
				return false
			}
		}
		return true
	})
}

func enumPrintPDF(r *kit.Run, yield func(printKeys) bool) {
	// every number of keys of every kind over the ends of pages
	kinds := []printKey{{Len: 20}, {Len: 350, Keepers: 2, Used: true, When: 1}, {Len: 900, Keepers: 30, Wide: 5}, {Len: 2000, Keepers: 1}}
	for _, n := range []int{1, 2, 3, 4, 5, 7, 10} {
		for a := range kinds {
			for b := range kinds {
				for _, w := range [][2]int{{110, 30}, {85, 5}, {112, 29}, {150, 60}} {
					if r.Tier != "thorough" && n > 3 && w[0] != 110 {
						continue
					}
					var ks []printKey
					for i := 0; i < n; i++ {
						x := kinds[a]
						if i%2 == 1 {
							x = kinds[b]
						}
						ks = append(ks, x)
					}
					if !yield(printKeys{GS: 5, Cols: w[0], KeyCols: w[1], Keys: ks, PDF: true}) {
						return
					}
				}
			}
		}
	}
	// all sequences of three sizes
	sequences(len(kinds), 3, kit.Pick(r, 4, 6), func(s []int) bool {
		var ks []printKey
		for _, x := range s {
			ks = append(ks, kinds[x])
		}
		return yield(printKeys{GS: 5, Cols: 110, KeyCols: 30, Keys: ks, PDF: true, Select: (1<<uint(len(s)+1) - 1) &^ (len(s) % 2)})
	})
	for l := 300; l < kit.Pick(r, 1000, 2400); l += 25 {
		if !yield(printKeys{GS: 5, Cols: 110, KeyCols: 30, Keys: []printKey{{Len: l}, {Len: 350}, {Len: l}}, PDF: true}) {
			return
		}
	}
}

// printMsg describes a message to print.
type printMsg struct {
	Kind  int // 0: enciphered, 1: received plain, 2: enciphered with several keys, 3: received cipher without a key, 4: empty
	Text  int
	Len   int `json:",omitempty"`
	To    int
	Wide  int `json:",omitempty"`
	From  int `json:",omitempty"`
	When  int `json:",omitempty"`
	NoKey bool
}

var printTexts = []string{
	"HELLO WORLD", "A", "Vi ses vid bron, klockan 18.00. De kommer / HEJ: 1+1 ?", "DUBBLA  MELLANSLAG   HAR",
	"ORDSOMALDRIGTARSLUTORDSOMALDRIGTARSLUTORDSOMALDRIGTARSLUTORDSOMALDRIGTARSLUTORDSOMALDRIGTARSLUTORDSOMALDRIGTARSLUTORDSOMALDRIGTARSLUT",
	"12 34 56 78 90",
}

var receivedTexts = []string{"TAB\tHERE", "é ü ñ ß", "= LIKA =", "HELLO_THERE - X"}

func (p printMsg) text() string {
	var t string
	if p.Text < len(printTexts) {
		t = printTexts[p.Text]
	} else {
		t = receivedTexts[p.Text-len(printTexts)]
	}
	if p.Len > 0 {
		r := []rune(strings.Repeat(t+" ", p.Len/utf8.RuneCountInString(t)+2))[:p.Len]
		t = strings.TrimSpace(string(r))
	}
	return t
}

type printMsgs struct {
	GS     int
	Width  int `json:",omitempty"`
	Msgs   []printMsg
	Select int `json:",omitempty"`
	PDF    bool
	Whole  bool `json:",omitempty"` // as text of the whole store
}

func (c printMsgs) build() (*K, error) {
	k := blank(c.GS, 90, "AA")
	k.Columns, k.KeyColumns = 110, 30
	n := 0
	for i, p := range c.Msgs {
		var to []string
		for j := 0; j < p.To; j++ {
			to = append(to, callSign(j, p.Wide))
		}
		m := Msg{Id: []rune(keyID(i+3, 4)), Recipients: runes2(to), From: []rune(callSign(7, p.From)), DTG: dtg.DTG{Time: whens[p.When]}}
		m.SetInstance(k)
		text := p.text()
		switch p.Kind {
		case 0, 2:
			m.PlainText = []rune(text)
			s := blank(c.GS, 90, "AA")
			for j := 0; j < len(text)*5/60+3; j++ {
				addKey(s, mkKey(textCase{GS: c.GS}.id(n), keyLetters(n, 90), to...))
				n++
			}
			m.SetInstance(s)
			if err := m.Encipher(); err != nil {
				return nil, kit.Broken("encipher: %v", err)
			}
			m.SetInstance(k)
			for j := range s.Keys {
				addKey(k, s.Keys[j])
			}
		case 1:
			m.PlainText = []rune(text)
		case 3:
			m.PlainText = []rune("QQQQQ ABCDE FGHIJ")
		}
		k.Messages = append(k.Messages, m)
	}
	return k, nil
}

func execPrintMsgs(r *kit.Run, c printMsgs) error {
	k, err := c.build()
	if err != nil {
		return err
	}
	before := storeSnap(k)
	var want []*Msg
	chosen := map[string]bool{}
	for i := range k.Messages {
		if c.Select == 0 || c.Select>>uint(i)&1 == 1 {
			want = append(want, &k.Messages[i])
			chosen[string(k.Messages[i].Id)] = true
		}
	}
	filter := func(m *Msg) bool { return chosen[string(m.Id)] }
	r.Step(len(want))
	if c.PDF {
		dir, done := r.Dir()
		defer done()
		file := dir + "/msgs.pdf"
		if err := k.MessagesPDF(filter, file); err != nil {
			return kit.Fail("printing messages to PDF: %v", err)
		}
		b, err := os.ReadFile(file)
		if err != nil {
			if len(want) == 0 && os.IsNotExist(err) {
				return nil
			}
			return kit.Fail("the PDF can not be read: %v", err)
		}
		var items []string
		for _, m := range want {
			s := m.String(95)
			if err := readMessage(trimEnd(textLines(s)), m, 0); err != nil {
				return err
			}
			items = append(items, s)
		}
		if err := checkPDF(b, items, 9); err != nil {
			return err
		}
		r.StateOf("pdf", len(want), len(b))
		return nil
	}
	for _, m := range want {
		var s string
		if c.Width > 0 {
			s = m.String(c.Width)
		} else {
			s = m.String()
		}
		if err := readMessage(trimEnd(textLines(s)), m, 0); err != nil {
			return err
		}
		g, err := m.Groups()
		if err == nil {
			err = readGroups(string(*g), m.CipherText, c.GS, 0)
		}
		if err != nil {
			return err
		}
		g, err = m.GroupsBlock()
		if err == nil {
			err = readGroups(string(*g), m.CipherText, c.GS, k.Columns)
		}
		if err != nil {
			return err
		}
		r.StateOf(len(s), c.Width, len(m.Recipients))
	}
	if c.Whole {
		if err := readMessages(k.MessagesAsText(filter), want); err != nil {
			return err
		}
	}
	if d := diff(before, storeSnap(k)); d != "" {
		return kit.Fail("printing changes the store: %s", d)
	}
	_, lines := k.SummaryOfMessages(filter)
	if len(lines) != len(want) {
		return kit.Fail("%d messages were selected, %d are listed", len(want), len(lines))
	}
	seen := map[string]bool{}
	for i := range lines {
		id, _, _ := strings.Cut(string(lines[i]), " ")
		err = kit.Fail("the line %q is listed for no selected message, or twice", string(lines[i]))
		for _, m := range want {
			if string(m.Id) == id && !seen[id] {
				seen[id] = true
				err = readMessageLine(string(lines[i]), m)
				break
			}
		}
		if err != nil {
			return err
		}
	}
	if d := diff(before, storeSnap(k)); d != "" {
		return kit.Fail("listing changes the store: %s", d)
	}
	return nil
}

func enumMsgLayouts(r *kit.Run, yield func(printMsgs) bool) {
	for _, gs := range []int{2, 3, 5, 8} {
		for w := 0; w <= kit.Pick(r, 140, 300); w++ {
			for t := range printTexts {
				for kind := 0; kind < 2; kind++ {
					if r.Tier != "thorough" && (w+t+kind+gs)%3 != 0 {
						continue
					}
					for _, l := range []int{0, 40, 130} {
						if !yield(printMsgs{GS: gs, Width: w, Msgs: []printMsg{{Kind: kind, Text: t, Len: l, To: 1}}}) {
							return
						}
					}
				}
			}
		}
	}
	// every length
	for l := 1; l <= kit.Pick(r, 400, 1000); l++ {
		for t := range printTexts {
			if !yield(printMsgs{GS: 5, Msgs: []printMsg{{Text: t, Len: l, To: 2}}}) {
				return
			}
		}
	}
	for t := len(printTexts); t < len(printTexts)+len(receivedTexts); t++ {
		for l := 0; l < 120; l++ {
			if !yield(printMsgs{GS: 5, Msgs: []printMsg{{Kind: 1, Text: t, Len: l, To: 2}}}) {
				return
			}
		}
	}
}

func enumMsgHeads(r *kit.Run, yield func(printMsgs) bool) {
	for _, w := range []int{0, 1, 40, 80, 95, 200} {
		for to := 0; to <= 40; to++ {
			for _, wide := range []int{2, 5, 9, 30} {
				for _, from := range []int{2, 9, 30, 60} {
					for kind := 0; kind < 5; kind++ {
						if r.Tier != "thorough" && (to+wide+from+kind)%2 != 0 {
							continue
						}
						if !yield(printMsgs{GS: 5, Width: w, Msgs: []printMsg{{Kind: kind, To: to, Wide: wide, From: from, When: (to + kind) % 4}}}) {
							return
						}
					}
				}
			}
		}
	}
}

func enumMsgSets(r *kit.Run, yield func(printMsgs) bool) {
	kinds := []printMsg{{}, {Kind: 1, Text: 2, To: 2, When: 1}, {Kind: 2, Text: 2, Len: 200, To: 9, Wide: 9, From: 9, When: 2}, {Kind: 3, To: 1, When: 3}, {Kind: 4, To: 1}}
	sequences(len(kinds), 1, 4, func(s []int) bool {
		var ms []printMsg
		for _, x := range s {
			ms = append(ms, kinds[x])
		}
		for sel := 1 << uint(len(s)); sel < 2<<uint(len(s)); sel++ {
			if r.Tier != "thorough" && len(s) == 4 && sel%3 != s[0]%3 {
				continue
			}
			if !yield(printMsgs{GS: 5, Msgs: ms, Select: sel, Whole: true}) {
				return false
			}
		}
		return true
	})
}

func enumMsgPDF(r *kit.Run, yield func(printMsgs) bool) {
	kinds := []printMsg{{To: 1}, {Kind: 1, Text: 2, Len: 700, To: 2}, {Kind: 2, Text: 4, Len: 300, To: 20, Wide: 9}, {Kind: 2, Text: 2, Len: 1500, To: 2}, {Kind: 2, Text: 0, Len: 3500, To: 1}}
	sequences(len(kinds), 1, kit.Pick(r, 4, 5), func(s []int) bool {
		var ms []printMsg
		for _, x := range s {
			ms = append(ms, kinds[x])
		}
		return yield(printMsgs{GS: 5, Msgs: ms, PDF: true, Select: (1<<uint(len(s)+1) - 1) &^ (len(s) % 2)})
	})
	for n := 1; n <= 30; n++ {
		for a := range kinds[:3] {
			var ms []printMsg
			for i := 0; i < n; i++ {
				ms = append(ms, kinds[a])
			}
			if !yield(printMsgs{GS: 5, Msgs: ms, PDF: true}) {
				return
			}
		}
	}
	// every length over the end of a page
	for l := 10; l <= kit.Pick(r, 3000, 6000); l += kit.Pick(r, 30, 10) {
		if !yield(printMsgs{GS: 5, Msgs: []printMsg{{Kind: 1, Text: 2, Len: l, To: 1}, {To: 1}, {Kind: 1, Text: 3, Len: l, To: 1}}, PDF: true}) {
			return
		}
	}
}

func init() {
	kit.Register(&kit.Prop{
		ID: "C21", Level: "model_checking",
		Rule:   "text and PDF printouts and listings are read back and hold every selected item exactly once, complete and as stored, and no other",
		Bounds: "keys in every group size, key length, printout width and column width listed; 0 to 40 keepers and addressees of 2 to 30 letters; all selections from stores of up to four unlike keys or messages; PDF of all sequences of up to four (thorough six) unlike items and of every length over the end of a page; texts of every length to 400 (1000)",
		Assumptions: []string{
			"a listed message is shown with its beginning (35 characters), as documented by the column DIGEST",
			"the PDF is read back from its page contents (position and characters), not rendered",
			"line breaks, which no received or enciphered text holds, are not part of the texts; several spaces may be printed as one line break",
		},
		Families: []*kit.Family{
			kit.F("key layouts", "one key in every layout", enumPrintLayouts, execPrintKeys).W(3),
			kit.F("key heads", "keepers, dates and marks", enumPrintHeads, execPrintKeys),
			kit.F("key selections", "all selections from small stores", enumPrintSets, execPrintKeys),
			kit.F("key PDF", "sequences of keys over pages", enumPrintPDF, execPrintKeys).W(2),
			kit.F("message layouts", "widths x texts", enumMsgLayouts, execPrintMsgs),
			kit.F("message heads", "addressees, senders, dates", enumMsgHeads, execPrintMsgs),
			kit.F("message selections", "all selections from small stores", enumMsgSets, execPrintMsgs),
			kit.F("message PDF", "sequences of messages over pages", enumMsgPDF, execPrintMsgs).W(2),
		},
	})
}

var _ = fmt.Sprint
