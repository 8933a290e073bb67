package checks

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"time"
	"unicode"

	"github.com/sa6mwa/krypto431"
	"verif/kit"
)

// C30: a list of call-signs or identifiers is read the same everywhere, and
// the keepers of a key and the addressees of a message are sets.

// ---------------------------------------------------------------- lists

type csList struct{ Args []string }

// csSplit is the meaning of a list: what is between commas and white space.
func csSplit(args []string, upper bool) []string {
	var o []string
	cur := ""
	end := func() {
		if cur != "" {
			o = append(o, cur)
		}
		cur = ""
	}
	for _, a := range args {
		for _, c := range a {
			if c == ',' || unicode.IsSpace(c) {
				end()
				continue
			}
			if upper {
				c = unicode.ToUpper(c)
			}
			cur += string(c)
		}
		end()
	}
	return o
}

func csStrings(l [][]rune) []string {
	var o []string
	for i := range l {
		o = append(o, string(l[i]))
	}
	return o
}

func execCsList(r *kit.Run, c csList) error {
	before := append([]string{}, c.Args...)
	for _, f := range []struct {
		name  string
		f     func(...string) [][]rune
		upper bool
	}{
		{"VettedKeepers", krypto431.VettedKeepers, true}, {"VettedRecipients", krypto431.VettedRecipients, true},
		{"VettedCallSigns", krypto431.VettedCallSigns, true}, {"VettedKeys", krypto431.VettedKeys, true},
		{"VettedMessageIds", krypto431.VettedMessageIds, false},
	} {
		got, want := csStrings(f.f(c.Args...)), csSplit(c.Args, f.upper)
		r.Step(1)
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			return kit.Fail("%s(%q) is %q and not %q", f.name, c.Args, got, want)
		}
		r.StateOf(f.upper, len(want), len(c.Args))
	}
	if fmt.Sprint(before) != fmt.Sprint(c.Args) {
		return kit.Fail("the arguments are changed")
	}
	return nil
}

func enumCsList(r *kit.Run, yield func(csList) bool) {
	letters := []string{"a", "B", "å", "/", ",", " ", "\t", "\u00a0"}
	word := func(s []int) string {
		w := ""
		for _, i := range s {
			w += letters[i]
		}
		return w
	}
	if !sequences(len(letters), 0, kit.Pick(r, 5, 7), func(s []int) bool { return yield(csList{[]string{word(s)}}) }) {
		return
	}
	var short []string
	sequences(len(letters), 0, kit.Pick(r, 2, 3), func(s []int) bool { short = append(short, word(s)); return true })
	for _, a := range short {
		for _, b := range short {
			if !yield(csList{[]string{a, b}}) {
				return
			}
		}
	}
	for _, sp := range []rune{'\n', '\r', '\v', '\f', 0x85, 0x1680, 0x2003, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000, 0x200b, ';', '.', '+', '\'', '"', '|', 0} {
		for _, f := range []string{"a%cb", "%ca", "a%c", "a,%cb", "a%c%cb", "%c"} {
			if !yield(csList{[]string{strings.ReplaceAll(f, "%c", string(sp))}}) {
				return
			}
		}
	}
	if !yield(csList{nil}) || !yield(csList{[]string{"ab", "", "c, d"}}) {
		return
	}
}

// ---------------------------------------------------------------- sets

type csSets struct {
	Start []int // names the item has already
	Ops   []int
}

// names; a and b of the same group are one call-sign
var csNames = []string{"BB", "bb", "CC", "ÅÄ", "åÄ", "BBB"}

func csFold(s string) string { return strings.ToUpper(s) }

type csOp struct {
	Remove bool
	Names  []int
}

var csOps = func() []csOp {
	var o []csOp
	for _, rm := range []bool{false, true} {
		for i := range csNames {
			o = append(o, csOp{rm, []int{i}})
		}
		for _, p := range [][]int{{0, 2}, {0, 1}, {3, 0}, {2, 2}, {5, 4, 1}, {}} {
			o = append(o, csOp{rm, p})
		}
	}
	return o
}()

func execCsSets(r *kit.Run, c csSets) error {
	for _, what := range []string{"key", "message"} {
		k := blank(5, 20, "AA")
		key, key2 := mkKey("AAAAA", keyLetters(1, 20)), mkKey("BBBBB", keyLetters(2, 20))
		var m, m2 Msg
		m.SetInstance(k)
		m2.SetInstance(k)
		key.SetInstance(k)
		model := map[string]bool{}
		for _, n := range c.Start {
			key.Keepers = append(key.Keepers, []rune(csNames[n]))
			m.Recipients = append(m.Recipients, []rune(csNames[n]))
			model[csFold(csNames[n])] = true
		}
		now := func() [][]rune {
			if what == "key" {
				return key.Keepers
			}
			return m.Recipients
		}
		path := fmt.Sprintf("a %s with %q", what, csStrings(now()))
		dup := len(c.Start) > len(model) // then two spellings may stay
		for _, oi := range c.Ops {
			op := csOps[oi]
			var args, other [][]rune
			for _, n := range op.Names {
				args = append(args, []rune(csNames[n]))
				other = append(other, []rune(csNames[n]))
				if op.Remove {
					delete(model, csFold(csNames[n]))
				} else {
					model[csFold(csNames[n])] = true
				}
			}
			same := true
			switch {
			case what == "key" && op.Remove:
				path += fmt.Sprintf(".RemoveKeeper(%q)", csStrings(args))
				same = key.RemoveKeeper(args...) == &key
			case what == "key":
				path += fmt.Sprintf(".AddKeeper(%q)", csStrings(args))
				same = key.AddKeeper(args...) == &key
				key2.AddKeeper(args...)
			case op.Remove:
				path += fmt.Sprintf(".RemoveRecipient(%q)", csStrings(args))
				same = m.RemoveRecipient(args...) == &m
			default:
				path += fmt.Sprintf(".AddRecipient(%q)", csStrings(args))
				same = m.AddRecipient(args...) == &m
				m2.AddRecipient(args...)
			}
			r.Step(1)
			if !same {
				return kit.Fail("%s gives another item", path)
			}
			for i := range args {
				if string(args[i]) != string(other[i]) {
					return kit.Fail("%s changes its arguments", path)
				}
				for j := range args[i] { // the caller may use it for something else
					args[i][j] = '?'
				}
			}
			// another item got the same names, and loses them in its own way
			for _, l := range [][][]rune{key2.Keepers, m2.Recipients} {
				for i := range l {
					krypto431.Wipe(&l[i])
				}
			}
			key2.Keepers, m2.Recipients = nil, nil
			got := csStrings(now())
			seen := map[string]bool{}
			for _, g := range got {
				if seen[csFold(g)] && !dup {
					return kit.Fail("%s: %q is there twice: %q", path, g, got)
				}
				seen[csFold(g)] = true
			}
			if fmt.Sprint(csSorted(seen)) != fmt.Sprint(csSorted(model)) {
				return kit.Fail("%s: there is %q and should be %v", path, got, csSorted(model))
			}
			// every subset of names
			for s := 0; s < 1<<len(csNames); s++ {
				var q [][]rune
				want := true
				for n := range csNames {
					if s&(1<<n) != 0 {
						q = append(q, []rune(csNames[n]))
						want = want && model[csFold(csNames[n])]
					}
				}
				if s == 0 {
					want = len(model) == 0
				}
				has := false
				if what == "key" {
					has = key.ContainsKeeper(q...)
				} else {
					has = m.ContainsRecipient(q...)
				}
				if has != want {
					return kit.Fail("%s: contains %q: %v", path, csStrings(q), has)
				}
			}
			r.StateOf(what, strings.Join(got, ","))
		}
	}
	return nil
}

func csSorted(m map[string]bool) []string {
	o := []string{}
	for n := range m {
		o = append(o, n)
	}
	sort.Strings(o)
	return o
}

func enumCsSets(r *kit.Run, yield func(csSets) bool) {
	starts := [][]int{{}, {0}, {0, 2}, {3, 0, 5}, {0, 0}, {0, 2, 1}, {2, 4, 3}}
	for i, st := range starts {
		if !sequences(len(csOps), 1, kit.Pick(r, 2, 3), func(s []int) bool { return yield(csSets{st, append([]int{}, s...)}) }) {
			return
		}
		if i == 0 && !sequences(len(csOps), 3, kit.Pick(r, 3, 4), func(s []int) bool { return yield(csSets{st, append([]int{}, s...)}) }) {
			return
		}
	}
}

// ---------------------------------------------------------------- own name

type csOwn struct {
	Call    string
	Keepers []string
	Way     string // library, init, keys
}

var csOwnCalls = []string{"AA", "aa", "Åä", "SM/SA6MWA/P"}

func execCsOwn(r *kit.Run, c csOwn) error {
	want := map[string]bool{}
	for _, n := range csSplit(c.Keepers, true) {
		if n != csFold(strings.TrimSpace(c.Call)) {
			want[n] = true
		}
	}
	check := func(how string, keys []Key) error {
		if len(keys) != 1 {
			return kit.Fail("%s: %d keys", how, len(keys))
		}
		got := map[string]bool{}
		for i := range keys[0].Keepers {
			got[string(keys[0].Keepers[i])] = true
		}
		if fmt.Sprint(csSorted(got)) != fmt.Sprint(csSorted(want)) {
			return kit.Fail("%s: keepers are %q and should be %q", how, csSorted(got), csSorted(want))
		}
		return nil
	}
	r.StateOf(c.Way, csSorted(want))
	r.Step(1)
	switch c.Way {
	case "library":
		for _, f := range []func(k *K){
			func(k *K) { k.NewKey(farFuture, c.Keepers...) },
			func(k *K) { kit.Must(k.GenerateKeys(1, nil, c.Keepers...)) },
		} {
			k := blank(5, 20, c.Call)
			f(k)
			if err := check(fmt.Sprintf("NewKey(%q) of %s", c.Keepers, c.Call), k.Keys); err != nil {
				return err
			}
			if s := string(k.CallSign); s != c.Call {
				return kit.Fail("making a key turns call-sign %s into %s", c.Call, s)
			}
			// and the instance still knows its name
			m := Msg{From: []rune(c.Call), DTG: k.Keys[0].Created}
			m.DTG.Time = time.Now()
			m.SetInstance(k)
			for _, f := range []string{c.Call, strings.ToLower(c.Call), strings.ToUpper(c.Call)} {
				m.From = []rune(f)
				if !m.IsMyCall() {
					return kit.Fail("%s is not taken for %s", f, c.Call)
				}
			}
			for _, f := range []string{c.Call + "A", c.Call[:len(c.Call)-1], ""} {
				m.From = []rune(f)
				if m.IsMyCall() {
					return kit.Fail("%q is taken for %s", f, c.Call)
				}
			}
		}
	default:
		dir, done := r.Dir()
		defer done()
		store := filepath.Join(dir, "store")
		var args []string
		if c.Way == "init" {
			args = []string{"-f", store, "init", "-c", c.Call, "-n", "1", "-l", "20"}
		} else {
			res := krypto(dir, "", "-f", store, "init", "-c", c.Call, "-l", "20")
			if res.Code != 0 {
				return kit.Fail("init -c %s fails: %s", c.Call, res.Err)
			}
			args = []string{"-f", store, "keys", "-n", "1"}
		}
		for _, k := range c.Keepers {
			args = append(args, "-k", k)
		}
		res := krypto(dir, "", args...)
		how := strings.Join(args[2:], " ")
		if res.Code != 0 {
			return kit.Fail("%s fails: %s", how, res.Err)
		}
		k, err := openAs(store, pfkHex)
		if err != nil {
			return kit.Fail("%s: the store does not load: %v", how, err)
		}
		if string(k.CallSign) != csFold(strings.TrimSpace(c.Call)) {
			return kit.Fail("%s: the call-sign is %q", how, string(k.CallSign))
		}
		if err := check(how, k.Keys); err != nil {
			return err
		}
		// listing by each keeper finds it, by another one does not
		for _, l := range [][]string{csSorted(want), {"ZZ"}} {
			for _, n := range l {
				for _, f := range []string{n, " " + strings.ToLower(n) + ","} {
					res := krypto(dir, "", "-f", store, "keys", "-l", "-k", f)
					if found := strings.Contains(res.Out, string(k.Keys[0].Id)); res.Code != 0 || found != (n != "ZZ") {
						return kit.Fail("%s, then keys -l -k %q: exit %d, found: %v", how, f, res.Code, found)
					}
				}
			}
		}
	}
	return nil
}

func enumCsOwn(r *kit.Run, yield func(csOwn) bool) {
	lists := [][]string{nil, {"BB"}, {"bb,CC"}, {"AA"}, {"aa"}, {"BB", "aA, CC"}, {"AA AA"}, {"åä,BB"}, {"ÅÄ"}, {"sm/sa6mwa/p", "sa6mwa"}, {" , "}, {"BB bb"}, {"AAA,A"}}
	for _, way := range []string{"library", "init", "keys"} {
		for _, call := range csOwnCalls {
			for _, l := range lists {
				if !yield(csOwn{call, l, way}) {
					return
				}
			}
		}
	}
}

func init() {
	kit.Register(&kit.Prop{
		ID: "C30", Level: "model_checking",
		Rule:   "lists are split at commas and white space everywhere; keepers and addressees are sets of call-signs without regard to case; a station's own call-sign is no keeper of the keys it makes",
		Bounds: "all lists of up to five (seven) characters of eight kinds, all pairs of up to two (three), all Unicode spaces; all sequences of two (three) of 24 operations from seven starts and of three (four) from nothing, with all 64 membership questions after each; four call-signs x 13 lists x three ways to make keys",
		Families: []*kit.Family{
			kit.F("lists", "all lists over an alphabet up to a length", enumCsList, execCsList).W(2),
			kit.F("sets", "all sequences of operations", enumCsSets, execCsSets).W(3),
			kit.F("own", "all call-signs, lists and ways to make keys", enumCsOwn, execCsOwn),
		},
	})
}
