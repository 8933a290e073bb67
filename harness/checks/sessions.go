package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"

	"github.com/sa6mwa/dtg"
	"verif/fault"
	"verif/kit"
	"verif/ref"
)

// ---------------------------------------------------------------- the station

// What a store is before the first session: three keys shared with BB, three
// with CC, one of nobody, a message from BB that could not be deciphered when
// it came, as its key was missing then, and one that still can not.
func sessionStore() *K {
	k := blank(5, 60, "AA")
	n := 0
	add := func(c int, to ...string) {
		for i := 0; i < c; i++ {
			addKey(k, mkKey(keyID(n*7919+11, 5), keyLetters(n, 60), to...))
			n++
		}
	}
	add(3, "BB")
	add(3, "CC")
	add(1)
	for i, text := range []string{string(fromBravo(k, 2, latePlain)), "QQXXQ ABCDE FGHIJ KLMNO"} {
		m := Msg{Id: []rune(fmt.Sprintf("old%d", i)), Recipients: runes2([]string{"AA"}), From: []rune("BB"), PlainText: []rune(text), DTG: dtg.DTG{Time: day0}}
		m.SetInstance(k)
		k.Messages = append(k.Messages, m)
	}
	return k
}

const latePlain = "LATE ARRIVAL"
const fromBB = "FROM BRAVO"

// fromBravo is what BB sends when it enciphers text with the n-th key.
func fromBravo(k *K, n int, text string) []rune {
	b := peer(k, "BB")
	b.Keys[n].Keepers = runes2([]string{"AA"})
	m := newMsg(b, text, "AA")
	m.KeyId = cp(b.Keys[n].Id)
	kit.Must(m.Encipher())
	g, err := m.Groups()
	kit.Must(err)
	return []rune(string(m.KeyId) + " " + string(*g))
}

type sessionCmd struct {
	Name   string
	Args   func(k *K, dir string) []string
	Stdin  func(k *K) string
	Out    string // file that is printed to
	Delete bool   // removes messages or keys
}

func stdArgs(a ...string) func(*K, string) []string {
	return func(*K, string) []string { return a }
}

func stdText(s string) func(*K) string { return func(*K) string { return s } }

var sessionOrigin = sync.OnceValue(sessionStore)

var sessionCmds = []sessionCmd{
	{Name: "send BB", Args: stdArgs("messages", "-n"), Stdin: stdText("BB DE AA 041200 = HELLO BRAVO = K\n")},
	{Name: "receive", Args: stdArgs("messages", "-n"), Stdin: func(*K) string {
		return "AA DE BB 041200 = " + string(fromBravo(sessionOrigin(), 1, fromBB)) + " = K\n"
	}},
	{Name: "list", Args: stdArgs("messages", "-l")},
	{Name: "send BB long", Args: stdArgs("messages", "-n"), Stdin: stdText("BB DE AA 041200 = HELLO BRAVO THIS IS A MESSAGE THAT NEEDS ONE MORE KEY TO BE SENT = K\n")},
	{Name: "send CC", Args: stdArgs("messages", "-n"), Stdin: stdText("CC DE AA 041200 = Hej på er, klockan 12 = K\n")},
	{Name: "print", Args: func(k *K, dir string) []string {
		return []string{"messages", "-o", filepath.Join(dir, "out.txt"), "--all"}
	}, Out: "out.txt"},
	{Name: "delete message", Delete: true, Args: func(k *K, dir string) []string {
		id := "none"
		if n := len(k.Messages); n > 0 {
			id = string(k.Messages[n-1].Id)
		}
		return []string{"messages", "-d", "-y", "-i", id}
	}},
	{Name: "delete key", Delete: true, Args: func(k *K, dir string) []string {
		id := "ZZZZZ"
		for i := range k.Keys {
			if k.Keys[i].Used {
				id = string(k.Keys[i].Id)
			}
		}
		return []string{"keys", "-d", "-y", "-i", id}
	}},
	{Name: "export", Args: func(k *K, dir string) []string {
		return []string{"keys", "-E", filepath.Join(dir, "export"), "-y", "--all"}
	}},
	{Name: "generate", Args: stdArgs("keys", "-n", "1", "-k", "BB")},
	{Name: "send and list", Args: stdArgs("messages", "-n", "-l"), Stdin: stdText("BB DE AA 041200 = AND LIST = K\n")},
	{Name: "send too long", Args: stdArgs("messages", "-n"), Stdin: stdText("BB DE AA 041200 = " + strings.Repeat("MANY WORDS ", 40) + "= K\n")},
	{Name: "send nobody", Args: stdArgs("messages", "-n"), Stdin: stdText("DE AA 041200 = NOTE = K\n")},
}

// ---------------------------------------------------------------- states

// station is what is on disk, and what has been on the output so far.
type station struct {
	files map[string][]byte
	shown map[string]string // key -> what it was seen with
	del   bool              // something was deleted on request
	path  string
}

func (s *station) lay(dir string) {
	for n, b := range s.files {
		kit.Must(os.WriteFile(filepath.Join(dir, n), b, 0600))
	}
}

func collectFiles(dir string) map[string][]byte {
	o := map[string][]byte{}
	l, err := os.ReadDir(dir)
	kit.Must(err)
	for _, e := range l {
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		kit.Must(err)
		o[e.Name()] = b
	}
	return o
}

// canonical describes a store without what is random in it.
func canonical(k *K, shown map[string]string, files map[string][]byte) string {
	var b strings.Builder
	own := map[string]bool{}
	for i := range sessionOrigin().Keys {
		own[string(sessionOrigin().Keys[i].Id)] = true
	}
	for i := range k.Keys {
		x := &k.Keys[i]
		id := string(x.Id)
		if !own[id] {
			id = "new"
		}
		fmt.Fprintln(&b, id, x.Used, len(x.Keepers))
	}
	for i := range k.Messages {
		m := &k.Messages[i]
		id := string(m.KeyId)
		if !own[id] && id != "" {
			id = "new"
		}
		fmt.Fprintln(&b, id, string(m.PlainText), len(m.CipherText))
	}
	var s []string
	for id := range shown {
		if !own[id] {
			id = "new"
		}
		s = append(s, id)
	}
	sort.Strings(s)
	fmt.Fprintln(&b, s, len(files) > 1)
	return b.String()
}

// trafficIn finds the cipher messages in a printout: first key and letters.
func trafficIn(out string) [][2]string {
	var o [][2]string
	l := strings.Split(out, "\n")
	for i := 0; i < len(l); i++ {
		if strings.TrimSpace(l[i]) != "=CIPHER=" {
			continue
		}
		var w []string
		for i++; i < len(l) && !strings.HasPrefix(l[i], "="); i++ {
			w = append(w, strings.Fields(l[i])...)
		}
		i--
		if len(w) > 1 {
			o = append(o, [2]string{w[0], strings.Join(w[1:], "")})
		}
	}
	return o
}

type sessionCase struct{ Cmds []int }

var sessionCache = map[string][]*station{}

func loadStation(dir string) (*K, error) { return openAs(filepath.Join(dir, "store"), pfkHex) }

// explore runs the last command from every state the commands before it can
// lead to, ending it in every way.
func exploreSessions(r *kit.Run, cmds []int) ([]*station, error) {
	key := fmt.Sprint(cmds)
	if len(cmds) == 0 {
		if sessionCache[key] == nil {
			dir, done := r.Dir()
			defer done()
			k := sessionStore()
			k.SetPersistence(filepath.Join(dir, "store"))
			kit.Must(k.SetPFKFromString(pfkHex))
			kit.Must(k.Save())
			sessionCache[key] = []*station{{files: collectFiles(dir), shown: map[string]string{}}}
		}
		return sessionCache[key], nil
	}
	if s, ok := sessionCache[key]; ok {
		return s, nil
	}
	before, err := exploreSessions(r, cmds[:len(cmds)-1])
	if err != nil {
		return nil, err
	}
	seen := map[string]bool{}
	var next []*station
	for _, st := range before {
		o, err := endings(r, st, sessionCmds[cmds[len(cmds)-1]])
		if err != nil {
			return nil, err
		}
		for _, s := range o {
			dir, done := r.Dir()
			s.lay(dir)
			k, err := loadStation(dir)
			done()
			if err != nil {
				return nil, kit.Fail("%s: the store does not load any more: %v", s.path, err)
			}
			c := canonical(k, s.shown, s.files)
			r.StateOf(c)
			if !seen[c] {
				seen[c] = true
				next = append(next, s)
			}
		}
	}
	if len(sessionCache) > 400 {
		sessionCache = map[string][]*station{"[]": sessionCache["[]"]}
	}
	sessionCache[key] = next
	return next, nil
}

// endings of one session: complete, killed before each operation, or every
// file operation failing from one on.
func endings(r *kit.Run, st *station, c sessionCmd) ([]*station, error) {
	var out []*station
	n := 0
	dull := map[int]bool{}
	texts := map[int]int{}
	one := func(kind string, at, cut int) error {
		dir, done := r.Dir()
		defer done()
		st.lay(dir)
		k, err := loadStation(dir)
		if err != nil {
			return kit.Broken("%v", err)
		}
		stdin := ""
		if c.Stdin != nil {
			stdin = c.Stdin(k)
		}
		sp := cli(dir, stdin, append([]string{"-K", pfkHex, "-f", filepath.Join(dir, "store")}, c.Args(k, dir)...)...)
		sp.Std = true
		count := kind == "done"
		res, err := fault.Run(sp, func(i int, ev *fault.Ev) *fault.Act {
			if count {
				n = i + 1
				dull[i] = ev.Trap == fault.Read || ev.Trap == fault.Newfstatat || ev.Trap == fault.Fstat || ev.Trap == fault.Close
				if ev.FD != nil && ev.FD.Path == "<stdout>" {
					texts[i] = len(ev.Data)
				}
			}
			if kind == "killed" && i == at {
				return nil
			}
			if kind == "cut" {
				if i == at {
					return &fault.Act{Kind: 2, Val: uint64(cut)}
				}
				if i > at {
					return nil
				}
			}
			if strings.HasPrefix(kind, "fail") && i >= at && (ev.FD == nil || ev.FD.Path != "<stdout>") {
				e := syscall.ENOSPC
				if kind == "fail-io" {
					e = syscall.EIO
				}
				return inject(i, ev, i, int(e), false, 0)
			}
			return &fault.Go
		})
		kit.Must(err)
		r.Step(1)
		path := fmt.Sprintf("%s | %s %s@%d", st.path, c.Name, kind, at)
		if res.Hung || strings.Contains(res.Err, "goroutine ") {
			return kit.Fail("%s: the program hangs or crashes: %s", path, trunc(res.Err))
		}
		s := &station{files: collectFiles(dir), shown: map[string]string{}, del: st.del || c.Delete, path: path}
		for k, v := range st.shown {
			s.shown[k] = v
		}
		now, err := loadStation(dir)
		if err != nil {
			return kit.Fail("%s: the store does not load any more: %v", path, err)
		}
		if c.Out == "" {
			// nothing
		} else if b, ok := s.files[c.Out]; ok {
			res.Out += string(b)
		}
		if err := s.judge(k, now, res.Out, path); err != nil {
			return err
		}
		for _, f := range []string{"out.txt", "export"} {
			delete(s.files, f)
		}
		if kind == "done" && res.Code != 0 && c.Name != "send too long" && st.shown["late"] == "" && !mayFail(c, k) {
			return kit.Fail("%s fails: %s", path, strings.TrimSpace(res.Err))
		}
		out = append(out, s)
		return nil
	}
	if err := one("done", 0, 0); err != nil {
		return nil, err
	}
	for i := 0; i < n; i++ {
		if i == 0 || !dull[i] || !dull[i-1] {
			if err := one("killed", i, 0); err != nil {
				return nil, err
			}
		}
		if t := texts[i]; t > 0 {
			for _, cut := range kit.Pick(r, []int{t / 2}, []int{1, t / 3, t / 2, t - 1}) {
				if err := one("cut", i, cut); err != nil {
					return nil, err
				}
			}
		} else if !dull[i] {
			if err := one("fail", i, 0); err != nil {
				return nil, err
			}
			if r.Thorough() {
				if err := one("fail-io", i, 0); err != nil {
					return nil, err
				}
			}
		}
	}
	return out, nil
}

// mayFail: there are not keys enough for the message.
func mayFail(c sessionCmd, k *K) bool {
	n := map[string]int{}
	for i := range k.Keys {
		if x := &k.Keys[i]; !x.Used {
			t := ""
			if len(x.Keepers) > 0 {
				t = string(x.Keepers[0])
			}
			n[t]++
		}
	}
	switch c.Name {
	case "send BB", "send and list":
		return n["BB"] < 1
	case "send BB long":
		return n["BB"] < 3
	case "send CC":
		return n["CC"] < 2
	case "send nobody":
		return n[""] < 1
	}
	return false
}

// judge looks at what the session has shown and left on disk.
func (s *station) judge(was, now *K, out, path string) error {
	all := map[string][]rune{}
	for _, k := range []*K{sessionOrigin(), was, now} {
		for i := range k.Keys {
			all[string(k.Keys[i].Id)] = k.Keys[i].Runes
		}
	}
	get := func(id string) ([]rune, bool) { x, ok := all[id]; return x, ok }
	for _, t := range trafficIn(out) {
		used := []string{t[0]}
		what := t[1]
		if _, segs, err := ref.Decode([]rune(t[1]), t[0], 5, get, nil); err == nil {
			used = nil
			for _, g := range segs {
				used = append(used, g.KeyID)
			}
		}
		found := false
		for i := range now.Messages {
			if string(now.Messages[i].KeyId) == t[0] && strings.HasPrefix(string(now.Messages[i].CipherText), t[1]) {
				found = true
				what = string(now.Messages[i].CipherText)
			}
		}
		if !found {
			return kit.Fail("%s: the traffic %s %s was shown and is not in the store", path, t[0], trunc(t[1]))
		}
		theirs := false
		for _, f := range foreignText() {
			theirs = theirs || strings.ReplaceAll(string(f), " ", "") == t[0]+what
		}
		for _, id := range used {
			if _, ok := s.shown[id]; ok && theirs {
				continue // that BB took a key AA had used already is not AA's doing
			}
			if w, ok := s.shown[id]; ok && w != what {
				return kit.Fail("%s: the key %s was shown with two messages:\n  %s\n  %s", path, id, w, what)
			}
			s.shown[id] = what
		}
	}
	// what was deciphered for the operator
	for text, n := range map[string]int{latePlain: 2, fromBB: 1} {
		if strings.Contains(out, text) {
			id := string(sessionOrigin().Keys[n].Id)
			c := strings.ReplaceAll(string(foreignText()[n]), " ", "")[5:]
			if _, ok := s.shown[id]; !ok {
				s.shown[id] = c
			}
		}
	}
	for i := range now.Keys {
		x := &now.Keys[i]
		if _, ok := s.shown[string(x.Id)]; ok && !x.Used {
			return kit.Fail("%s: the key %s was shown with a message and is not marked used in the store", path, string(x.Id))
		}
	}
	return nil
}

var foreignText = sync.OnceValue(func() map[int][]rune {
	return map[int][]rune{1: fromBravo(sessionOrigin(), 1, fromBB), 2: fromBravo(sessionOrigin(), 2, latePlain)}
})

func execSessions(r *kit.Run, c sessionCase) error {
	_, err := exploreSessions(r, c.Cmds)
	return err
}

func enumSessions(r *kit.Run, yield func(sessionCase) bool) {
	sequences(len(sessionCmds), 1, 2, func(s []int) bool { return yield(sessionCase{append([]int(nil), s...)}) })
}

func enumSessions3(r *kit.Run, yield func(sessionCase) bool) {
	sequences(kit.Pick(r, 4, len(sessionCmds)), 3, 3, func(s []int) bool { return yield(sessionCase{append([]int(nil), s...)}) })
}

func init() {
	kit.Register(&kit.Prop{
		ID: "C25", Level: "model_checking",
		Rule:   "whatever sessions of the command line program are run, and wherever each is killed or fails, all traffic and text shown is in the store, with its keys marked used; no key is ever shown with two messages; the store always loads",
		Bounds: "all sequences of two (thorough three; quick three out of four commands) of 13 commands, each session complete, killed before every operation that follows a change or an output, cut off in the middle of every output, or with every file operation failing from one on; successor states merged by content",
		Assumptions: []string{
			"a kill leaves on disk what was written before it; power failures are the subject of C11",
		},
		Families: []*kit.Family{
			kit.F("two sessions", "all sequences of up to two commands, all endings", enumSessions, execSessions),
			kit.F("three sessions", "all sequences of three, all endings", enumSessions3, execSessions),
		},
	})
}
