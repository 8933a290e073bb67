package checks

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/fault"
	"verif/kit"
	"verif/ref"
)

// ---------------------------------------------------------------- sessions

type overlapCmd struct {
	Name  string
	Args  func(dir string, n int) []string // n: 0 or 1, which of the two
	Stdin string
	Store string // the store it works on, if not the common one
	Out   string // what it makes, # stands for n
}

func sessArgs(f string, a ...string) func(string, int) []string {
	return func(dir string, n int) []string {
		var o []string
		for _, x := range append(strings.Fields(f), a...) {
			x = strings.ReplaceAll(x, "STORE", filepath.Join(dir, "store"))
			x = strings.ReplaceAll(x, "DIR", dir)
			o = append(o, strings.ReplaceAll(x, "#", fmt.Sprint(n)))
		}
		return o
	}
}

const onStore = "-K " + pfkHex + " -f STORE "

var overlapCmds = []overlapCmd{
	{Name: "send", Args: sessArgs(onStore + "messages -n"), Stdin: "BB DE AA 041200 = HELLO BRAVO = K\n"},
	{Name: "list", Args: sessArgs(onStore + "keys -l")},
	{Name: "generate", Args: sessArgs(onStore + "keys -n 1 -k DD")},
	{Name: "list messages", Args: sessArgs(onStore + "messages -l")},
	{Name: "delete key", Args: sessArgs(onStore + "keys -d -y -i AACLA")},
	{Name: "export", Args: sessArgs(onStore + "keys -E DIR/export# --all -y"), Out: "export#"},
	{Name: "initialise", Args: sessArgs(onStore + "init -y -c QQ -n 1 -k AA -l 60")},
	{Name: "change key", Args: sessArgs("-K " + pfkHex + " pfk -c STORE -y -k " + pfkHex2)},
	{Name: "export here", Args: sessArgs(onStore + "keys -E DIR/export --all -y"), Out: "export"},
	{Name: "import", Args: sessArgs(onStore + "keys -I DIR/incoming --all -y")},
	{Name: "send long", Args: sessArgs(onStore + "messages -n"), Stdin: "BB DE AA 041200 = HELLO BRAVO THIS IS A MESSAGE THAT NEEDS ONE MORE KEY TO BE SENT = K\n"},
	{Name: "delete message", Args: sessArgs(onStore + "messages -d -y -i old1")},
	{Name: "print", Args: sessArgs(onStore + "keys -o DIR/print#.txt --all"), Out: "print#.txt"},
	{Name: "send CC", Args: sessArgs(onStore + "messages -n"), Stdin: "CC DE AA 041200 = HELLO CHARLIE = K\n"},
}

var overlapBytes = map[string][]byte{}

func overlapDir(r *kit.Run, dir string) {
	if len(overlapBytes) == 0 {
		d, done := r.Dir()
		defer done()
		k := sessionStore()
		k.SetPersistence(filepath.Join(d, "store"))
		kit.Must(k.SetPFKFromString(pfkHex))
		kit.Must(k.Save())
		in := blank(5, 60, "EE")
		for i := 0; i < 2; i++ {
			addKey(in, mkKey(keyID(i*7919+4711, 5), keyLetters(77+i, 60), "AA"))
		}
		in.SetPersistence(filepath.Join(d, "incoming"))
		kit.Must(in.SetPFKFromString(pfkHex))
		kit.Must(in.Save())
		for n, b := range collectFiles(d) {
			overlapBytes[n] = b
		}
	}
	for n, b := range overlapBytes {
		kit.Must(os.WriteFile(filepath.Join(dir, n), b, 0600))
	}
}

func (c overlapCmd) spec(dir string, n int) fault.Spec { return cli(dir, c.Stdin, c.Args(dir, n)...) }

// what there is after one or two sessions
type overlapEnd struct {
	store string
	files []string
	code  [2]int
	lines [2]int
}

func overlapState(dir string) (string, *K, error) {
	var err error
	for _, p := range []string{pfkHex, pfkHex2} {
		k, e := openAs(filepath.Join(dir, "store"), p)
		if e == nil {
			own := map[string]bool{}
			for i := range overlapIncoming() {
				own[overlapIncoming()[i]] = true
			}
			extra := ""
			for i := range k.Keys {
				if own[string(k.Keys[i].Id)] {
					extra += string(k.Keys[i].Id) + " "
				}
			}
			return p[:4] + " " + string(k.CallSign) + "\n" + extra + "\n" + canonical(k, nil, nil), k, nil
		}
		err = e
	}
	return "", nil, err
}

func overlapIncoming() []string {
	return []string{keyID(4711, 5), keyID(7919+4711, 5)}
}

func endOf(dir string, res ...fault.Result) (overlapEnd, error) {
	var o overlapEnd
	var err error
	o.store, _, err = overlapState(dir)
	if err != nil {
		return o, err
	}
	l, err := os.ReadDir(dir)
	kit.Must(err)
	for _, e := range l {
		o.files = append(o.files, e.Name())
	}
	sort.Strings(o.files)
	for i := range res {
		o.code[i] = res[i].Code
		o.lines[i] = strings.Count(res[i].Out, "\n")
	}
	return o, nil
}

// serial is what can come of the two sessions one after the other: the
// contents of the store, and for each the exit statuses and numbers of lines.
type serialEnds struct {
	stores map[string]bool
	codes  [2]map[int]bool
	lines  [2]map[int]bool
	files  map[string]bool
}

var serialCache = map[[2]int]*serialEnds{}

func serialOf(r *kit.Run, a, b int) (*serialEnds, error) {
	key := [2]int{a, b}
	if s := serialCache[key]; s != nil {
		return s, nil
	}
	s := &serialEnds{stores: map[string]bool{}, files: map[string]bool{}}
	for i := range s.codes {
		s.codes[i], s.lines[i] = map[int]bool{}, map[int]bool{}
	}
	for _, order := range [][]int{{0}, {1}, {0, 1}, {1, 0}} {
		dir, done := r.Dir()
		overlapDir(r, dir)
		var res [2]fault.Result
		for _, n := range order {
			res[n] = plain(overlapCmds[key[n]].spec(dir, n))
		}
		e, err := endOf(dir, res[0], res[1])
		done()
		if err != nil {
			return nil, kit.Fail("%s, then %s: the store does not load: %v", overlapCmds[key[order[0]]].Name, overlapCmds[key[order[len(order)-1]]].Name, err)
		}
		s.stores[e.store] = true
		for _, n := range order {
			s.codes[n][e.code[n]] = true
			s.lines[n][e.lines[n]] = true
		}
		for _, f := range e.files {
			s.files[f] = true
		}
	}
	serialCache[key] = s
	return s, nil
}

// ---------------------------------------------------------------- schedules

// program is a session under the scheduler.
type program struct {
	s       *fault.Session
	next    chan *fault.Ev
	ev      *fault.Ev // the operation it is about to make
	ended   bool
	blocked bool
	opened  int // step at which it opened the store to load it
	saved   int // step at which it changed the store
}

// await waits for the program's next operation.
func (p *program) await(d time.Duration) {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case ev, ok := <-p.next:
		p.blocked = false
		p.ev, p.ended = ev, !ok
	case <-t.C:
		p.blocked = true
	}
}

// noticeable: an operation the other session may notice, or that may notice what
// the other has done.
// What is read from a file that is replaced, not written to, is what was in it
// when it was opened: reads are only noticed if a file both know is written to.
func noticeable(ev *fault.Ev, common func(string) bool, written bool) bool {
	switch ev.Trap {
	case fault.Read, fault.Pread, fault.Readv, fault.Mmap:
		if !written {
			return false
		}
	case fault.Fsync, fault.Fdatasync, fault.Close, fault.Fstat, fault.Sync:
		return false
	}
	return common(ev.P1) || common(ev.P2) || ev.FD != nil && common(ev.FD.Path)
}

// writes tells whether one of two commands writes to a file both know.
var writes = map[[2]int]bool{}

// bothKnow holds the names of files seen to be used by both of two commands.
var bothKnow = map[string]bool{}

type overlapCase struct {
	A, B, First int
	P           int // first switch, -1: none
}

const lastSwitch = 40

// run executes the two sessions; the one that is running is stopped before
// the shared operations of the given numbers and the other one goes on.
func (c overlapCase) run(r *kit.Run, first int, switches []int) (points int, err error) {
	dir, done := r.Dir()
	defer done()
	overlapDir(r, dir)
	cmds := [2]int{c.A, c.B}
	var ps [2]*program
	var touched [2]map[string]bool
	for n := range ps {
		sp := overlapCmds[cmds[n]].spec(dir, n)
		sp.Time = 30 * time.Second
		s, err := fault.Start(sp)
		kit.Must(err)
		p := &program{s: s, next: make(chan *fault.Ev), opened: -1, saved: -1}
		ps[n] = p
		touched[n] = map[string]bool{}
		go func() {
			for {
				ev, err := p.s.Next()
				if err != nil {
					if err != io.EOF {
						p.s.Kill()
					}
					close(p.next)
					return
				}
				p.next <- ev
			}
		}()
	}
	// A file only one of them can know the name of is not shared: that is one
	// it made itself with a name of its own.
	common := func(path string) bool {
		if path == "" {
			return false
		}
		base := filepath.Base(path)
		if path == dir {
			return false
		}
		for _, n := range []string{"store", "export", "incoming"} {
			if base == n {
				return true
			}
		}
		if touched[0][path] && touched[1][path] {
			bothKnow[fmt.Sprint(cmds, base)] = true
		}
		return bothKnow[fmt.Sprint(cmds, base)]
	}
	for _, p := range ps {
		p.await(30 * time.Second)
	}
	cur, step := first, 0
	trace := ""
	for !(ps[0].ended && ps[1].ended) {
		p := ps[cur]
		if p.ended || p.blocked {
			other := ps[1-cur]
			if other.ended || other.blocked {
				// both wait
				if p.blocked {
					p.await(30 * time.Second)
				}
				if other.blocked {
					other.await(30 * time.Second)
				}
				if (p.ended || p.blocked) && (other.ended || other.blocked) && !(p.ended && other.ended) {
					for _, x := range ps {
						x.s.Kill()
						x.s.Wait()
					}
					return points, kit.Fail("%s: both sessions wait for ever", c.text(first, switches, trace))
				}
				continue
			}
			cur = 1 - cur
			continue
		}
		ev := p.ev
		for _, x := range []string{ev.P1, ev.P2} {
			if x != "" {
				touched[cur][x] = true
			}
		}
		if noticeable(ev, common, writes[cmds]) {
			n := points
			points++
			for _, s := range switches {
				if s == n && !ps[1-cur].ended {
					trace += fmt.Sprintf(" | %d", 1-cur)
					cur = 1 - cur
					p = nil
					break
				}
			}
			if p == nil {
				continue
			}
		}
		step++
		if fl, _, ok := ev.OpenFlags(); (ok && fl&(os.O_WRONLY|os.O_RDWR) != 0 || ev.Trap == fault.Truncate) && common(ev.P1) {
			writes[cmds] = true
		}
		store := filepath.Join(dir, "store")
		if fl, _, ok := ev.OpenFlags(); ok && ev.P1 == store {
			if fl&(os.O_WRONLY|os.O_RDWR) == 0 && p.opened < 0 {
				p.opened = step
			} else if fl&(os.O_WRONLY|os.O_RDWR) != 0 && p.saved < 0 {
				p.saved = step
			}
		}
		if (ev.Trap == fault.Rename || ev.Trap == fault.Renameat || ev.Trap == fault.Renameat2) && ev.P2 == store && p.saved < 0 {
			p.saved = step
		}
		trace += " " + ev.Name()
		p.s.Reply(fault.Go)
		p.await(2 * time.Second)
	}
	var res [2]fault.Result
	for n, p := range ps {
		res[n] = p.s.Wait()
	}
	r.Step(1)
	r.StateOf(c.A, c.B, first, trace)
	what := c.text(first, switches, trace)
	for n := range res {
		if res[n].Hung || strings.Contains(res[n].Err, "goroutine ") {
			return points, kit.Fail("%s: session %d hangs or crashes: %s", what, n, trunc(res[n].Err))
		}
	}
	want, err := serialOf(r, c.A, c.B)
	if err != nil {
		return points, err
	}
	end, err := endOf(dir, res[0], res[1])
	if err != nil {
		return points, kit.Fail("%s: the store does not load: %v", what, err)
	}
	for n := range res {
		if !want.codes[n][end.code[n]] {
			return points, kit.Fail("%s: session %d ends with status %d: %s", what, n, end.code[n], strings.TrimSpace(res[n].Err))
		}
		if !want.lines[n][end.lines[n]] {
			return points, kit.Fail("%s: session %d shows %d lines, which it does at no time otherwise: %s", what, n, end.lines[n], trunc(res[n].Out))
		}
	}
	if !want.stores[end.store] {
		return points, kit.Fail("%s: the store holds what neither saved: %s", what, end.store)
	}
	for _, f := range end.files {
		if !want.files[f] {
			return points, kit.Fail("%s: the file %s is left", what, f)
		}
		if strings.HasPrefix(f, "export") {
			x, err := openAs(filepath.Join(dir, f), pfkHex)
			if err == nil && len(x.Keys) < 1 {
				err = fmt.Errorf("no key")
			}
			if err != nil {
				return points, kit.Fail("%s: %s is no complete store: %v", what, f, err)
			}
		}
	}
	return points, c.keys(what, ps, res)
}

func (c overlapCase) text(first int, switches []int, trace string) string {
	return fmt.Sprintf("%s and %s, first %d, switched at %v (%s)", overlapCmds[c.A].Name, overlapCmds[c.B].Name, first, switches, strings.TrimSpace(trace))
}

// keys: no key in two messages shown.
func (c overlapCase) keys(what string, ps [2]*program, res [2]fault.Result) error {
	get := func(id string) ([]rune, bool) {
		for i := range sessionOrigin().Keys {
			if string(sessionOrigin().Keys[i].Id) == id {
				return sessionOrigin().Keys[i].Runes, true
			}
		}
		return nil, false
	}
	by := map[string]string{}
	for n := range res {
		for _, t := range trafficIn(res[n].Out) {
			used := []string{t[0]}
			if _, segs, err := ref.Decode([]rune(t[1]), t[0], 5, get, nil); err == nil {
				used = nil
				for _, g := range segs {
					used = append(used, g.KeyID)
				}
			}
			for _, id := range used {
				w := fmt.Sprint(n)
				if _, ok := by[id]; ok && by[id] != w {
					// both loaded the store before either had saved it
					if ps[0].opened >= 0 && ps[1].opened >= 0 && (ps[0].saved < 0 || ps[1].opened < ps[0].saved) && (ps[1].saved < 0 || ps[0].opened < ps[1].saved) {
						return kit.FailKey("both-loaded-before-either-saved", "two sessions that both load the store before either has saved it show traffic enciphered with the same key: %s, key %s", what, id)
					}
					return kit.Fail("%s: both show traffic of the key %s, and one loaded the store after the other had saved it", what, id)
				}
				by[id] = w
			}
		}
	}
	return nil
}

func execOverlap(r *kit.Run, c overlapCase, bound int) error {
	if _, ok := writes[[2]int{c.A, c.B}]; !ok {
		// run it once to see
		writes[[2]int{c.A, c.B}] = false
		if _, err := c.run(r, c.First, nil); err != nil {
			return err
		}
		if _, err := c.run(r, 1-c.First, nil); err != nil {
			return err
		}
	}
	var known error
	var explore func(s []int) error
	explore = func(s []int) error {
		n, err := c.run(r, c.First, s)
		if err != nil {
			if v, ok := err.(*kit.Violation); !ok || v.Key == "" {
				return err
			}
			known = err
		}
		if len(s) >= bound || len(s) == 0 {
			return nil
		}
		for p := s[len(s)-1] + 1; p < n; p++ {
			if err := explore(append(append([]int(nil), s...), p)); err != nil {
				return err
			}
		}
		return nil
	}
	if c.P < 0 {
		if err := explore(nil); err != nil {
			return err
		}
		return known
	}
	for p := c.P; ; p++ {
		n, err := c.run(r, c.First, []int{p})
		if err != nil {
			if v, ok := err.(*kit.Violation); !ok || v.Key == "" {
				return err
			}
			known = err
		}
		if p >= n {
			return known
		}
		if bound > 1 {
			for q := p + 1; q < n; q++ {
				if err := explore([]int{p, q}); err != nil {
					return err
				}
			}
		}
		if c.P < lastSwitch {
			return known
		}
	}
}

func enumOverlap(lo, hi func(r *kit.Run) int) func(r *kit.Run, yield func(overlapCase) bool) {
	return func(r *kit.Run, yield func(overlapCase) bool) {
		for b := 0; b < hi(r); b++ {
			for a := 0; a <= b; a++ {
				if b < lo(r) {
					continue
				}
				for first := 0; first < 2; first++ {
					if a == b && first == 1 {
						continue
					}
					for p := -1; p <= lastSwitch; p++ {
						if !yield(overlapCase{a, b, first, p}) {
							return
						}
					}
				}
			}
		}
	}
}

func init() {
	few := func(r *kit.Run) int { return kit.Pick(r, 8, len(overlapCmds)) }
	all := func(*kit.Run) int { return len(overlapCmds) }
	none := func(*kit.Run) int { return 0 }
	core := func(r *kit.Run) int { return kit.Pick(r, 3, 8) }
	kit.Register(&kit.Prop{
		ID: "C27", Level: "model_checking",
		Rule:   "of two sessions on one store, at every interleaving of their file operations: none fails that would not fail alone or after the other, each sees one complete store, the store finally is what one of them, or one after the other, leaves, nothing else is left behind, and no key is in traffic shown by both",
		Bounds: "all pairs of 14 commands with one preemption, of the first 8 (thorough all) with two, of the first 3 (thorough 8) with three, at every operation on a file both know; operations on a file only one knows are not preempted, as nobody can notice, nor are reads of a file that is replaced and never written to",
		Assumptions: []string{
			"a file made by one session under a random name is not touched by the other (files both name are found while running)",
		},
		Families: []*kit.Family{
			kit.F("one preemption", "all pairs, one switch at every shared operation", enumOverlap(func(r *kit.Run) int { return kit.Pick(r, 8, 0) }, all), func(r *kit.Run, c overlapCase) error { return execOverlap(r, c, 1) }),
			kit.F("two preemptions", "pairs of the common commands, two switches", enumOverlap(func(r *kit.Run) int { return kit.Pick(r, 3, 0) }, few), func(r *kit.Run, c overlapCase) error { return execOverlap(r, c, 2) }),
			kit.F("three preemptions", "pairs of sending and listing, three switches", enumOverlap(none, core), func(r *kit.Run, c overlapCase) error { return execOverlap(r, c, 3) }),
		},
	})
}
