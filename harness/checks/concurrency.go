package checks

import (
	crand "crypto/rand"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/sa6mwa/krypto431"
	rnd "github.com/sa6mwa/krypto431/crand"
	"verif/kit"
	"verif/vsync"
)

// ---------------------------------------------------------------- source

type served struct {
	thread, op int
	asked      int
	data       []byte
	off        int
	err        bool
}

// shared is the random source the threads draw from: each call is a
// scheduling point and is answered with fresh bytes of a known stream.
type shared struct {
	at     int
	step   int // at most this many bytes per call
	failAt int // number of the call that fails, 0: none
	log    []served
	op     *[8]int
}

// streamAt is how far the stream was delivered by earlier executions.
var streamAt int

func streamByte(i int) byte { return byte(mix(uint64(i)+99) >> 24) }

func (s *shared) Read(p []byte) (int, error) {
	vsync.Yield()
	n := len(p)
	if s.step > 0 && n > s.step {
		n = s.step
	}
	t := vsync.Current()
	e := served{thread: t, asked: len(p), off: s.at}
	if t >= 0 {
		e.op = s.op[t]
	}
	if s.failAt == len(s.log)+1 {
		e.err = true
		s.log = append(s.log, e)
		return 0, errSource
	}
	for i := 0; i < n; i++ {
		p[i] = streamByte(s.at)
		s.at++
	}
	e.data = append([]byte(nil), p[:n]...)
	s.log = append(s.log, e)
	vsync.Yield()
	return n, nil
}

// again answers as recorded.
type again struct {
	log []served
	at  int
	bad string
}

func (a *again) Read(p []byte) (int, error) {
	if a.at >= len(a.log) {
		a.bad = fmt.Sprintf("asks for %d further bytes", len(p))
		return 0, errSource
	}
	e := a.log[a.at]
	if e.asked != len(p) && a.bad == "" {
		a.bad = fmt.Sprintf("asks for %d bytes instead of %d", len(p), e.asked)
	}
	a.at++
	if e.err {
		return 0, errSource
	}
	return copy(p, e.data), nil
}

// ---------------------------------------------------------------- draws

type draw struct {
	name  string
	raw   bool // the result is the bytes drawn
	short bool // few scheduling points
	do    func() string
}

func drawRunes(r []rune) string {
	var b []byte
	for _, c := range r {
		b = append(b, byte(c>>24), byte(c>>16), byte(c>>8), byte(c))
	}
	return hex.EncodeToString(b)
}

var draws = []draw{
	{"Uint64", true, true, func() string { return fmt.Sprintf("%016x", rnd.Uint64()) }},
	{"Intn", false, true, func() string { return fmt.Sprint(rnd.Intn(26)) }},
	{"Read8", true, true, func() string { b := make([]byte, 8); n, err := rnd.Read(b); return readResult(b, n, err) }},
	{"ReadRunes2", true, true, func() string {
		b := make([]rune, 2)
		_, err := rnd.ReadRunes(b)
		if err != nil {
			return "error"
		}
		return drawRunes(b)
	}},
	{"RandomAlnumRunes2", false, false, func() string { return string(krypto431.RandomAlnumRunes(2)) }},
	{"GeneratePFK", true, true, krypto431.GeneratePFK},
	{"NewKey", false, false, func() string {
		k := blank(1, 2, "AA")
		x := k.NewKey(farFuture, "BB")
		return string(x.Id) + " " + string(x.Runes)
	}},
	{"Int63", false, true, func() string { return fmt.Sprint(rnd.Int63()) }},
	{"GenerateSalt", true, true, krypto431.GenerateSalt},
	{"Uint32", false, true, func() string { return fmt.Sprint(rnd.Uint32()) }},
	{"Int", false, true, func() string { return fmt.Sprint(rnd.Int(), rnd.Int31()) }},
	{"Int63n", false, true, func() string { return fmt.Sprint(rnd.Int63n(1 << 40)) }},
	{"Int31n", false, true, func() string { return fmt.Sprint(rnd.Int31n(1000003)) }},
	{"Float64", false, true, func() string { return fmt.Sprint(rnd.Float64()) }},
	{"Float32", false, true, func() string { return fmt.Sprint(rnd.Float32()) }},
	{"Perm3", false, true, func() string { return fmt.Sprint(rnd.Perm(3)) }},
	{"Shuffle3", false, true, func() string {
		a := []int{1, 2, 3}
		rnd.Shuffle(3, func(i, j int) { a[i], a[j] = a[j], a[i] })
		return fmt.Sprint(a)
	}},
	{"NormFloat64", false, true, func() string { return fmt.Sprint(rnd.NormFloat64(), rnd.ExpFloat64()) }},
	{"Read5", true, true, func() string { b := make([]byte, 5); n, err := rnd.Read(b); return readResult(b, n, err) }},
	{"Read40", true, true, func() string { b := make([]byte, 40); n, err := rnd.Read(b); return readResult(b, n, err) }},
	{"NewUniqueMessageId", false, false, func() string { return string(blank(5, 20, "AA").NewUniqueMessageId()) }},
	{"Wipe", false, true, func() string {
		r := []rune("SECRET")
		err := krypto431.Wipe(&r)
		return fmt.Sprint(drawRunes(r), err)
	}},
}

func readResult(b []byte, n int, err error) string {
	if err != nil {
		return "error"
	}
	if n != len(b) {
		return fmt.Sprintf("%d of %d bytes", n, len(b))
	}
	return hex.EncodeToString(b)
}

func drawNo(name string) *draw {
	for i := range draws {
		if draws[i].name == name {
			return &draws[i]
		}
	}
	panic("no draw " + name)
}

func doDraw(d *draw) (res string) {
	defer func() {
		if p := recover(); p != nil {
			res = fmt.Sprint("panic: ", p)
		}
	}()
	return d.do()
}

// ---------------------------------------------------------------- exploring

type raceCase struct {
	Threads [][]string
	Step    int
	FailAt  int
	Bound   int
}

var strictDraws = -1 // 1: every draw reads exactly what it uses

// strict tells whether, drawn one after the other, each draw depends only on
// the bytes it asked for itself (no read-ahead kept between draws).
func strict() bool {
	if strictDraws >= 0 {
		return strictDraws == 1
	}
	strictDraws = 1
	for i := range draws {
		for j := range draws {
			for _, c := range []raceCase{{Threads: [][]string{{draws[i].name, draws[j].name, draws[i].name}}}} {
				results, src, _, _ := c.run(nil)
				if c.judgeStrict(results, src) != "" {
					strictDraws = 0
				}
			}
		}
	}
	if strictDraws == 0 { // flush what was read ahead
		old := crand.Reader
		crand.Reader = &shared{at: streamAt, op: new([8]int)}
		rnd.Read(make([]byte, 1<<17))
		streamAt = crand.Reader.(*shared).at
		crand.Reader = old
	}
	return strictDraws == 1
}

// run executes the case under one schedule.
func (c raceCase) run(choose func(n int, preempt bool) int) (results [][]string, src *shared, problem string, trace []int) {
	var op [8]int
	src = &shared{step: c.Step, failAt: c.FailAt, op: &op, at: streamAt}
	defer func() { streamAt = src.at }()
	old := crand.Reader
	crand.Reader = src
	defer func() { crand.Reader = old }()
	results = make([][]string, len(c.Threads))
	var fs []func()
	for t := range c.Threads {
		t := t
		fs = append(fs, func() {
			for i, n := range c.Threads[t] {
				op[t] = i
				results[t] = append(results[t], doDraw(drawNo(n)))
			}
		})
	}
	if choose == nil {
		choose = func(int, bool) int { return 0 }
	}
	problem, trace = vsync.Run(fs, choose)
	return
}

func (c raceCase) judgeStrict(results [][]string, src *shared) string {
	per := map[[2]int][]served{}
	for _, e := range src.log {
		per[[2]int{e.thread, e.op}] = append(per[[2]int{e.thread, e.op}], e)
	}
	// the bytes of one request must be contiguous
	for i, e := range src.log {
		if e.err || len(e.data) >= e.asked || len(e.data) == 0 {
			continue
		}
		for j := i + 1; j < len(src.log); j++ {
			f := src.log[j]
			if f.thread == e.thread {
				if !f.err && f.asked == e.asked-len(e.data) && f.op == e.op && f.off != e.off+len(e.data) {
					return fmt.Sprintf("thread %d, %s: the block of random bytes it asked for is torn, bytes %d-%d of the source went to another thread in between",
						e.thread, c.Threads[e.thread][e.op], e.off+len(e.data), f.off-1)
				}
				break
			}
		}
	}
	old := crand.Reader
	defer func() { crand.Reader = old }()
	for t := range c.Threads {
		for i, n := range c.Threads[t] {
			a := &again{log: per[[2]int{t, i}]}
			crand.Reader = a
			alone := doDraw(drawNo(n))
			if alone != results[t][i] || a.bad != "" || a.at != len(a.log) {
				return fmt.Sprintf("thread %d, %s gives %q; run alone with the same bytes of the random source it gives %q (%s, %d of %d reads)",
					t, n, results[t][i], alone, a.bad, a.at, len(a.log))
			}
		}
	}
	return ""
}

// judgeBytes only looks where in the stream the delivered bytes come from.
func (c raceCase) judgeBytes(results [][]string, src *shared) string {
	// what was read ahead in earlier executions may be delivered in this one
	var stream []byte
	for i := max(0, src.at-1<<14); i < src.at; i++ {
		stream = append(stream, streamByte(i))
	}
	owner := map[int]string{}
	for t := range c.Threads {
		for i, n := range c.Threads[t] {
			if !drawNo(n).raw {
				continue
			}
			if c.FailAt > 0 && (results[t][i] == "error" || strings.HasPrefix(results[t][i], "panic")) {
				continue
			}
			b, err := hex.DecodeString(results[t][i])
			if err != nil || len(b) == 0 {
				return fmt.Sprintf("thread %d, %s gives %q", t, n, results[t][i])
			}
			at := strings.Index(string(stream), string(b))
			if at < 0 {
				return fmt.Sprintf("thread %d, %s gives %x, which is no contiguous block of the random source", t, n, b)
			}
			me := fmt.Sprintf("draw %d of thread %d (%s)", i, t, n)
			for j := at; j < at+len(b); j++ {
				if o := owner[j]; o != "" {
					return fmt.Sprintf("byte %d of the random source was given both to %s and to %s", j, o, me)
				}
				owner[j] = me
			}
		}
	}
	return ""
}

func (c raceCase) judge(results [][]string, src *shared, problem string) string {
	if problem != "" {
		return problem
	}
	for t := range c.Threads {
		for i, n := range c.Threads[t] {
			r := results[t][i]
			failed := c.FailAt > 0 && !strict()
			for _, e := range src.log {
				failed = failed || e.err && e.thread == t && e.op == i
			}
			if strings.HasPrefix(r, "panic") && !failed {
				return fmt.Sprintf("thread %d, %s: %s, although the random source answered", t, n, r)
			}
			if d := drawNo(n); d.raw && !failed && strings.Contains(r, "error") {
				return fmt.Sprintf("thread %d, %s: %s, although the random source answered", t, n, r)
			}
		}
	}
	if strict() {
		return c.judgeStrict(results, src)
	}
	return c.judgeBytes(results, src)
}

type decision struct {
	n, pick int
	preempt bool
}

func execRace(r *kit.Run, c raceCase) error {
	strict()
	y := vsync.Yields
	_, probe, _, _ := raceCase{Threads: [][]string{{"Uint64"}}}.run(nil)
	if vsync.Yields-y <= int64(2*len(probe.log)) {
		return kit.Broken("the random number code is not built for the scheduler")
	}
	var prefix []decision
	for n := 0; ; n++ {
		var ds []decision
		results, src, problem, trace := c.run(func(n int, preempt bool) int {
			d := decision{n: n, preempt: preempt}
			if len(ds) < len(prefix) {
				d.pick = prefix[len(ds)].pick
				if d.pick >= n {
					d.pick = 0
				}
			}
			ds = append(ds, d)
			return d.pick
		})
		r.Step(len(ds) + len(src.log))
		r.Count("schedules", 1)
		h := ""
		for _, e := range src.log {
			h += fmt.Sprintf(" %d.%d", e.thread, e.asked)
		}
		r.StateOf(h, fmt.Sprint(c))
		if m := c.judge(results, src, problem); m != "" {
			return kit.Fail("threads %v (reads of %d bytes, failing read %d): %s; schedule %v", c.Threads, c.Step, c.FailAt, m, trace)
		}
		if n >= 5000 && !strict() {
			// with read-ahead kept from one execution to the next the
			// executions of a prefix differ
			r.Count("cut short", 1)
			return nil
		}
		// the next schedule
		used := make([]int, len(ds)+1)
		for i, d := range ds {
			used[i+1] = used[i]
			if d.preempt && d.pick > 0 {
				used[i+1]++
			}
		}
		j := len(ds) - 1
		for ; j >= 0; j-- {
			d := ds[j]
			if d.pick+1 < d.n && (!d.preempt || used[j]+1 <= c.Bound) {
				break
			}
		}
		if j < 0 {
			return nil
		}
		prefix = append([]decision(nil), ds[:j+1]...)
		prefix[j].pick++
	}
}

func enumRaces(r *kit.Run, yield func(raceCase) bool) {
	b := kit.Pick(r, 2, 3)
	n := len(draws)
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			core := i < 9 && j < 9
			for _, st := range []int{3, 1, 0} {
				if st == 1 && !r.Thorough() && !(i < 2 && j < 2) {
					continue
				}
				if st == 0 && !core {
					continue
				}
				bb := b
				if st == 1 || !draws[i].short || !draws[j].short || !core {
					bb = 2
				}
				if core && draws[i].short && draws[j].short && st != 1 {
					bb = kit.Pick(r, 3, 4)
				}
				if !yield(raceCase{Threads: [][]string{{draws[i].name}, {draws[j].name}}, Step: st, Bound: bb}) {
					return
				}
			}
		}
	}
}

func enumFailRaces(r *kit.Run, yield func(raceCase) bool) {
	n := kit.Pick(r, 7, len(draws))
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			for f := 1; f <= kit.Pick(r, 3, 6); f++ {
				if !yield(raceCase{Threads: [][]string{{draws[i].name, draws[j].name}, {draws[j].name}}, Step: 3, FailAt: f, Bound: kit.Pick(r, 1, 2)}) {
					return
				}
			}
		}
	}
}

func enumSeqRaces(r *kit.Run, yield func(raceCase) bool) {
	n := kit.Pick(r, 4, 7)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			for l := 0; l < n; l++ {
				for m := 0; m < n; m++ {
					long := !draws[i].short || !draws[j].short || !draws[l].short || !draws[m].short
					if long && (i+j+l+m)%3 != 0 {
						continue
					}
					bound := 2
					if long {
						bound = 1
					}
					if !yield(raceCase{Threads: [][]string{{draws[i].name, draws[j].name}, {draws[l].name, draws[m].name}}, Step: 5, Bound: bound}) {
						return
					}
				}
			}
		}
	}
	// three and four threads
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			for l := j; l < n; l++ {
				if !yield(raceCase{Threads: [][]string{{draws[i].name}, {draws[j].name}, {draws[l].name}}, Step: 3, Bound: kit.Pick(r, 1, 2)}) {
					return
				}
				if !yield(raceCase{Threads: [][]string{{draws[i].name}, {draws[j].name}, {draws[l].name}, {"Uint64"}}, Step: 0, Bound: 1}) {
					return
				}
			}
		}
	}
}

func init() {
	kit.Register(&kit.Prop{
		ID:    "C24",
		Level: "model_checking",
		Bounds: "2 threads x 1 draw of each of 22 kinds with up to 2 preemptions (3 for the basic kinds; thorough 3 and 4), 2 threads x 2 draws, 3 and 4 threads x 1 draw, short reads of 1, 3 and 5 bytes, one failing read; " +
			"a scheduling point before every statement of package crand and of the functions using it, at every lock operation and around every read of the source",
		Assumptions: []string{"statements are atomic and memory is sequentially consistent between them (data races inside one statement are not explored)", "package sync is replaced by the equivalent of harness/vsync"},
		Families: []*kit.Family{
			kit.F("two draws", "all pairs of draws; all schedules within the preemption bound", enumRaces, execRace).W(3),
			kit.F("sequences", "two draws in each of two threads, three and four threads", enumSeqRaces, execRace).W(2),
			kit.F("failing source", "one read of the random source fails in every place", enumFailRaces, execRace),
		},
	})
}
