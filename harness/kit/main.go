package kit

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// VerifDir is where MANIFEST.json lives; set by run.sh.
func VerifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type options struct {
	id, tier, replay, worker, budget, out, cur, only string
	seed                                             int64
}

// Main is the entry point of the check binary.
func Main() {
	o := options{tier: "quick", seed: 1}
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		o.tier = t
	}
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		o.seed = s
	}
	args := os.Args[1:]
	for i := 0; i < len(args); i++ {
		next := func() string { i++; return args[i] }
		switch args[i] {
		case "--tier":
			o.tier = next()
		case "--replay":
			o.replay = next()
		case "--worker":
			o.worker = next()
		case "--budget":
			o.budget = next()
		case "--out":
			o.out = next()
		case "--cur":
			o.cur = next()
		case "--only":
			o.only = next()
		default:
			o.id = args[i]
		}
	}
	p := Props[o.id]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", o.id)
		os.Exit(2)
	}
	if o.worker != "" {
		worker(p, o)
		return
	}
	if o.replay != "" {
		replay(p, o)
		return
	}
	os.Exit(parent(p, o))
}

func knownFindings(id string) (keys map[string]bool, text map[string]string) {
	keys, text = map[string]bool{}, map[string]string{}
	b, err := os.ReadFile(filepath.Join(VerifDir(), "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		// known: property=C27 key=<key> <what fails>
		rest, ok := strings.CutPrefix(l, "known: property="+id+" key=")
		if !ok {
			continue
		}
		k, what, _ := strings.Cut(rest, " ")
		keys[k] = true
		text[k] = what
	}
	return
}

// ---------------------------------------------------------------- worker

func newRun(p *Prop, o options, shard, shards int) *Run {
	r := &Run{ID: p.ID, Tier: o.tier, Seed: o.seed, Shard: shard, Shards: shards,
		states: map[uint64]struct{}{}, distinct: map[uint64]struct{}{}}
	r.Known, _ = knownFindings(p.ID)
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	d, err := os.MkdirTemp(base, "w")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	r.Scratch = d
	return r
}

// quiet sends what the code under test prints to /dev/null; the real file
// descriptors 1 and 2 stay available to the runtime (fatal errors).
//
// The original files are kept: one that nothing refers to is closed by the
// garbage collector, its number is given to the next pipe, and the runtime
// ends a program whose pipe number 1 or 2 breaks.
var kept [2]*os.File

func quiet() {
	kept = [2]*os.File{os.Stdout, os.Stderr}
	n, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err != nil {
		return
	}
	os.Stdout = n
	os.Stderr = n
	log.SetOutput(io.Discard)
}

func worker(p *Prop, o options) {
	a, b, _ := strings.Cut(o.worker, "/")
	shard, _ := strconv.Atoi(a)
	shards, _ := strconv.Atoi(b)
	budget, _ := time.ParseDuration(o.budget)
	out, err := os.Create(o.out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	cf, err := os.OpenFile(o.cur, os.O_RDWR|os.O_CREATE, 0600)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	cf.Truncate(4096)
	m, err := syscall.Mmap(int(cf.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	slotFam := (*int64)(unsafe.Pointer(&m[0]))
	slotIdx := (*int64)(unsafe.Pointer(&m[8]))
	slotSeq := (*int64)(unsafe.Pointer(&m[16]))
	runtime.GOMAXPROCS(2)
	quiet()
	enc := json.NewEncoder(out)
	r := newRun(p, o, shard, shards)
	defer os.RemoveAll(r.Scratch)
	onlyFam, onlyIdx := "", int64(-1)
	if o.only != "" {
		f, i, _ := strings.Cut(o.only, "@")
		onlyFam = f
		onlyIdx, _ = strconv.ParseInt(i, 10, 64)
	}
	weights := 0.0
	for _, f := range p.Families {
		weights += f.Weight
	}
	left := budget
	for fi, f := range p.Families {
		if onlyFam != "" && f.Name != onlyFam {
			continue
		}
		share := time.Duration(float64(left) * f.Weight / weights)
		weights -= f.Weight
		start := time.Now()
		atomic.StoreInt64(slotFam, int64(fi))
		deadline := start.Add(share)
		r.Deadline = deadline
		res, viol, herr := runFamily(f, r, deadline, func(idx int64) {
			atomic.StoreInt64(slotIdx, idx)
			atomic.AddInt64(slotSeq, 1)
		}, onlyIdx)
		left -= time.Since(start)
		if left < time.Second {
			left = time.Second
		}
		enc.Encode(workerMsg{T: "fam", Fam: &res})
		if herr != nil {
			enc.Encode(workerMsg{T: "err", Err: herr.Error()})
			continue
		}
		if viol != nil {
			enc.Encode(workerMsg{T: "viol", Viol: viol})
			break
		}
	}
	atomic.StoreInt64(slotIdx, -1)
	enc.Encode(workerMsg{T: "done", Known: r.findings})
	writeSet(o.out+".states", r.states)
	writeSet(o.out+".distinct", r.distinct)
	out.Close()
	os.RemoveAll(r.Scratch)
	os.Exit(0)
}

func writeSet(path string, s map[uint64]struct{}) {
	b := make([]byte, 0, 8*len(s))
	for h := range s {
		b = binary.LittleEndian.AppendUint64(b, h)
	}
	os.WriteFile(path, b, 0600)
}

func readSet(path string, into map[uint64]struct{}) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for i := 0; i+8 <= len(b); i += 8 {
		into[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
	}
}

// ---------------------------------------------------------------- parent

type workerOutcome struct {
	shard   int
	fams    []famResult
	viol    *violMsg
	errs    []string
	known   map[string]string
	done    bool
	hang    bool
	crash   string
	curFam  int
	curIdx  int64
	outPath string
}

func selfExe() string {
	e, err := os.Executable()
	if err != nil {
		return os.Args[0]
	}
	return e
}

func runWorker(p *Prop, o options, scratch string, tag string, shard, shards int, budget time.Duration, only string) workerOutcome {
	wo := workerOutcome{shard: shard, curIdx: -1}
	out := filepath.Join(scratch, tag+".out")
	cur := filepath.Join(scratch, tag+".cur")
	errf := filepath.Join(scratch, tag+".err")
	wo.outPath = out
	ef, _ := os.Create(errf)
	args := []string{p.ID, "--tier", o.tier, "--worker", fmt.Sprintf("%d/%d", shard, shards),
		"--budget", budget.String(), "--out", out, "--cur", cur}
	if only != "" {
		args = append(args, "--only", only)
	}
	cmd := exec.Command(selfExe(), args...)
	cmd.Env = append(os.Environ(), "VERIF_SCRATCH="+scratch, "VERIF_TIER="+o.tier, fmt.Sprintf("VERIF_SEED=%d", o.seed), "GOTRACEBACK=all")
	cmd.Stdout = ef
	cmd.Stderr = ef
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		wo.errs = append(wo.errs, err.Error())
		return wo
	}
	finished := make(chan error, 1)
	go func() { finished <- cmd.Wait() }()
	readCur := func() (fam, idx, seq int64) {
		b, err := os.ReadFile(cur)
		if err != nil || len(b) < 24 {
			return 0, -1, 0
		}
		return int64(binary.LittleEndian.Uint64(b)), int64(binary.LittleEndian.Uint64(b[8:])), int64(binary.LittleEndian.Uint64(b[16:]))
	}
	var lastSeq int64 = -1
	lastChange := time.Now()
	var werr error
loop:
	for {
		select {
		case werr = <-finished:
			break loop
		case <-time.After(300 * time.Millisecond):
		}
		fam, idx, seq := readCur()
		if seq != lastSeq {
			lastSeq = seq
			lastChange = time.Now()
			continue
		}
		limit := 120 * time.Second
		if fam >= 0 && int(fam) < len(p.Families) && p.Families[fam].CaseTimeout > 0 {
			limit = p.Families[fam].CaseTimeout
		}
		if idx >= 0 && time.Since(lastChange) > limit {
			wo.hang = true
			syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
			select {
			case <-finished:
			case <-time.After(2 * time.Second):
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-finished
			}
			break loop
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) // stray children
	ef.Close()
	fam, idx, _ := readCur()
	wo.curFam, wo.curIdx = int(fam), idx
	f, err := os.Open(out)
	if err == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var m workerMsg
			if json.Unmarshal(sc.Bytes(), &m) != nil {
				continue
			}
			switch m.T {
			case "fam":
				wo.fams = append(wo.fams, *m.Fam)
			case "viol":
				wo.viol = m.Viol
			case "err":
				wo.errs = append(wo.errs, m.Err)
			case "done":
				wo.done = true
				wo.known = m.Known
			}
		}
		f.Close()
	}
	if !wo.done && !wo.hang {
		b, _ := os.ReadFile(errf)
		wo.crash = fmt.Sprintf("worker ended: %v\n%s", werr, short(string(bytes.TrimSpace(b)), 3000))
	}
	return wo
}

func parent(p *Prop, o options) int {
	start := time.Now()
	budget := p.Quick
	if budget == 0 {
		budget = 200 * time.Second
	}
	if o.tier == "thorough" {
		budget = p.Thorough
		if budget == 0 {
			budget = 760 * time.Second
		}
	}
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	scratch, err := os.MkdirTemp(base, "verif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	os.Chmod(scratch, 0755)
	shards := runtime.NumCPU()
	if shards > 8 {
		shards = 8
	}
	if shards < 1 {
		shards = 1
	}
	outs := make([]workerOutcome, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			outs[i] = runWorker(p, o, scratch, fmt.Sprintf("s%d", i), i, shards, budget, "")
		}(i)
	}
	wg.Wait()

	var viols []*violMsg
	var notes, errs []string
	known := map[string]string{}
	for i := range outs {
		w := &outs[i]
		errs = append(errs, w.errs...)
		for k, v := range w.known {
			known[k] = v
		}
		if w.viol != nil {
			if w.viol.Repeats == 4 {
				viols = append(viols, w.viol)
			} else if len(viols) == 0 {
				// Depends on what ran before it in the worker: the whole shard
				// must fail again at the same place.
				again := runWorker(p, o, scratch, fmt.Sprintf("r%d", i), w.shard, shards, budget, fmt.Sprintf("%s@%d", w.viol.Family, w.viol.Index))
				if again.viol != nil {
					w.viol.Msg += "\n(reproduced by re-running the worker's sequence of cases)"
					viols = append(viols, w.viol)
				} else {
					notes = append(notes, "unstable, not reported: "+short(w.viol.Msg, 300))
				}
			}
		}
		if (w.hang || w.crash != "") && len(viols) == 0 {
			if w.curIdx >= 0 && w.curFam < len(p.Families) {
				f := p.Families[w.curFam]
				again := runWorker(p, o, scratch, fmt.Sprintf("r%d", i), w.shard, shards, budget, fmt.Sprintf("%s@%d", f.Name, w.curIdx))
				if again.viol != nil {
					viols = append(viols, again.viol)
				} else if (again.hang || again.crash != "") && again.curIdx == w.curIdx {
					what := "the program hangs"
					if again.crash != "" {
						what = "the program crashes: " + again.crash
					}
					viols = append(viols, &violMsg{Family: f.Name, Index: w.curIdx, Case: caseOf(p, o, f, w.curIdx, scratch), Msg: what, Repeats: 4})
				} else {
					notes = append(notes, "unstable, not reported: "+short(w.crash, 300))
				}
			} else {
				errs = append(errs, short(w.crash, 1500))
			}
		}
	}
	// Merge.
	states, distinct := map[uint64]struct{}{}, map[uint64]struct{}{}
	for i := range outs {
		readSet(outs[i].outPath+".states", states)
		readSet(outs[i].outPath+".distinct", distinct)
	}
	var fams []*famResult
	byName := map[string]*famResult{}
	for _, f := range p.Families {
		fr := &famResult{Name: f.Name, Exhaustive: true}
		byName[f.Name] = fr
		fams = append(fams, fr)
	}
	for i := range outs {
		seen := map[string]bool{}
		for _, fr := range outs[i].fams {
			m := byName[fr.Name]
			seen[fr.Name] = true
			m.Execs += fr.Execs
			m.Transitions += fr.Transitions
			if fr.Cases > m.Cases {
				m.Cases = fr.Cases
			}
			if !fr.Exhaustive {
				m.Exhaustive = false
			}
			if fr.WallS > m.WallS {
				m.WallS = fr.WallS
			}
			if len(m.Samples) < 2 {
				m.Samples = append(m.Samples, fr.Samples...)
			}
			for k, v := range fr.Extra {
				if m.Extra == nil {
					m.Extra = map[string]int64{}
				}
				m.Extra[k] += v
			}
		}
		for _, fr := range fams {
			if !seen[fr.Name] {
				fr.Exhaustive = false
			}
		}
	}
	var execs, trans int64
	exhaustive := len(errs) == 0
	var samples []string
	famCov := []map[string]any{}
	for i, fr := range fams {
		execs += fr.Execs
		trans += fr.Transitions
		if !fr.Exhaustive {
			exhaustive = false
		}
		for _, s := range fr.Samples {
			samples = append(samples, fr.Name+": "+s)
		}
		c := map[string]any{"family": fr.Name, "rule": p.Families[i].Rule, "executions": fr.Execs,
			"transitions": fr.Transitions, "exhaustive": fr.Exhaustive, "wall_s": fr.WallS}
		for k, v := range fr.Extra {
			c[k] = v
		}
		famCov = append(famCov, c)
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	cov := map[string]any{"samples": samples, "exhaustive": exhaustive, "families": famCov, "bounds": p.Bounds}
	if p.Level == "model_checking" {
		cov["states"] = len(states)
		cov["transitions"] = trans
		cov["traces_validated_against_impl"] = execs
	} else {
		cov["evaluations"] = execs
		cov["distinct_nontrivial"] = len(distinct)
		cov["rule"] = p.Rule
		cov["transitions"] = trans
		cov["states"] = len(states)
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	if len(errs) > 0 {
		cov["machinery_errors"] = errs
	}
	ev := map[string]any{"property": p.ID, "tier": o.tier, "seed": o.seed, "level": p.Level,
		"coverage": cov, "assumptions": p.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(viols)}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	evDir := os.Getenv("VERIF_EVIDENCE")
	if evDir == "" {
		evDir = filepath.Join(VerifDir(), "evidence")
	}
	os.MkdirAll(evDir, 0755)
	if err := os.WriteFile(filepath.Join(evDir, p.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	_, ktext := knownFindings(p.ID)
	for _, k := range sortedKeys(known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.ID, k, ktext[k])
	}
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	if len(viols) == 0 {
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, "MACHINERY:", e)
		}
		fmt.Printf("%s: held on everything explored: %d executions, %d transitions, %d states, exhaustive=%v, %.1fs\n",
			p.ID, execs, trans, len(states), exhaustive, time.Since(start).Seconds())
		if len(errs) > 0 {
			return 2
		}
		return 0
	}
	rdir := filepath.Join(VerifDir(), "replays")
	os.MkdirAll(rdir, 0755)
	for i, v := range viols {
		if i >= 3 {
			break
		}
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", p.ID, i+1))
		rb, _ := json.MarshalIndent(map[string]any{"property": p.ID, "family": v.Family, "index": v.Index, "tier": o.tier, "seed": o.seed,
			"case": json.RawMessage(orNull(v.Case)), "key": v.Key, "message": v.Msg}, "", " ")
		os.WriteFile(path, append(rb, '\n'), 0644)
		fmt.Printf("%s/%s: %s\n  case %s\n", p.ID, v.Family, v.Msg, short(v.Case, 1000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	}
	return 1
}

func orNull(s string) string {
	if !json.Valid([]byte(s)) {
		return "null"
	}
	return s
}

// caseOf prints case number idx of a family.
func caseOf(p *Prop, o options, f *Family, idx int64, scratch string) (s string) {
	defer func() {
		if recover() != nil {
			s = "null"
		}
	}()
	r := newRun(p, o, 0, 1)
	defer os.RemoveAll(r.Scratch)
	n := int64(-1)
	f.enum(r, func(cs any) bool {
		n++
		if n == idx {
			s = caseJSON(cs)
			return false
		}
		return true
	})
	return
}

// replay executes the one case of a replay file.
func replay(p *Prop, o options) {
	b, err := os.ReadFile(o.replay)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var rf struct {
		Family string          `json:"family"`
		Tier   string          `json:"tier"`
		Seed   int64           `json:"seed"`
		Case   json.RawMessage `json:"case"`
	}
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	o.tier, o.seed = rf.Tier, rf.Seed
	for _, f := range p.Families {
		if f.Name != rf.Family {
			continue
		}
		cs, err := f.decode(rf.Case)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		r := newRun(p, o, 0, 1)
		so, se := os.Stdout, os.Stderr
		quiet()
		err = guard(f, r, cs)
		os.Stdout, os.Stderr = so, se
		os.RemoveAll(r.Scratch)
		if err == nil {
			fmt.Println("replay: the property holds on this case")
			os.Exit(0)
		}
		fmt.Println(err)
		if _, ok := err.(*HarnessError); ok {
			os.Exit(2)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, o.replay)
		os.Exit(1)
	}
	fmt.Fprintln(os.Stderr, "no such family")
	os.Exit(2)
}
