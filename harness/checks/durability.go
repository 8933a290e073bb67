package checks

import (
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"verif/fault"
	"verif/kit"
)

// ---------------------------------------------------------------- C11

type crashCase struct {
	Old, New int    // states on disk before, to be saved
	Target   string // plain, link, rel, over (overwrite without loading), tilde
	At       int    // kill before this operation; -1: power model over all operations
	Cut      int    // let the operation before transfer only part of its data
}

var crashPairs = [][2]int{{1, 2}, {2, 1}, {0, 2}, {2, 0}, {1, 3}, {3, 1}, {3, 4}, {4, 3}, {0, 4}, {5, 1}, {1, 5}}
var crashTargets = []string{"plain", "link", "rel", "over", "tilde", "abslink"}

// layout puts the old store in place and returns the arguments of the driver
// and the path through which the store is read back.
func (c crashCase) layout(r *kit.Run, dir string) (args []string, store string) {
	store = filepath.Join(dir, "store")
	arg := store
	real := store
	switch c.Target {
	case "link":
		kit.Must(os.Mkdir(filepath.Join(dir, "sub"), 0700))
		real = filepath.Join(dir, "sub", "real")
		kit.Must(os.Symlink("sub/real", store))
	case "abslink":
		kit.Must(os.Mkdir(filepath.Join(dir, "sub"), 0700))
		real = filepath.Join(dir, "sub", "real")
		kit.Must(os.Symlink(real, store))
	case "rel":
		arg = "store"
	case "tilde":
		arg = "~/store"
	}
	kit.Must(os.WriteFile(real, stateBytes(r, c.Old), 0600))
	if c.Target == "over" {
		return []string{"create", arg, fmt.Sprint(c.New), "overwrite"}, store
	}
	return []string{"save", arg, fmt.Sprint(c.New)}, store
}

func crashCases(r *kit.Run, yield func(crashCase) bool) {
	pairs := crashPairs
	if !r.Thorough() {
		pairs = crashPairs[:9]
	}
	for _, p := range pairs {
		for _, t := range crashTargets {
			if !yield(crashCase{p[0], p[1], t, -1, 0}) {
				return
			}
		}
	}
}

func killCases(r *kit.Run, yield func(crashCase) bool) {
	pairs := [][2]int{{1, 2}, {2, 1}, {1, 3}, {3, 1}}
	targets := []string{"plain", "link", "over"}
	if r.Thorough() {
		pairs = crashPairs
		targets = crashTargets
	}
	for _, p := range pairs {
		for _, t := range targets {
			c := crashCase{p[0], p[1], t, 0, 0}
			n := c.probe(r)
			for i := 0; i <= n; i++ {
				if i > 0 && i < n && probeReads[c.key()][i] {
					continue // nothing has changed on disk since the operation before
				}
				for _, cut := range kit.Pick(r, []int{0, 17}, []int{0, 1, 3, 17, 500}) {
					if !yield(crashCase{p[0], p[1], t, i, cut}) {
						return
					}
				}
			}
		}
	}
}

var probes = map[crashCase]int{}
var probeReads = map[string]map[int]bool{}

func (c crashCase) key() string { return fmt.Sprint(c.Old, c.New, c.Target) }

// probe counts the observed operations of a complete run.
func (c crashCase) probe(r *kit.Run) int {
	c.At, c.Cut = 0, 0
	if n, ok := probes[c]; ok {
		return n
	}
	dir, done := r.Dir()
	defer done()
	args, _ := c.layout(r, dir)
	n := 0
	reads := map[int]bool{}
	_, err := fault.Run(driver(dir, args...), func(i int, ev *fault.Ev) *fault.Act {
		n = i + 1
		reads[i] = ev.Trap == fault.Read || ev.Trap == fault.Newfstatat || ev.Trap == fault.Fstat
		return &fault.Go
	})
	kit.Must(err)
	probes[c] = n
	probeReads[c.key()] = reads
	return n
}

// contentOf says which state the bytes load as: "old", "new" or the reason
// why neither.
type contentCache map[uint64]string

func (cc contentCache) of(r *kit.Run, b []byte, old, new string, pfks ...string) string {
	if b == nil {
		return "no file"
	}
	h := fnv.New64a()
	h.Write(b)
	s := h.Sum64()
	if v, ok := cc[s]; ok {
		return v
	}
	f := filepath.Join(r.Scratch, "crashed")
	kit.Must(os.WriteFile(f, b, 0600))
	v := whichState(f, old, new, pfks...)
	cc[s] = v
	return v
}

func whichState(f, old, new string, pfks ...string) string {
	if len(pfks) == 0 {
		pfks = []string{pfkHex}
	}
	var v string
	for _, p := range pfks {
		k := blank(5, 350, "")
		k.SetPersistence(f)
		kit.Must(k.SetPFKFromString(p))
		if err := k.Load(); err != nil {
			v = "a file that does not load: " + err.Error()
			continue
		}
		switch storeSnap(k) {
		case new:
			return "new"
		case old:
			return "old"
		default:
			return "another state: " + diff(old, storeSnap(k))
		}
	}
	return v
}

func execPower(r *kit.Run, c crashCase) error {
	dir, done := r.Dir()
	defer done()
	args, store := c.layout(r, dir)
	d := newDisk(dir)
	inodes := map[int]*inode{}
	old, new := stateSnap(c.Old), stateSnap(c.New)
	cache := contentCache{}
	var bad error
	states := 0
	sp := driver(dir, args...)
	check := func(when string, onlyNew bool) {
		if bad != nil {
			return
		}
		d.after(store, func(desc string, b []byte) bool {
			states++
			r.StateOf("power", c.Old, c.New, when, desc)
			w := cache.of(r, b, old, new)
			if w != "new" && (onlyNew || w != "old") {
				bad = kit.Fail("power lost %s, with %s on the medium: the store is %s", when, desc, w)
				return false
			}
			return true
		})
	}
	n := 0
	sp.Post = func(ev *fault.Ev) {
		d.event(ev, inodes)
		n++
		switch ev.Trap {
		case fault.Newfstatat, fault.Fstat, fault.Read, fault.Statx, fault.Readlinkat, fault.Close, fault.Lseek, fault.Fcntl:
			return // changes nothing on disk
		}
		check(fmt.Sprintf("after operation %d (%s)", n, strings.ReplaceAll(ev.String(), dir, "")), false)
	}
	res, err := fault.Run(sp, func(int, *fault.Ev) *fault.Act { return &fault.Go })
	kit.Must(err)
	r.Step(states)
	r.Count("crash_states", states)
	if bad != nil {
		return bad
	}
	if res.Code != 0 {
		return kit.Fail("an undisturbed save fails: %s%s", res.Out, res.Err)
	}
	if d.odd != "" {
		return kit.Broken("%s", d.odd)
	}
	b, err := os.ReadFile(store)
	kit.Must(err)
	in := d.now[d.follow(d.now, store)]
	if in == nil || string(in.current()) != string(b) {
		return kit.Broken("the model of the disk differs from the disk: %s", d)
	}
	r.Count("disk_model_validated_against_file", 1)
	check("after the save reported success", true)
	return bad
}

func execKill(r *kit.Run, c crashCase) error {
	dir, done := r.Dir()
	defer done()
	args, store := c.layout(r, dir)
	reached := false
	partial := false
	what := "the end"
	res, err := fault.Run(driver(dir, args...), func(i int, ev *fault.Ev) *fault.Act {
		if i == c.At {
			what = ev.String()
			if c.Cut > 0 && (ev.Trap == fault.Write || ev.Trap == fault.Pwrite) && len(ev.Data) > c.Cut {
				partial = true
				return &fault.Act{Kind: 2, Val: uint64(c.Cut)}
			}
			reached = true
			return nil
		}
		if i == c.At+1 && partial {
			reached = true
			return nil
		}
		return &fault.Go
	})
	kit.Must(err)
	r.Step(c.At + 1)
	r.StateOf("kill", c.Old, c.New, c.Target, what, c.Cut)
	w := whichState(store, stateSnap(c.Old), stateSnap(c.New))
	if reached {
		if w != "old" && w != "new" {
			return kit.Fail("killed at operation %d (%s): the store is %s", c.At, strings.ReplaceAll(what, dir, ""), w)
		}
	} else if res.Code != 0 || w != "new" {
		return kit.Fail("an undisturbed save: exit %d %s, the store is %s", res.Code, res.Out, w)
	}
	// whatever the crash left behind, the next save works
	res, err = fault.Run(driver(dir, args...), func(int, *fault.Ev) *fault.Act { return &fault.Go })
	kit.Must(err)
	if w := whichState(store, stateSnap(c.Old), stateSnap(c.New)); res.Code != 0 || w != "new" {
		return kit.Fail("the save after a crash at operation %d: exit %d %s, the store is %s", c.At, res.Code, res.Out, w)
	}
	return nil
}

func init() {
	kit.Register(&kit.Prop{
		ID: "C11", Level: "fault_enumeration",
		Rule:   "real saves by a real process, crash states of a file system model fed with its system calls, and real kills",
		Bounds: "9 (thorough 11) pairs of store states from 0 to thousands of keys, over plain files, symbolic links, relative and home paths; power loss after every operation with every prefix of directory operations x every prefix of data operations, torn at every sector, and all but one of them; kill before every operation and in the middle of every write",
		Assumptions: []string{
			"file data is on the medium after fsync of the file, directory entries after fsync of the directory; directory operations reach it in order",
			"rename replaces the target atomically",
		},
		Families: []*kit.Family{
			kit.F("power", "every state a power failure can leave during a save", crashCases, execPower).W(1),
			kit.F("kill", "the process is killed at every operation", killCases, execKill).W(2),
			kit.F("cli", "power failure during every command that saves", cliCrashCases, execCLICrash).W(1),
		},
	})
	kit.Register(&kit.Prop{
		ID: "C12", Level: "fault_enumeration",
		Rule:        "real saves and printouts by a real process with every system call failing in every way, once, persistently, and in pairs",
		Bounds:      "every file operation of a save, load or printout x error numbers x once/persistently from there on x short transfers, for pairs of store states over plain, linked and new files",
		Assumptions: []string{"a failing close has still closed the descriptor; a failing operation has had no effect"},
		Families: []*kit.Family{
			kit.F("save", "faults while saving over a store", faultCases, execFault).W(3),
			kit.F("print", "faults while writing printouts", printFaultCases, execPrintFault).W(1),
			kit.F("cli", "faults during every command that saves", cliFaultCases, execCLIFault).W(2),
		},
	})
}

// ---------------------------------------------------------------- C12

type faultCase struct {
	Old, New int // Old -1: no file yet
	Target   string
	At       int
	Errno    int // 0: short transfer of one byte
	Forever  bool
	Second   int // a second fault this many operations later (0: none)
}

var faultErrnos = []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EACCES, syscall.EDQUOT, syscall.EROFS, syscall.EMFILE, syscall.EINVAL, syscall.EPERM}

func (c faultCase) crash() crashCase { return crashCase{c.Old, c.New, c.Target, 0, 0} }

func faultCases(r *kit.Run, yield func(faultCase) bool) {
	pairs := [][2]int{{1, 2}, {1, 3}, {3, 1}, {-1, 2}}
	targets := []string{"plain", "link", "over"}
	if r.Thorough() {
		pairs = append([][2]int{{-1, 2}, {-1, 4}}, crashPairs...)
		targets = crashTargets
	}
	for _, p := range pairs {
		for _, t := range targets {
			if p[0] < 0 && t != "plain" {
				continue
			}
			c := faultCase{Old: p[0], New: p[1], Target: t}
			n := c.probe(r)
			for i := 0; i < n+2; i++ {
				for _, e := range append([]syscall.Errno{0}, kit.Pick(r, faultErrnos[:3], faultErrnos)...) {
					for _, f := range []bool{false, true} {
						c.At, c.Errno, c.Forever = i, int(e), f
						c.Second = 0
						if !yield(c) {
							return
						}
					}
				}
				for s := 1; s <= kit.Pick(r, 4, 8); s++ {
					c.At, c.Errno, c.Forever, c.Second = i, int(syscall.EIO), false, s
					if !yield(c) {
						return
					}
				}
			}
		}
	}
}

var faultProbes = map[string]int{}

func (c faultCase) setup(r *kit.Run, dir string) (args []string, store string) {
	if c.Old < 0 {
		store = filepath.Join(dir, "store")
		return []string{"create", store, fmt.Sprint(c.New)}, store
	}
	return c.crash().layout(r, dir)
}

func (c faultCase) probe(r *kit.Run) int {
	key := fmt.Sprint(c.Old, c.New, c.Target)
	if n, ok := faultProbes[key]; ok {
		return n
	}
	dir, done := r.Dir()
	defer done()
	args, _ := c.setup(r, dir)
	n := 0
	_, err := fault.Run(driver(dir, args...), func(i int, ev *fault.Ev) *fault.Act { n = i + 1; return &fault.Go })
	kit.Must(err)
	faultProbes[key] = n
	return n
}

// inject decides on the i-th operation of a run with a fault at position at.
func inject(i int, ev *fault.Ev, at int, errno int, forever bool, second int) *fault.Act {
	hit := i == at || forever && i > at || second > 0 && i == at+second
	if !hit {
		return &fault.Go
	}
	if errno == 0 {
		// a short transfer is a fault of reads and writes only
		switch ev.Trap {
		case fault.Read, fault.Write, fault.Pread, fault.Pwrite:
			if ev.A[2] > 1 {
				if forever {
					return &fault.Act{Kind: 2, Val: (ev.A[2] + 1) / 2}
				}
				return &fault.Act{Kind: 2, Val: 1}
			}
		}
		return &fault.Go
	}
	if ev.Trap == fault.Close {
		return &fault.Act{Kind: 1, Val: uint64(errno)}
	}
	a := fault.FailWith(syscall.Errno(errno))
	return &a
}

func execFault(r *kit.Run, c faultCase) error {
	dir, done := r.Dir()
	defer done()
	args, store := c.setup(r, dir)
	what := ""
	res, err := fault.Run(driver(dir, args...), func(i int, ev *fault.Ev) *fault.Act {
		if i == c.At {
			what = strings.ReplaceAll(ev.String(), dir, "")
		}
		return inject(i, ev, c.At, c.Errno, c.Forever, c.Second)
	})
	kit.Must(err)
	r.Step(len(res.Log))
	return c.judge(r, res, store, what)
}

func (c faultCase) judge(r *kit.Run, res fault.Result, store, what string) error {
	r.StateOf("fault", c.Old, c.New, c.Target, what, c.Errno, c.Forever, c.Second, res.Code)
	desc := fmt.Sprintf("operation %d (%s) fails with %v forever=%v second=%d", c.At, what, syscall.Errno(c.Errno), c.Forever, c.Second)
	if res.Hung {
		return kit.Fail("%s: the program hangs", desc)
	}
	if strings.Contains(res.Err, "panic:") || strings.Contains(res.Err, "goroutine ") {
		return kit.Fail("%s: the program crashes: %s", desc, trunc(res.Err))
	}
	old := ""
	if c.Old >= 0 {
		old = stateSnap(c.Old)
	}
	w := "no file"
	if _, err := os.Stat(store); err == nil {
		w = whichState(store, old, stateSnap(c.New))
	}
	switch {
	case res.Code == 0 && w != "new":
		return kit.Fail("%s: success is reported and the store is %s", desc, w)
	case res.Code != 0 && c.Old >= 0 && w != "old":
		return kit.Fail("%s: an error is reported (%s) and the store is %s", desc, strings.TrimSpace(res.Out), w)
	case c.Errno == 0 && res.Code != 0:
		// short transfers are legal and must be continued
		return kit.Fail("%s: a short transfer makes it fail: %s", desc, strings.TrimSpace(res.Out))
	}
	return nil
}

type printFault struct {
	Op      string
	State   int
	Exists  bool
	At      int
	Errno   int
	Forever bool
}

func printFaultCases(r *kit.Run, yield func(printFault) bool) {
	for _, op := range []string{"keystxt", "msgstxt"} {
		for _, st := range []int{6, 1, 2, 3} {
			for _, ex := range []bool{false, true} {
				c := printFault{Op: op, State: st, Exists: ex}
				n := c.probe(r)
				for i := 0; i < n+2; i++ {
					for _, e := range append([]syscall.Errno{0}, faultErrnos...) {
						for _, f := range []bool{false, true} {
							c.At, c.Errno, c.Forever = i, int(e), f
							if !yield(c) {
								return
							}
						}
					}
				}
			}
		}
	}
}

func (c printFault) file(dir string) string {
	f := filepath.Join(dir, "out.txt")
	if c.Exists {
		kit.Must(os.WriteFile(f, []byte(strings.Repeat("what was there before\n", 40)), 0600))
	}
	return f
}

func (c printFault) probe(r *kit.Run) int {
	key := fmt.Sprint(c.Op, c.State, c.Exists)
	if n, ok := faultProbes[key]; ok {
		return n
	}
	dir, done := r.Dir()
	defer done()
	n := 0
	_, err := fault.Run(driver(dir, c.Op, c.file(dir), fmt.Sprint(c.State)), func(i int, ev *fault.Ev) *fault.Act { n = i + 1; return &fault.Go })
	kit.Must(err)
	faultProbes[key] = n
	return n
}

func execPrintFault(r *kit.Run, c printFault) error {
	dir, done := r.Dir()
	defer done()
	f := c.file(dir)
	what := ""
	res, err := fault.Run(driver(dir, c.Op, f, fmt.Sprint(c.State)), func(i int, ev *fault.Ev) *fault.Act {
		if i == c.At {
			what = strings.ReplaceAll(ev.String(), dir, "")
		}
		return inject(i, ev, c.At, c.Errno, c.Forever, 0)
	})
	kit.Must(err)
	r.Step(len(res.Log))
	r.StateOf("print", c.Op, c.State, what, c.Errno, c.Forever, res.Code)
	if res.Hung || strings.Contains(res.Err, "goroutine ") {
		return kit.Fail("the program crashes or hangs: %s", trunc(res.Err))
	}
	k := stateStore(c.State)
	want := ""
	if c.Op == "keystxt" {
		want = k.KeysAsText(func(*Key) bool { return true })
	} else {
		want = k.MessagesAsText(func(*Msg) bool { return true })
	}
	b, _ := os.ReadFile(f)
	desc := fmt.Sprintf("operation %d (%s) fails with %v forever=%v", c.At, what, syscall.Errno(c.Errno), c.Forever)
	if res.Code == 0 && string(b) != want {
		return kit.Fail("%s: success is reported and the printout has %d of %d bytes", desc, len(b), len(want))
	}
	if c.Errno == 0 && res.Code != 0 {
		return kit.Fail("%s: a short transfer makes it fail: %s", desc, strings.TrimSpace(res.Out))
	}
	return nil
}

// ---------------------------------------------------------------- C13, failing reads

type loadFault struct {
	State   int
	At      int
	Errno   int
	Forever bool
}

func loadFaultCases(r *kit.Run, yield func(loadFault) bool) {
	for _, st := range []int{0, 1, 3} {
		c := loadFault{State: st}
		n := 0
		c.run(r, func(i int, ev *fault.Ev) *fault.Act { n = i + 1; return &fault.Go })
		for at := 0; at < n+1; at++ {
			for _, e := range append([]syscall.Errno{0}, faultErrnos...) {
				for _, f := range []bool{false, true} {
					if !yield(loadFault{st, at, int(e), f}) {
						return
					}
				}
			}
		}
	}
}

func (c loadFault) run(r *kit.Run, d func(int, *fault.Ev) *fault.Act) fault.Result {
	dir, done := r.Dir()
	defer done()
	f := filepath.Join(dir, "store")
	kit.Must(os.WriteFile(f, stateBytes(r, c.State), 0600))
	res, err := fault.Run(driver(dir, "load", f, fmt.Sprint(c.State)), d)
	kit.Must(err)
	return res
}

func execLoadFault(r *kit.Run, c loadFault) error {
	what := ""
	res := c.run(r, func(i int, ev *fault.Ev) *fault.Act {
		if i == c.At {
			what = ev.Name()
		}
		return inject(i, ev, c.At, c.Errno, c.Forever, 0)
	})
	r.Step(len(res.Log))
	r.StateOf("load", c.State, what, c.At, c.Errno, c.Forever, res.Code)
	desc := fmt.Sprintf("operation %d (%s) of loading fails with %v forever=%v", c.At, what, syscall.Errno(c.Errno), c.Forever)
	if res.Hung || (res.Code != 0 && res.Code != 1) {
		return kit.Fail("%s: %s %s", desc, trunc(res.Out), trunc(res.Err))
	}
	if c.Errno == 0 && res.Code != 0 {
		return kit.Fail("%s: a short read makes it fail: %s", desc, trunc(res.Out))
	}
	return nil
}
