package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/sa6mwa/krypto431"
	"verif/fault"
	"verif/kit"
)

// cli runs the real command line program under observation.
func cli(root string, stdin string, args ...string) fault.Spec {
	return fault.Spec{Bin: builtBin("krypto431"), Args: args, Env: baseEnv(root), Dir: root, Root: root, Stdin: stdin}
}

// a command that changes a store
type savingCommand struct {
	Name  string
	Args  []string // STORE and OTHER stand for files
	Stdin string
	Pfks  []string // keys the store may afterwards be opened with
	Other bool     // needs a second store to import from
	// a password the store (or the other one) is under, one it may be under
	// afterwards, a key that is shown
	Pw, OtherPw, NewPw string
	Shown              bool
	Script             []say // typed, on a terminal
}

var typedPw = say{Wait: "Enter decryption key: ", Send: chOldPw + enter}

func typedNew(prompt string) []say {
	return []say{{Wait: prompt, Send: chNewPw + enter}, {Wait: "(repeat) ", Send: chNewPw + enter}}
}

// pfks are the keys the store may be under, the last one is that of success.
func (c savingCommand) pfks(out string) []string {
	p := append([]string{}, c.Pfks...)
	if c.Pw != "" {
		p = append(p, derived(c.Pw, krypto431.DefaultSalt))
	} else if len(p) == 0 {
		p = append(p, pfkHex)
	}
	if c.NewPw != "" {
		p = append(p, derived(c.NewPw, krypto431.DefaultSalt))
	}
	if c.Shown {
		p = append(p, hex64.FindAllString(out, -1)...)
	}
	return p
}

func (c savingCommand) run(sp fault.Spec, decide func(int, *fault.Ev) *fault.Act) (fault.Result, error) {
	if c.Script != nil {
		return talkRun(sp, c.Script, decide)
	}
	return fault.Run(sp, decide)
}

// underPw is a state sealed with a password.
func underPw(r *kit.Run, v int, pw string) []byte {
	id := fmt.Sprint("pw", v, pw)
	if b, ok := impFiles.Load(id); ok {
		return b.([]byte)
	}
	f := filepath.Join(r.Scratch, "sealed")
	sealed(r, f, v, derived(pw, krypto431.DefaultSalt))
	b, err := os.ReadFile(f)
	kit.Must(err)
	impFiles.Store(id, b)
	return b
}

var savingCommands = []savingCommand{
	{Name: "generate", Args: []string{"-K", pfkHex, "-f", "STORE", "keys", "-n", "2", "-k", "BB"}},
	{Name: "generate-many", Args: []string{"-K", pfkHex, "-f", "STORE", "keys", "-n", "400", "-k", "BB"}},
	{Name: "delete-key", Args: []string{"-K", pfkHex, "-f", "STORE", "keys", "-d", "-y", "-i", "AABMM"}},
	{Name: "delete-message", Args: []string{"-K", pfkHex, "-f", "STORE", "messages", "-d", "-y", "-i", "m001"}},
	{Name: "new-message", Args: []string{"-K", pfkHex, "-f", "STORE", "messages", "-n"}, Stdin: "BB DE S1 010203 = HELLO WORLD = K\n"},
	{Name: "new-message", Args: []string{"-K", pfkHex, "-f", "STORE", "messages", "-n"}, Stdin: "CC DE BB 010203 = WELL RECEIVED = K\n"},
	{Name: "change-pfk", Args: []string{"-K", pfkHex, "pfk", "-c", "STORE", "-y", "-k", pfkHex2}, Pfks: []string{pfkHex, pfkHex2}},
	{Name: "initialize", Args: []string{"-K", pfkHex, "-f", "STORE", "init", "-y", "-c", "QQ", "-n", "3"}},
	{Name: "export", Args: []string{"-K", pfkHex, "-f", "OTHER", "keys", "-E", "STORE", "-y", "--all"}, Other: true},
	{Name: "change-pfk", Args: []string{"-K", pfkHex, "pfk", "-c", "STORE", "-y", "-N", chNewPw}, NewPw: chNewPw},
	{Name: "change-pfk", Args: []string{"-K", pfkHex, "pfk", "-c", "STORE", "-y", "-r"}, Shown: true},
	{Name: "change-pfk", Args: []string{"pfk", "-c", "STORE", "-y"}, Pw: chOldPw, NewPw: chNewPw, Script: append([]say{typedPw}, typedNew("Enter new encryption key: ")...)},
	{Name: "initialize", Args: []string{"-f", "STORE", "init", "-y", "-c", "QQ", "-n", "3"}, NewPw: chNewPw, Script: typedNew("Enter encryption key: ")},
	{Name: "delete-keys", Args: []string{"-K", pfkHex, "-f", "STORE", "keys", "-d"}, Script: []say{{Wait: "Select key(s) to delete", Send: right + enter}}},
	{Name: "delete-messages", Args: []string{"-f", "STORE", "messages", "-d"}, Pw: chOldPw, Script: []say{typedPw, {Wait: "Select message(s) to delete", Send: right + enter}}},
	{Name: "import", Args: []string{"-K", pfkHex, "-f", "STORE", "keys", "-I", "OTHER", "--all"}, Other: true, OtherPw: chOldPw, Script: []say{typedPw}},
}

func (c savingCommand) layout(r *kit.Run, dir string, old int) (fault.Spec, string) {
	store := filepath.Join(dir, "store")
	other := filepath.Join(dir, "other")
	if old >= 0 {
		b := stateBytes(r, old)
		if c.Pw != "" {
			b = underPw(r, old, c.Pw)
		}
		kit.Must(os.WriteFile(store, b, 0600))
	}
	if c.Other {
		b := stateBytes(r, 3)
		if c.OtherPw != "" {
			_, src := importCase{Src: []int{0, 1, 2}}.stores()
			b = importCase{}.seal(src, "other", nil, derived(c.OtherPw, krypto431.DefaultSalt))
		}
		kit.Must(os.WriteFile(other, b, 0600))
	}
	var args []string
	for _, a := range c.Args {
		args = append(args, strings.NewReplacer("STORE", store, "OTHER", other).Replace(a))
	}
	return cli(dir, c.Stdin, args...), store
}

type cliCrash struct {
	Cmd int
	Old int
}

func cliCrashCases(r *kit.Run, yield func(cliCrash) bool) {
	for i := range savingCommands {
		for _, o := range kit.Pick(r, []int{1, 3}, []int{1, 2, 3, 4}) {
			if !yield(cliCrash{i, o}) {
				return
			}
		}
	}
}

// execCLICrash: power fails at every moment of a command that saves.
func execCLICrash(r *kit.Run, c cliCrash) error {
	cmd := savingCommands[c.Cmd]
	dir, done := r.Dir()
	defer done()
	sp, store := cmd.layout(r, dir, c.Old)
	d := newDisk(dir)
	inodes := map[int]*inode{}
	type snap struct {
		when, desc string
		b          []byte
	}
	var snaps []snap
	seen := map[string]bool{}
	collect := func(when string) {
		d.after(store, func(desc string, b []byte) bool {
			k := string(b)
			if b == nil {
				k = "\x00none"
			}
			if !seen[k] {
				seen[k] = true
				snaps = append(snaps, snap{when, desc, b})
			}
			return true
		})
	}
	n := 0
	sp.Post = func(ev *fault.Ev) {
		d.event(ev, inodes)
		n++
		collect(fmt.Sprintf("after operation %d (%s)", n, strings.ReplaceAll(ev.String(), dir, "")))
	}
	res, err := cmd.run(sp, func(int, *fault.Ev) *fault.Act { return &fault.Go })
	kit.Must(err)
	if res.Code != 0 {
		return kit.Fail("%s fails without any fault: %s%s", cmd.Name, res.Out, res.Err)
	}
	if d.odd != "" {
		return kit.Broken("%s", d.odd)
	}
	final, err := os.ReadFile(store)
	kit.Must(err)
	old := stateSnap(c.Old)
	new := ""
	pfks := cmd.pfks(res.Out)
	for _, p := range append([]string{pfkHex}, pfks...) {
		k := blank(5, 350, "")
		k.SetPersistence(store)
		kit.Must(k.SetPFKFromString(p))
		if k.Load() == nil {
			new = storeSnap(k)
		}
	}
	if new == "" {
		return kit.Fail("%s leaves a store that does not load", cmd.Name)
	}
	cache := contentCache{}
	for _, s := range snaps {
		r.Step(1)
		r.StateOf("cli", cmd.Name, c.Old, s.when, s.desc)
		if w := cache.of(r, s.b, old, new, pfks...); w != "old" && w != "new" {
			return kit.Fail("%s: power lost %s, with %s on the medium: the store is %s", cmd.Name, s.when, s.desc, w)
		}
	}
	var bad error
	d.after(store, func(desc string, b []byte) bool {
		if string(b) != string(final) {
			if w := cache.of(r, b, "", new, pfks...); w != "new" {
				bad = kit.Fail("%s: power lost after success was reported, with %s on the medium: the store is %s", cmd.Name, desc, w)
				return false
			}
		}
		return true
	})
	r.Count("crash_states", len(snaps))
	return bad
}

// ---------------------------------------------------------------- C12, commands

type cliFault struct {
	Cmd     int
	Old     int
	At      int
	Errno   int
	Forever bool
}

func cliFaultCases(r *kit.Run, yield func(cliFault) bool) {
	for i := range savingCommands {
		for _, o := range kit.Pick(r, []int{1}, []int{1, 2, 3}) {
			c := cliFault{Cmd: i, Old: o}
			n := c.probe(r)
			for at := 0; at < n+2; at++ {
				for _, e := range append([]syscall.Errno{0}, kit.Pick(r, faultErrnos[:2], faultErrnos)...) {
					for _, f := range []bool{false, true} {
						c.At, c.Errno, c.Forever = at, int(e), f
						if !yield(c) {
							return
						}
					}
				}
			}
		}
	}
}

func (c cliFault) probe(r *kit.Run) int {
	key := fmt.Sprint("cli", c.Cmd, c.Old)
	if n, ok := faultProbes[key]; ok {
		return n
	}
	dir, done := r.Dir()
	defer done()
	sp, _ := savingCommands[c.Cmd].layout(r, dir, c.Old)
	n := 0
	_, err := savingCommands[c.Cmd].run(sp, func(i int, ev *fault.Ev) *fault.Act { n = i + 1; return &fault.Go })
	kit.Must(err)
	faultProbes[key] = n
	return n
}

func execCLIFault(r *kit.Run, c cliFault) error {
	cmd := savingCommands[c.Cmd]
	dir, done := r.Dir()
	defer done()
	sp, store := cmd.layout(r, dir, c.Old)
	before, err := os.ReadFile(store)
	kit.Must(err)
	what := ""
	res, err := cmd.run(sp, func(i int, ev *fault.Ev) *fault.Act {
		if i == c.At {
			what = strings.ReplaceAll(ev.String(), dir, "")
		}
		return inject(i, ev, c.At, c.Errno, c.Forever, 0)
	})
	kit.Must(err)
	r.Step(len(res.Log))
	r.StateOf("cli", cmd.Name, c.Old, what, c.Errno, c.Forever, res.Code)
	desc := fmt.Sprintf("%s: operation %d (%s) fails with %v forever=%v", cmd.Name, c.At, what, syscall.Errno(c.Errno), c.Forever)
	if res.Hung || strings.Contains(res.Err, "goroutine ") {
		return kit.Fail("%s: the program crashes or hangs: %s", desc, trunc(res.Err))
	}
	if c.Errno == 0 && res.Code != 0 {
		return kit.Fail("%s: a short transfer makes it fail: %s", desc, strings.TrimSpace(res.Err))
	}
	pfks := cmd.pfks(res.Out)
	after, _ := os.ReadFile(store)
	if res.Code != 0 {
		if string(after) == string(before) {
			return nil
		}
		if w := whichState(store, stateSnap(c.Old), "", pfks...); w != "old" {
			return kit.Fail("%s: an error is reported (%s) and the store is %s", desc, strings.TrimSpace(res.Err), w)
		}
		return nil
	}
	// success: something complete, and not the old state
	k := blank(5, 350, "")
	k.SetPersistence(store)
	kit.Must(k.SetPFKFromString(pfks[len(pfks)-1]))
	if err := k.Load(); err != nil {
		return kit.Fail("%s: success is reported and the store does not load: %v", desc, err)
	}
	return cmd.complete(k, c.Old, desc)
}

// complete checks that a command which reported success did all of its work.
func (c savingCommand) complete(k *K, old int, desc string) error {
	o := stateStore(old)
	nk, nm := len(o.Keys), len(o.Messages)
	switch c.Name {
	case "generate":
		nk += 2
	case "generate-many":
		nk += 400
	case "delete-key":
		nk--
	case "delete-message":
		for i := range o.Messages {
			if o.Messages[i].IdString() == "m001" {
				nm--
			}
		}
	case "new-message":
		nm++
	case "initialize":
		nk, nm = 3, 0
	case "delete-keys":
		nk = 0
	case "delete-messages":
		nm = 0
	case "import":
		nk += 3
	case "export":
		nk, nm = len(stateStore(3).Keys), 0
	}
	if len(k.Keys) != nk || len(k.Messages) != nm {
		return kit.Fail("%s: success is reported and the store has %d keys and %d messages instead of %d and %d", desc, len(k.Keys), len(k.Messages), nk, nm)
	}
	return nil
}
