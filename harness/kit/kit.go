// Package kit is the small exploration engine behind every check: a property
// is decided by families of cases; a family enumerates its cases completely
// and in a fixed order, and executes each of them against the real code.
package kit

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/maphash"
	"math"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Family is one exhaustively enumerated set of executions.
type Family struct {
	Name   string
	Rule   string // how cases are made and what makes one non-trivial
	Weight float64
	// MaxShards limits the number of worker processes (0: no limit).
	MaxShards int
	// CaseTimeout after which a case counts as hanging (default 120 s).
	CaseTimeout time.Duration
	enum        func(r *Run, yield func(any) bool)
	exec        func(r *Run, cs any) error
	decode      func([]byte) (any, error)
}

// F builds a family over cases of type T (which must survive JSON).
func F[T any](name, rule string, enum func(r *Run, yield func(T) bool), exec func(r *Run, cs T) error) *Family {
	return &Family{
		Name: name, Rule: rule, Weight: 1,
		enum: func(r *Run, yield func(any) bool) {
			enum(r, func(t T) bool { return yield(t) })
		},
		exec: func(r *Run, cs any) error { return exec(r, cs.(T)) },
		decode: func(b []byte) (any, error) {
			var t T
			err := json.Unmarshal(b, &t)
			return t, err
		},
	}
}

func (f *Family) W(w float64) *Family             { f.Weight = w; return f }
func (f *Family) Shards(n int) *Family            { f.MaxShards = n; return f }
func (f *Family) Timeout(d time.Duration) *Family { f.CaseTimeout = d; return f }

// Prop is one property with the families that decide it.
type Prop struct {
	ID          string
	Level       string // model_checking, fault_enumeration, exploration
	Rule        string
	Bounds      string
	Assumptions []string
	Families    []*Family
	Quick       time.Duration // budget of the quick tier (default 240 s)
	Thorough    time.Duration // budget of the thorough tier (default 780 s)
}

var Props = map[string]*Prop{}

func Register(p *Prop) {
	if Props[p.ID] != nil {
		panic("duplicate property " + p.ID)
	}
	Props[p.ID] = p
}

// Violation describes a broken property. Key identifies the specific input,
// call site or history for the known-findings file.
type Violation struct {
	Key string
	Msg string
}

func (v *Violation) Error() string { return v.Msg }

func Fail(format string, a ...any) error { return &Violation{Msg: fmt.Sprintf(format, a...)} }
func FailKey(key, format string, a ...any) error {
	return &Violation{Key: key, Msg: fmt.Sprintf(format, a...)}
}

// HarnessError is a fault of the machinery itself (never a violation).
type HarnessError struct{ Msg string }

func (e *HarnessError) Error() string      { return "harness: " + e.Msg }
func Broken(format string, a ...any) error { return &HarnessError{fmt.Sprintf(format, a...)} }

// Run is the context of one worker process.
type Run struct {
	ID       string
	Tier     string
	Seed     int64
	Scratch  string // private to the worker, removed afterwards
	Shard    int
	Shards   int
	Deadline time.Time

	fam         string
	transitions int64
	execs       int64
	states      map[uint64]struct{}
	distinct    map[uint64]struct{}
	extra       map[string]int64
	onCase      func(idx int64)
	Known       map[string]bool
	findings    map[string]string
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func Pick[T any](r *Run, q, t T) T {
	if r.Thorough() {
		return t
	}
	return q
}

const maxSet = 4_000_000

// State records a distinct abstract state visited by an execution.
func (r *Run) State(h uint64) {
	if r.states != nil && len(r.states) < maxSet {
		r.states[h] = struct{}{}
	}
}

// StateOf records the state described by the arguments.
func (r *Run) StateOf(a ...any) { r.State(Hash(a...)) }

// Step counts operations executed on the implementation.
func (r *Run) Step(n int) { r.transitions += int64(n) }

// Distinct records a non-trivial case or outcome by its fingerprint.
func (r *Run) Distinct(h uint64) {
	if r.distinct != nil && len(r.distinct) < maxSet {
		r.distinct[h] = struct{}{}
	}
}

// Count adds to a named extra counter of the evidence.
func (r *Run) Count(name string, n int) {
	if r.extra == nil {
		r.extra = map[string]int64{}
	}
	r.extra[name] += int64(n)
}

// Hash is FNV-1a over the printed form: stable between processes.
func Hash(a ...any) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range a {
		var s string
		switch v := x.(type) {
		case string:
			s = v
		case []rune:
			s = string(v)
		default:
			s = fmt.Sprint(v)
		}
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
		h = (h ^ 0xff) * 1099511628211
	}
	return h
}

var _ = maphash.String

// guard executes a case, turning panics into violations.
func guard(f *Family, r *Run, cs any) (err error) {
	defer func() {
		if p := recover(); p != nil {
			if he, ok := p.(*HarnessError); ok {
				err = he
				return
			}
			err = Fail("panic: %v\n%s", p, frames(string(debug.Stack())))
		}
	}()
	return f.exec(r, cs)
}

// frames keeps the lines of a stack which lead through the code under test.
func frames(st string) string {
	var out []string
	lines := strings.Split(st, "\n")
	for i := 0; i+1 < len(lines); i++ {
		if strings.HasPrefix(lines[i], "github.com/sa6mwa/krypto431") {
			out = append(out, "  "+strings.TrimSpace(lines[i+1]))
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	if len(out) == 0 {
		return short(st, 2000)
	}
	return strings.Join(out, "\n")
}

// Must stops the case as a fault of the machinery.
func Must(err error) {
	if err != nil {
		panic(&HarnessError{err.Error()})
	}
}

// TempDir makes an empty directory in the scratch area of the worker.
func (r *Run) TempDir() string {
	d, err := os.MkdirTemp(r.Scratch, "d")
	Must(err)
	return d
}

// Path of a fresh file name inside a new scratch directory; the returned func
// removes the directory again.
func (r *Run) Dir() (string, func()) {
	d := r.TempDir()
	return d, func() {
		if filepath.Dir(d) == r.Scratch && len(r.Scratch) > 5 {
			os.RemoveAll(d)
		}
	}
}

type famResult struct {
	Name        string           `json:"name"`
	Execs       int64            `json:"executions"`
	Transitions int64            `json:"transitions"`
	Cases       int64            `json:"cases_in_space"`
	Exhaustive  bool             `json:"exhaustive"`
	Samples     []string         `json:"samples,omitempty"`
	Extra       map[string]int64 `json:"extra,omitempty"`
	WallS       float64          `json:"wall_s"`
}

type violMsg struct {
	Family  string `json:"family"`
	Index   int64  `json:"index"`
	Case    string `json:"case"`
	Msg     string `json:"msg"`
	Key     string `json:"key,omitempty"`
	Repeats int    `json:"repeats"` // how many of 4 isolated re-runs failed as well
}

type workerMsg struct {
	T     string            `json:"t"`
	Fam   *famResult        `json:"fam,omitempty"`
	Viol  *violMsg          `json:"viol,omitempty"`
	Err   string            `json:"err,omitempty"`
	Known map[string]string `json:"known,omitempty"`
}

func caseJSON(cs any) string {
	b, err := json.Marshal(cs)
	if err != nil {
		return fmt.Sprintf("%#v", cs)
	}
	return string(b)
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// runFamily executes this shard's part of a family.
func runFamily(f *Family, r *Run, deadline time.Time, cur func(idx int64), stopAt int64) (res famResult, viol *violMsg, herr error) {
	res.Name = f.Name
	res.Exhaustive = true
	r.fam = f.Name
	r.transitions = 0
	r.extra = nil
	shards := r.Shards
	if f.MaxShards > 0 && shards > f.MaxShards {
		shards = f.MaxShards
	}
	if r.Shard >= shards {
		return
	}
	start := time.Now()
	idx := int64(-1)
	f.enum(r, func(cs any) bool {
		idx++
		if idx%int64(shards) != int64(r.Shard) {
			return true
		}
		if res.Execs%16 == 0 && time.Now().After(deadline) {
			res.Exhaustive = false
			return false
		}
		cur(idx)
		err := guard(f, r, cs)
		res.Execs++
		if len(res.Samples) < 1 && res.Execs == 1+int64(r.Shard) {
			res.Samples = append(res.Samples, short(caseJSON(cs), 400))
		}
		if err != nil {
			var he *HarnessError
			if errors.As(err, &he) {
				herr = fmt.Errorf("%s: case %s: %w", f.Name, short(caseJSON(cs), 300), err)
				return false
			}
			v := asViolation(err)
			if v.Key != "" && r.Known[v.Key] {
				if r.findings == nil {
					r.findings = map[string]string{}
				}
				r.findings[v.Key] = v.Msg
				return true
			}
			rep := 0
			for i := 0; i < 4; i++ {
				if e := guard(f, r, cs); e != nil {
					rep++
				}
			}
			viol = &violMsg{Family: f.Name, Index: idx, Case: caseJSON(cs), Msg: v.Msg, Key: v.Key, Repeats: rep}
			return false
		}
		if stopAt >= 0 && idx >= stopAt {
			return false
		}
		return true
	})
	cur(-1)
	res.Cases = idx + 1
	res.Transitions = r.transitions
	res.Extra = r.extra
	res.WallS = math.Round(time.Since(start).Seconds()*100) / 100
	return
}

func asViolation(err error) *Violation {
	var v *Violation
	if errors.As(err, &v) {
		return v
	}
	return &Violation{Msg: err.Error()}
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
