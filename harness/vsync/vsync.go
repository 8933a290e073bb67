// Package vsync is a cooperative scheduler for exhaustive exploration of
// interleavings, with stand-ins for package sync. Code built with the overlay
// of cmd/prepare calls Yield before each statement. Outside Explore all of it
// behaves like the real thing for a single thread.
package vsync

import (
	"fmt"
	"sync"
)

type thread struct {
	id   int
	wake chan bool
	done bool
	wait any // what it is blocked on
	run  func()
}

type sched struct {
	threads []*thread
	cur     *thread
	main    chan string
	choose  func(options int, preempt bool) int
	steps   int
	since   int // steps since the last switch
	Trace   []int
	stopped bool
}

var s *sched

// Yields counts the scheduling points passed since the program started.
var Yields int64

const (
	maxSteps = 200000
	maxSince = 4000
)

// Run executes the functions as threads. choose picks the next of options
// runnable threads: option 0 is the current one if it can go on (preempt),
// else the runnable ones in order. The result is empty, or says why the
// threads did not end. Unfinished threads are left behind for good.
func Run(fs []func(), choose func(options int, preempt bool) int) (problem string, trace []int) {
	if s != nil {
		panic("vsync: nested Run")
	}
	x := &sched{main: make(chan string, 1), choose: choose}
	for i, f := range fs {
		t := &thread{id: i, wake: make(chan bool, 1), run: f}
		x.threads = append(x.threads, t)
		go func() {
			<-t.wake
			t.run()
			t.done = true
			x.next(t)
		}()
	}
	s = x
	x.next(nil)
	problem = <-x.main
	s = nil
	return problem, x.Trace
}

// next passes control on from t, which is blocked, done or nil.
func (x *sched) next(t *thread) {
	var r []*thread
	alive := 0
	for _, o := range x.threads {
		if !o.done {
			alive++
			if o.wait == nil {
				r = append(r, o)
			}
		}
	}
	if alive == 0 {
		x.main <- ""
		return
	}
	if len(r) == 0 {
		x.stopped = true
		x.main <- fmt.Sprintf("deadlock: %d threads wait for ever", alive)
		return
	}
	n := 0
	if len(r) > 1 {
		n = x.choose(len(r), false)
	}
	x.give(r[n])
}

func (x *sched) give(t *thread) {
	x.cur = t
	x.since = 0
	x.Trace = append(x.Trace, t.id)
	t.wake <- true
}

// Yield is a scheduling point.
func Yield() {
	Yields++
	x := s
	if x == nil || x.stopped {
		return
	}
	t := x.cur
	x.steps++
	x.since++
	if x.steps > maxSteps {
		x.stopped = true
		x.main <- "the threads go on for ever"
		select {}
	}
	r := []*thread{t}
	for _, o := range x.threads {
		if o != t && !o.done && o.wait == nil {
			r = append(r, o)
		}
	}
	if len(r) == 1 {
		return
	}
	n := 0
	if x.since > maxSince { // a thread which waits by spinning
		n = 1 + (x.steps/maxSince)%(len(r)-1)
	} else {
		n = x.choose(len(r), true)
	}
	if n == 0 {
		return
	}
	x.give(r[n])
	<-t.wake
}

// block makes the current thread wait until wakeAll(on).
func block(on any) {
	x := s
	if x == nil {
		panic("vsync: a single thread waits for itself")
	}
	t := x.cur
	t.wait = on
	x.next(t)
	<-t.wake
}

func wakeAll(on any) {
	if s == nil {
		return
	}
	for _, t := range s.threads {
		if t.wait == on {
			t.wait = nil
		}
	}
}

// Current is the number of the running thread, -1 outside Run.
func Current() int {
	if s == nil || s.cur == nil {
		return -1
	}
	return s.cur.id
}

// ---------------------------------------------------------------- sync

type Locker = sync.Locker
type Map = sync.Map

type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	Yield()
	for m.held {
		block(m)
	}
	m.held = true
}

func (m *Mutex) TryLock() bool {
	Yield()
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	wakeAll(m)
	Yield()
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	Yield()
	for m.w || m.r > 0 {
		block(m)
	}
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	Yield()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	wakeAll(m)
	Yield()
}

func (m *RWMutex) RLock() {
	Yield()
	for m.w {
		block(m)
	}
	m.r++
}

func (m *RWMutex) TryRLock() bool {
	Yield()
	if m.w {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	wakeAll(m)
	Yield()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	Yield()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	Yield()
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v != nil {
		p.items = append(p.items, v)
	}
	Yield()
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(n int) {
	w.n += n
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		wakeAll(w)
	}
	Yield()
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	Yield()
	for w.n > 0 {
		block(w)
	}
}

type Cond struct {
	L Locker
	n int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	c.L.Unlock()
	block(c)
	c.L.Lock()
}
func (c *Cond) Broadcast() { wakeAll(c); Yield() }
func (c *Cond) Signal() {
	if s != nil {
		for _, t := range s.threads {
			if t.wait == any(c) {
				t.wait = nil
				break
			}
		}
	}
	Yield()
}
