// Package sched runs the goroutines of a scenario one at a time and lets the
// explorer decide at every scheduling point which one continues. The library
// under test is compiled against it: its locks are the ones below and calls of
// Yield stand before the statements that touch package-level state.
//
// The hand-over between goroutines is invisible to the race detector: it is
// done with plain variables in functions that are not instrumented, on a single
// processor. The locks take the real lock as well, so that the detector sees
// exactly the ordering that the library itself establishes.
package sched

import (
	"runtime"
	"sync"
	"unsafe"
)

const (
	MaxThreads = 4
	MaxPoints  = 6000
)

// A Point is one scheduling decision.
type Point struct {
	N       int8 // number of goroutines that could run
	Choice  int8 // index of the one that did: 0 continues the running one if it can
	Preempt bool // the running goroutine could have continued
}

const (
	ready = iota
	onMutex
	onRead
	onWrite
	done
)

var (
	active   bool
	nthreads int
	cur      int
	state    [MaxThreads]int8
	waits    [MaxThreads]unsafe.Pointer
	points   [MaxPoints]Point
	npoints  int
	prefix   []int8
	expect   []int8
	streak   int
	clock    int
	steps    int

	Fine bool // plain accesses to shared variables are scheduling points, too

	Deadlock bool // no goroutine can continue
	Diverged bool // a replayed prefix met other choices than before
	Horizon  bool // more points than can be recorded
)

//go:norace
func enabled(t int) bool {
	switch state[t] {
	case ready:
		return true
	case onMutex:
		return !(*Mutex)(waits[t]).locked
	case onWrite:
		l := (*RWMutex)(waits[t])
		return !l.writer && l.readers == 0
	}
	return false // done, or a reader that has not been let in
}

// next decides who runs. me is the goroutine at the point, or -1.
//
//go:norace
func next(me int, last bool) int {
	var order [MaxThreads]int8
	n := 0
	own := me >= 0 && enabled(me)
	if own && !last {
		order[n] = int8(me)
		n++
	}
	for t := 0; t < nthreads; t++ {
		if t != me && enabled(t) {
			order[n] = int8(t)
			n++
		}
	}
	preempt := own && !last
	if own && last {
		order[n] = int8(me)
		n++
	}
	if n == 0 {
		return -1
	}
	if n == 1 {
		return int(order[0])
	}
	// a goroutine that never stops by itself lets the others run now and then
	if preempt {
		streak++
		if streak > 1500 {
			streak = 0
			return int(order[1])
		}
	} else {
		streak = 0
	}
	c := int8(0)
	if npoints < len(prefix) {
		c = prefix[npoints]
		if int8(n) != expect[npoints] {
			Diverged = true
			if int(c) >= n {
				c = 0
			}
		}
	}
	if npoints < MaxPoints {
		points[npoints] = Point{int8(n), c, preempt}
		npoints++
	} else {
		Horizon = true
		c = 0
	}
	if c != 0 {
		streak = 0
	}
	return int(order[c])
}

// stop is called by the goroutine that finds that nobody can continue.
var stop func()

//go:norace
func switchFrom(me int, last bool) {
	steps++
	t := next(me, last)
	if t < 0 {
		Deadlock = true
		stop()
		for {
			runtime.Gosched()
		}
	}
	cur = t
	for cur != me {
		runtime.Gosched()
	}
}

// Yield is a scheduling point.
//
//go:norace
func Yield() {
	if active {
		switchFrom(cur, false)
	}
}

// Touch is a scheduling point before a plain access to a shared variable.
//
//go:norace
func Touch() {
	if active && Fine {
		switchFrom(cur, false)
	}
}

// Pause is a scheduling point of a goroutine that waits for others.
//
//go:norace
func Pause() {
	if active {
		switchFrom(cur, true)
	}
}

// After is a scheduling point after an operation with a result.
//
//go:norace
func After[T any](v T) T {
	Yield()
	return v
}

// Tick returns the next value of a counter, to order calls and returns.
//
//go:norace
func Tick() int {
	clock++
	return clock
}

//go:norace
func begin(n int, p, e []int8, onStop func()) {
	nthreads, npoints, prefix, expect, streak, clock, steps = n, 0, p, e, 0, 0, 0
	Deadlock, Diverged, Horizon = false, false, false
	stop = onStop
	for t := 0; t < MaxThreads; t++ {
		state[t], waits[t] = ready, nil
	}
	cur = -1
	active = true
}

//go:norace
func start(me int) {
	for cur != me {
		runtime.Gosched()
	}
}

//go:norace
func end(me int) {
	state[me] = done
	for t := 0; t < nthreads; t++ {
		if state[t] != done {
			n := next(me, false)
			if n < 0 {
				Deadlock = true
				stop()
				return
			}
			cur = n
			return
		}
	}
	active = false
}

//go:norace
func first() { cur = next(-1, false) }

// Run executes the bodies under the schedule that starts with the given choices
// and continues the running goroutine wherever it can. It returns the points.
// onDeadlock is called in the middle of the execution and must not return.
func Run(bodies []func(), choices, widths []int8, onDeadlock func()) []Point {
	begin(len(bodies), choices, widths, onDeadlock)
	var wg sync.WaitGroup
	for i, b := range bodies {
		wg.Add(1)
		go func() {
			defer wg.Done()
			start(i)
			b()
			end(i)
		}()
	}
	first()
	wg.Wait()
	return copyPoints()
}

//go:norace
func copyPoints() []Point {
	out := make([]Point, npoints)
	for i := range out {
		out[i] = points[i]
	}
	return out
}

// Current returns the choices made so far.
//
//go:norace
func Current() []int8 {
	out := make([]int8, npoints)
	for i := range out {
		out[i] = points[i].Choice
	}
	return out
}

// Steps returns the number of scheduling points passed, with and without a choice.
//
//go:norace
func Steps() int { return steps }

// Mutex is sync.Mutex under the scheduler.
type Mutex struct {
	locked bool
	real   sync.Mutex
}

//go:norace
func (m *Mutex) take() {
	if active {
		switchFrom(cur, false)
		if m.locked {
			me := cur
			state[me], waits[me] = onMutex, unsafe.Pointer(m)
			switchFrom(me, false)
			state[me], waits[me] = ready, nil
		}
	}
	if m.locked {
		panic("a lock is still held when it is taken again")
	}
	m.locked = true
}

func (m *Mutex) Lock() {
	m.take()
	m.real.Lock()
}

//go:norace
func (m *Mutex) leave() { m.locked = false }

func (m *Mutex) Unlock() {
	m.leave()
	m.real.Unlock()
}

//go:norace
func (m *Mutex) try() bool {
	Yield()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) TryLock() bool {
	if !m.try() {
		return false
	}
	m.real.Lock()
	return true
}

// RWMutex is sync.RWMutex under the scheduler: a writer that waits keeps new
// readers out, and a writer that leaves lets all waiting readers in.
type RWMutex struct {
	writer  bool
	readers int
	pending int
	real    sync.RWMutex
}

//go:norace
func (m *RWMutex) take() {
	if active {
		switchFrom(cur, false)
		if m.writer || m.readers > 0 {
			me := cur
			m.pending++
			state[me], waits[me] = onWrite, unsafe.Pointer(m)
			switchFrom(me, false)
			state[me], waits[me] = ready, nil
			m.pending--
		}
	}
	if m.writer || m.readers > 0 {
		panic("a lock is still held when it is taken again")
	}
	m.writer = true
}

func (m *RWMutex) Lock() {
	m.take()
	m.real.Lock()
}

//go:norace
func (m *RWMutex) leave() {
	m.writer = false
	m.letIn()
}

//go:norace
func (m *RWMutex) letIn() {
	for t := 0; t < nthreads; t++ {
		if active && state[t] == onRead && waits[t] == unsafe.Pointer(m) {
			state[t], waits[t] = ready, nil
			m.readers++
		}
	}
}

func (m *RWMutex) Unlock() {
	m.leave()
	m.real.Unlock()
}

//go:norace
func (m *RWMutex) takeRead() {
	if active {
		switchFrom(cur, false)
		if m.writer || m.pending > 0 {
			me := cur
			state[me], waits[me] = onRead, unsafe.Pointer(m)
			switchFrom(me, false)
			return // counted by the writer that let it in
		}
	}
	if m.writer {
		panic("a lock is still held when it is taken again")
	}
	m.readers++
}

func (m *RWMutex) RLock() {
	m.takeRead()
	m.real.RLock()
}

//go:norace
func (m *RWMutex) leaveRead() { m.readers-- }

func (m *RWMutex) RUnlock() {
	m.leaveRead()
	m.real.RUnlock()
}

//go:norace
func (m *RWMutex) try() bool {
	Yield()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) TryLock() bool {
	if !m.try() {
		return false
	}
	m.real.Lock()
	return true
}

//go:norace
func (m *RWMutex) tryRead() bool {
	Yield()
	if m.writer || m.pending > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) TryRLock() bool {
	if !m.tryRead() {
		return false
	}
	m.real.RLock()
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// Once is sync.Once under the scheduler.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

// Pool is a sync.Pool that always hands out what was put in last.
type Pool struct {
	New   func() any
	real  sync.Mutex
	items []any
}

func (p *Pool) Get() any {
	Yield()
	p.real.Lock()
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		p.real.Unlock()
		return v
	}
	p.real.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	Yield()
	p.real.Lock()
	p.items = append(p.items, v)
	p.real.Unlock()
}

// The rest of package sync does not wait, or makes the instrumenter give up.
type (
	Map       = sync.Map
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
	Locker    = sync.Locker
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }
