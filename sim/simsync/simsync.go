// Package simsync replaces package sync in the instrumented copies of the
// repository: the same types, but a goroutine that would block hands the
// processor back to the simulator. Happens-before edges are reported to the
// race detector exactly as package sync would.
package simsync

import (
	"sync"
	"unsafe"

	"verif.local/sim/simrt"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Map is sync.Map: its operations never block.
type Map = sync.Map

// Mutex is sync.Mutex.
type Mutex struct {
	locked bool
	_      byte
}

//go:norace
func (m *Mutex) lock() {
	for m.locked {
		simrt.Block(m)
	}
	m.locked = true
}

//go:norace
func (m *Mutex) unlock() {
	if !m.locked {
		fatal("sync: unlock of unlocked mutex")
	}
	m.locked = false
	simrt.Wake(m)
}

func fatal(s string) { panic(s) }

// Lock locks m.
func (m *Mutex) Lock() {
	simrt.Force()
	m.lock()
	simrt.Acquire(unsafe.Pointer(m))
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	simrt.Force()
	if !m.tryLock() {
		return false
	}
	simrt.Acquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) tryLock() bool {
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	simrt.Release(unsafe.Pointer(m))
	m.unlock()
	simrt.Force()
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	w       bool
	r       int
	waiting int
	rsync   byte
}

//go:norace
func (m *RWMutex) lock() {
	m.waiting++
	for m.w || m.r > 0 {
		simrt.Block(m)
	}
	m.waiting--
	m.w = true
}

//go:norace
func (m *RWMutex) unlock() {
	if !m.w {
		fatal("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	simrt.Wake(m)
}

//go:norace
func (m *RWMutex) rlock() {
	for m.w || m.waiting > 0 {
		simrt.Block(m)
	}
	m.r++
}

//go:norace
func (m *RWMutex) runlock() {
	if m.r <= 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	simrt.Wake(m)
}

func (m *RWMutex) Lock() {
	simrt.Force()
	m.lock()
	simrt.Acquire(unsafe.Pointer(m))
	simrt.Acquire(unsafe.Pointer(&m.rsync))
}

func (m *RWMutex) Unlock() {
	simrt.Release(unsafe.Pointer(m))
	m.unlock()
	simrt.Force()
}

func (m *RWMutex) RLock() {
	simrt.Force()
	m.rlock()
	simrt.Acquire(unsafe.Pointer(m))
}

func (m *RWMutex) RUnlock() {
	simrt.ReleaseMerge(unsafe.Pointer(&m.rsync))
	m.runlock()
	simrt.Force()
}

//go:norace
func (m *RWMutex) tryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

//go:norace
func (m *RWMutex) tryRLock() bool {
	if m.w {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) TryLock() bool {
	simrt.Force()
	if !m.tryLock() {
		return false
	}
	simrt.Acquire(unsafe.Pointer(m))
	simrt.Acquire(unsafe.Pointer(&m.rsync))
	return true
}

func (m *RWMutex) TryRLock() bool {
	simrt.Force()
	if !m.tryRLock() {
		return false
	}
	simrt.Acquire(unsafe.Pointer(m))
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f once.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n int
	_ byte
}

//go:norace
func (w *WaitGroup) add(d int) {
	w.n += d
	if w.n < 0 {
		fatal("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		simrt.Wake(w)
	}
}

//go:norace
func (w *WaitGroup) wait() {
	for w.n > 0 {
		simrt.Block(w)
	}
}

func (w *WaitGroup) Add(d int) {
	if d < 0 {
		simrt.ReleaseMerge(unsafe.Pointer(w))
	}
	w.add(d)
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	simrt.Force()
	w.wait()
	simrt.Acquire(unsafe.Pointer(w))
}

// Go runs f in a new goroutine counted by w.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go func() {
		simrt.Y()
		defer w.Done()
		f()
	}()
	simrt.Spawned()
}

// Cond is sync.Cond.
type Cond struct {
	L   Locker
	seq int
	_   byte
}

// NewCond returns a Cond on l.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) wait(seq int) {
	if c.seq == seq {
		simrt.Block(c)
	}
}

//go:norace
func (c *Cond) cur() int { return c.seq }

//go:norace
func (c *Cond) wake() {
	c.seq++
	simrt.Wake(c) // waking every waiter is legal: callers loop
}

func (c *Cond) Wait() {
	seq := c.cur()
	c.L.Unlock()
	c.wait(seq)
	c.L.Lock()
}
func (c *Cond) Signal()    { c.wake() }
func (c *Cond) Broadcast() { c.wake() }

// Pool is sync.Pool: last in, first out, never dropping, the reuse-happiest
// behaviour the real one may show.
type Pool struct {
	New   func() any
	items []any
	_     byte
}

//go:norace
func (p *Pool) get() any {
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		return v
	}
	return nil
}

//go:norace
func (p *Pool) put(v any) { p.items = append(p.items, v) }

func (p *Pool) Get() any {
	simrt.Force()
	v := p.get()
	if v != nil {
		simrt.Acquire(unsafe.Pointer(p))
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	simrt.ReleaseMerge(unsafe.Pointer(p))
	p.put(v)
	simrt.Force()
}
