// Package simsync replaces package sync in the instrumented library. Waiting is
// visible to the simulator instead of blocking the process. The real primitives
// are still used underneath (never contended) so that the race detector sees the
// ordering they provide.
package simsync

import (
	"sync"
	"sync/atomic"

	"verifsim/rt"
)

type Locker = sync.Locker
type Map = sync.Map

// Mutex is a mutual exclusion lock.
type Mutex struct {
	held bool
	mu   sync.Mutex
}

//go:norace
func (m *Mutex) tryTake() bool {
	if m.held {
		return false
	}
	m.held = true
	return true
}

//go:norace
func (m *Mutex) drop() { m.held = false }

func (m *Mutex) Lock() {
	for !m.tryTake() {
		rt.Block()
	}
	m.mu.Lock()
}

func (m *Mutex) TryLock() bool {
	if !m.tryTake() {
		return false
	}
	m.mu.Lock()
	return true
}

func (m *Mutex) Unlock() {
	m.mu.Unlock()
	m.drop()
	rt.Unblock()
}

// RWMutex is a reader/writer lock.
type RWMutex struct {
	writer  bool
	readers int
	mu      sync.RWMutex
}

//go:norace
func (m *RWMutex) tryW() bool {
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

//go:norace
func (m *RWMutex) tryR() bool {
	if m.writer {
		return false
	}
	m.readers++
	return true
}

//go:norace
func (m *RWMutex) dropW() { m.writer = false }

//go:norace
func (m *RWMutex) dropR() { m.readers-- }

func (m *RWMutex) Lock() {
	for !m.tryW() {
		rt.Block()
	}
	m.mu.Lock()
}

func (m *RWMutex) TryLock() bool {
	if !m.tryW() {
		return false
	}
	m.mu.Lock()
	return true
}

func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	m.dropW()
	rt.Unblock()
}

func (m *RWMutex) RLock() {
	for !m.tryR() {
		rt.Block()
	}
	m.mu.RLock()
}

func (m *RWMutex) TryRLock() bool {
	if !m.tryR() {
		return false
	}
	m.mu.RLock()
	return true
}

func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	m.dropR()
	rt.Unblock()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once runs a function once.
type Once struct {
	done atomic.Bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

// Pool is a deterministic free list.
type Pool struct {
	New   func() any
	m     sync.Mutex
	items []any
}

func (p *Pool) Get() any {
	p.m.Lock()
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items[n-1] = nil
		p.items = p.items[:n-1]
		p.m.Unlock()
		return v
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	p.m.Lock()
	if p.items == nil {
		poolM.Lock()
		pools = append(pools, p)
		poolM.Unlock()
	}
	p.items = append(p.items, v)
	p.m.Unlock()
}

var (
	poolM sync.Mutex
	pools []*Pool
)

// Collect empties the pools, as a garbage collection may do.
func Collect() {
	poolM.Lock()
	for _, p := range pools {
		p.m.Lock()
		p.items = nil
		p.m.Unlock()
	}
	pools = nil
	poolM.Unlock()
}

// WaitGroup waits for a counter to reach zero.
type WaitGroup struct {
	n  int
	wg sync.WaitGroup
}

//go:norace
func (w *WaitGroup) count(d int) int {
	w.n += d
	return w.n
}

func (w *WaitGroup) Add(d int) {
	w.wg.Add(d) // panics if the counter becomes negative
	if w.count(d) == 0 {
		rt.Unblock()
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

func (w *WaitGroup) Wait() {
	for w.count(0) != 0 {
		rt.Block()
	}
	w.wg.Wait()
}

// Cond is a condition variable.
type Cond struct {
	L   Locker
	gen atomic.Int64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	g := c.gen.Load()
	c.L.Unlock()
	for c.gen.Load() == g {
		rt.Block()
	}
	c.L.Lock()
}

func (c *Cond) Signal()    { c.Broadcast() }
func (c *Cond) Broadcast() { c.gen.Add(1); rt.Unblock() }
