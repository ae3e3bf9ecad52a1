// Package zzvsync replaces package sync in the natively replayed code: every
// acquisition is a scheduling point of the replayed schedule. The real
// primitives are used underneath (never contended).
package zzvsync

import (
	"sync"

	vrt "MODPATH/zzvrt"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Pool is a sync.Pool that returns the last object put back.
type Pool struct {
	New func() interface{}

	mu   sync.Mutex
	free []interface{}
}

// Get takes an object.
func (p *Pool) Get() interface{} {
	p.mu.Lock()
	if n := len(p.free); n > 0 {
		x := p.free[n-1]
		p.free = p.free[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}

// Put gives an object back.
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	p.mu.Lock()
	p.free = append(p.free, x)
	p.mu.Unlock()
}

// Cond is a scheduled sync.Cond.
type Cond struct {
	L Locker

	mu      sync.Mutex
	waiting []*condWait
}

type condWait struct{ woken bool }

// Blocked implements vrt.Waiter.
//
//go:norace
func (w *condWait) Blocked() bool { return !w.woken }

// NewCond is as sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits.
//
//go:norace
func (c *Cond) Wait() {
	w := &condWait{}
	c.waiting = append(c.waiting, w)
	c.L.Unlock()
	vrt.Block(w, "Cond")
	c.mu.Lock()
	c.mu.Unlock()
	c.L.Lock()
}

// Signal wakes one.
//
//go:norace
func (c *Cond) Signal() {
	c.mu.Lock()
	c.mu.Unlock()
	if len(c.waiting) > 0 {
		c.waiting[0].woken = true
		c.waiting = c.waiting[1:]
	}
}

// Broadcast wakes all.
//
//go:norace
func (c *Cond) Broadcast() {
	c.mu.Lock()
	c.mu.Unlock()
	for _, w := range c.waiting {
		w.woken = true
	}
	c.waiting = nil
}

// Mutex is a scheduled sync.Mutex.
type Mutex struct {
	mu   sync.Mutex
	held bool
}

// Blocked implements vrt.Waiter.
//
//go:norace
func (m *Mutex) Blocked() bool { return m.held }

// Lock locks.
//
//go:norace
func (m *Mutex) Lock() {
	vrt.Yield()
	if vrt.Dead() {
		return
	}
	vrt.Block(m, "Lock")
	m.held = true
	m.mu.Lock()
}

// TryLock tries to lock.
//
//go:norace
func (m *Mutex) TryLock() bool {
	vrt.Yield()
	if m.held {
		return false
	}
	m.held = true
	m.mu.Lock()
	return true
}

// Unlock unlocks.
//
//go:norace
func (m *Mutex) Unlock() {
	if vrt.Dead() {
		return
	}
	if !m.held {
		vrt.Fatal("fatal error: unlock of unlocked mutex")
	}
	m.mu.Unlock()
	m.held = false
}

// RWMutex is a scheduled sync.RWMutex.
type RWMutex struct {
	mu      sync.RWMutex
	writer  bool
	readers int
	waiting int
}

type rwW struct{ m *RWMutex }
type rwR struct{ m *RWMutex }

//go:norace
func (w rwW) Blocked() bool { return w.m.writer || w.m.readers > 0 }

//go:norace
func (w rwR) Blocked() bool { return w.m.writer || w.m.waiting > 0 }

// Lock locks for writing.
//
//go:norace
func (m *RWMutex) Lock() {
	vrt.Yield()
	if vrt.Dead() {
		return
	}
	w := rwW{m}
	if w.Blocked() {
		m.waiting++
		vrt.Block(w, "Lock")
		m.waiting--
	}
	m.writer = true
	m.mu.Lock()
}

// TryLock tries to lock for writing.
//
//go:norace
func (m *RWMutex) TryLock() bool {
	vrt.Yield()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	m.mu.Lock()
	return true
}

// Unlock unlocks.
//
//go:norace
func (m *RWMutex) Unlock() {
	if vrt.Dead() {
		return
	}
	if !m.writer {
		vrt.Fatal("fatal error: unlock of unlocked mutex")
	}
	m.mu.Unlock()
	m.writer = false
}

// RLock locks for reading.
//
//go:norace
func (m *RWMutex) RLock() {
	vrt.Yield()
	if vrt.Dead() {
		return
	}
	vrt.Block(rwR{m}, "RLock")
	m.readers++
	m.mu.RLock()
}

// TryRLock tries to lock for reading.
//
//go:norace
func (m *RWMutex) TryRLock() bool {
	vrt.Yield()
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	m.mu.RLock()
	return true
}

// RUnlock unlocks.
//
//go:norace
func (m *RWMutex) RUnlock() {
	if vrt.Dead() {
		return
	}
	if m.readers == 0 {
		vrt.Fatal("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.mu.RUnlock()
	m.readers--
}

// RLocker is as sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is a scheduled sync.Once.
type Once struct {
	o     sync.Once
	state int
}

// Blocked implements vrt.Waiter.
//
//go:norace
func (o *Once) Blocked() bool { return o.state == 1 }

// Do calls f once.
//
//go:norace
func (o *Once) Do(f func()) {
	vrt.Yield()
	vrt.Block(o, "Once")
	if o.state == 0 {
		o.state = 1
		o.o.Do(f)
		o.state = 2
		return
	}
	o.o.Do(f)
}

// WaitGroup is a scheduled sync.WaitGroup.
type WaitGroup struct {
	wg sync.WaitGroup
	n  int
}

// Blocked implements vrt.Waiter.
//
//go:norace
func (w *WaitGroup) Blocked() bool { return w.n > 0 }

// Add adds.
//
//go:norace
func (w *WaitGroup) Add(d int) { w.n += d; w.wg.Add(d) }

// Done ends one.
//
//go:norace
func (w *WaitGroup) Done() { w.n--; w.wg.Done() }

// Go runs a function in a goroutine.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vrt.GoCall(func() {
		defer w.Done()
		f()
	})
}

// Wait waits.
//
//go:norace
func (w *WaitGroup) Wait() {
	vrt.Yield()
	vrt.Block(w, "WaitGroup")
	w.wg.Wait()
}

// Map is a scheduled sync.Map.
type Map struct{ m sync.Map }

// Load loads.
func (m *Map) Load(k interface{}) (interface{}, bool) { vrt.Yield(); return m.m.Load(k) }

// Store stores.
func (m *Map) Store(k, v interface{}) { vrt.Yield(); m.m.Store(k, v) }

// LoadOrStore loads or stores.
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	vrt.Yield()
	return m.m.LoadOrStore(k, v)
}

// LoadAndDelete loads and deletes.
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	vrt.Yield()
	return m.m.LoadAndDelete(k)
}

// Delete deletes.
func (m *Map) Delete(k interface{}) { vrt.Yield(); m.m.Delete(k) }

// Range iterates.
func (m *Map) Range(f func(k, v interface{}) bool) { vrt.Yield(); m.m.Range(f) }

// Swap replaces.
func (m *Map) Swap(k, v interface{}) (interface{}, bool) { vrt.Yield(); return m.m.Swap(k, v) }

// CompareAndSwap replaces a given value.
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	vrt.Yield()
	return m.m.CompareAndSwap(k, o, n)
}

// CompareAndDelete deletes a given value.
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	vrt.Yield()
	return m.m.CompareAndDelete(k, o)
}

// Clear deletes all.
func (m *Map) Clear() { vrt.Yield(); m.m.Clear() }
