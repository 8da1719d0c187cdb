// Package vsync stands in for package sync in the instrumented code: the same types, whose blocking operations hand over
// to another thread. Under them are the real ones, so that the race detector sees the order they establish.
package vsync

import (
	"sync"
	"sync/atomic"

	"verif/mc/vsched"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Map is sync.Map, which never blocks.
type Map = sync.Map

// Mutex is a mutex.
type Mutex struct {
	real sync.Mutex
	held bool
}

//go:norace
//go:noinline
func (m *Mutex) take() bool {
	if m.held {
		return false
	}
	m.held = true
	return true
}

//go:norace
//go:noinline
func (m *Mutex) give() {
	m.held = false
	vsched.Wake()
}

// Lock locks.
func (m *Mutex) Lock() {
	vsched.P()
	if vsched.Active() {
		for !m.take() {
			vsched.Block()
		}
	}
	m.real.Lock()
}

// TryLock tries to lock.
func (m *Mutex) TryLock() bool {
	vsched.P()
	if vsched.Active() && !m.take() {
		return false
	}
	return m.real.TryLock()
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	vsched.P()
	m.real.Unlock()
	m.give()
}

// RWMutex is a reader/writer mutex.
type RWMutex struct {
	real    sync.RWMutex
	writer  bool
	readers int
}

//go:norace
//go:noinline
func (m *RWMutex) take() bool {
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

//go:norace
//go:noinline
func (m *RWMutex) rtake() bool {
	if m.writer {
		return false
	}
	m.readers++
	return true
}

//go:norace
//go:noinline
func (m *RWMutex) give() { m.writer = false; vsched.Wake() }

//go:norace
//go:noinline
func (m *RWMutex) rgive() {
	if m.readers > 0 {
		m.readers--
	}
	vsched.Wake()
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	vsched.P()
	if vsched.Active() {
		for !m.take() {
			vsched.Block()
		}
	}
	m.real.Lock()
}

// Unlock unlocks.
func (m *RWMutex) Unlock() { vsched.P(); m.real.Unlock(); m.give() }

// RLock locks for reading.
func (m *RWMutex) RLock() {
	vsched.P()
	if vsched.Active() {
		for !m.rtake() {
			vsched.Block()
		}
	}
	m.real.RLock()
}

// RUnlock unlocks.
func (m *RWMutex) RUnlock() { vsched.P(); m.real.RUnlock(); m.rgive() }

// RLocker is a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once does something once.
type Once struct {
	done uint32
	m    Mutex
}

// Do calls f the first time, and waits for it every time.
func (o *Once) Do(f func()) {
	vsched.P()
	if atomic.LoadUint32(&o.done) == 1 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if atomic.LoadUint32(&o.done) == 0 {
		defer atomic.StoreUint32(&o.done, 1)
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// Pool is a pool that gives back what was put last.
type Pool struct {
	New   func() interface{}
	real  sync.Mutex
	items []interface{}
}

// Get takes one.
func (p *Pool) Get() interface{} {
	vsched.P()
	p.real.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.real.Unlock()
		return x
	}
	p.real.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put gives one back.
func (p *Pool) Put(x interface{}) {
	vsched.P()
	if x == nil {
		return
	}
	p.real.Lock()
	p.items = append(p.items, x)
	p.real.Unlock()
}

// WaitGroup waits.
type WaitGroup struct {
	real sync.WaitGroup
	n    int64
}

// Add adds.
func (w *WaitGroup) Add(d int) {
	vsched.P()
	atomic.AddInt64(&w.n, int64(d))
	w.real.Add(d)
	vsched.Wake()
}

// Done is done.
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits.
func (w *WaitGroup) Wait() {
	vsched.P()
	for vsched.Active() && atomic.LoadInt64(&w.n) > 0 {
		vsched.Block()
	}
	w.real.Wait()
}
