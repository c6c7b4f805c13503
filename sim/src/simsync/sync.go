// Package simsync is package sync with locks that the simulator knows.
package simsync

import (
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/jchv/cleansheets/verifsim/hook"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
)

var OnceFunc = sync.OnceFunc

// Mutex is a mutual exclusion lock.
type Mutex struct {
	real   sync.Mutex
	locked bool
	sim    bool
}

//go:norace
func (m *Mutex) Lock() {
	if !hook.Active() {
		m.real.Lock()
		return
	}
	for m.locked || !m.real.TryLock() {
		hook.Block(m)
	}
	m.locked = true
	hook.Acquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	if !hook.Active() {
		return m.real.TryLock()
	}
	if m.locked || !m.real.TryLock() {
		return false
	}
	m.locked = true
	hook.Acquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	hook.Release(unsafe.Pointer(m))
	m.locked = false
	m.real.Unlock()
	hook.Unblock(m)
	if hook.Active() {
		hook.Yield()
	}
}

// RWMutex is a reader/writer mutual exclusion lock.
type RWMutex struct {
	real    sync.RWMutex
	waiting int
}

//go:norace
func (m *RWMutex) Lock() {
	if !hook.Active() {
		m.real.Lock()
		return
	}
	for !m.real.TryLock() {
		m.waiting++
		hook.Block(m)
		m.waiting--
	}
	hook.Acquire(unsafe.Pointer(m))
}

func (m *RWMutex) TryLock() bool {
	if m.real.TryLock() {
		hook.Acquire(unsafe.Pointer(m))
		return true
	}
	return false
}

//go:norace
func (m *RWMutex) Unlock() {
	hook.Release(unsafe.Pointer(m))
	m.real.Unlock()
	hook.Unblock(m)
	if hook.Active() {
		hook.Yield()
	}
}

//go:norace
func (m *RWMutex) RLock() {
	if !hook.Active() {
		m.real.RLock()
		return
	}
	for m.waiting > 0 || !m.real.TryRLock() {
		hook.Block(m)
	}
	hook.Acquire(unsafe.Pointer(m))
}

func (m *RWMutex) TryRLock() bool {
	if m.real.TryRLock() {
		hook.Acquire(unsafe.Pointer(m))
		return true
	}
	return false
}

//go:norace
func (m *RWMutex) RUnlock() {
	hook.Release(unsafe.Pointer(m))
	m.real.RUnlock()
	hook.Unblock(m)
	if hook.Active() {
		hook.Yield()
	}
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is an object that will perform exactly one action.
type Once struct {
	m    Mutex
	done uint32
}

func (o *Once) Do(f func()) {
	if atomic.LoadUint32(&o.done) == 1 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done == 0 {
		defer atomic.StoreUint32(&o.done, 1)
		f()
	}
}

// Pool is a set of objects. It hands out the object that was put last, which
// makes its reuse of objects both deterministic and as eager as possible.
type Pool struct {
	New  func() interface{}
	m    sync.Mutex
	free []interface{}
}

//go:norace
func (p *Pool) Get() interface{} {
	hook.Quiet()
	p.m.Lock()
	if n := len(p.free); n > 0 {
		x := p.free[n-1]
		p.free = p.free[:n-1]
		p.m.Unlock()
		hook.Loud()
		hook.Acquire(unsafe.Pointer(p))
		return x
	}
	p.m.Unlock()
	hook.Loud()
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	hook.Release(unsafe.Pointer(p))
	hook.Quiet()
	p.m.Lock()
	p.free = append(p.free, x)
	p.m.Unlock()
	hook.Loud()
}

// WaitGroup waits for a collection of goroutines to finish.
type WaitGroup struct {
	real sync.WaitGroup
	n    int64
}

//go:norace
func (w *WaitGroup) Add(delta int) {
	hook.Release(unsafe.Pointer(w))
	w.real.Add(delta)
	if atomic.AddInt64(&w.n, int64(delta)) == 0 {
		hook.Unblock(w)
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

// Go calls f in a new goroutine.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	hook.Go(func() {
		defer w.Done()
		f()
	})
}

//go:norace
func (w *WaitGroup) Wait() {
	if !hook.Active() {
		w.real.Wait()
		return
	}
	for atomic.LoadInt64(&w.n) > 0 {
		hook.Block(w)
	}
	hook.Acquire(unsafe.Pointer(w))
}

// Cond implements a condition variable.
type Cond struct {
	L    Locker
	once sync.Once
	real *sync.Cond
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) cond() *sync.Cond {
	c.once.Do(func() { c.real = sync.NewCond(c.L) })
	return c.real
}

func (c *Cond) Wait() {
	if !hook.Active() {
		c.cond().Wait()
		return
	}
	c.L.Unlock()
	hook.Block(c)
	c.L.Lock()
}

func (c *Cond) Signal() { c.Broadcast() }

func (c *Cond) Broadcast() {
	hook.Unblock(c)
	c.cond().Broadcast()
}
