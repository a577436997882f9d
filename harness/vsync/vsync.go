//go:build go1.21

// Package vsync wraps package sync for replays along a schedule.
package vsync

import (
	"sync"
	"sync/atomic"
	"time"

	"github.com/exascience/pargo/zz_verif/vs"
)

type (
	Locker = sync.Locker
	Pool   = sync.Pool
	Map    = sync.Map
)

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock()         { vs.Op("Lock"); m.m.Lock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

type RWMutex struct {
	m       sync.RWMutex
	readers int
}

//go:norace
//go:noinline
func (m *RWMutex) add(d int) int { m.readers += d; return m.readers }

func (m *RWMutex) Lock() {
	vs.Op("Lock")
	if m.add(0) > 0 {
		vs.Op("LockWait")
	}
	m.m.Lock()
}
func (m *RWMutex) Unlock()        { m.m.Unlock() }
func (m *RWMutex) RLock()         { vs.Op("RLock"); m.m.RLock(); m.add(1) }
func (m *RWMutex) RUnlock()       { m.add(-1); m.m.RUnlock() }
func (m *RWMutex) TryLock() bool  { return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct{ w sync.WaitGroup }

func (w *WaitGroup) Add(n int) {
	if n > 0 {
		vs.Op("WaitGroup.Add")
	}
	w.w.Add(n)
}
func (w *WaitGroup) Done() { w.w.Done() }
func (w *WaitGroup) Wait() { vs.Op("WaitGroup.Wait"); w.w.Wait() }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vs.Go(func() {
		defer w.Done()
		f()
	})
}

type waiter struct{ signaled bool }

type Cond struct {
	L  Locker
	ws []*waiter
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
//go:noinline
func (c *Cond) push() *waiter {
	w := &waiter{}
	c.ws = append(c.ws, w)
	return w
}

//go:norace
//go:noinline
func (w *waiter) get() bool { return w.signaled }

//go:norace
//go:noinline
func (c *Cond) wake(all bool) {
	for len(c.ws) > 0 {
		c.ws[0].signaled = true
		c.ws = c.ws[1:]
		if !all {
			break
		}
	}
}

func unlock(l Locker) { l.Unlock() }

func (c *Cond) Wait() {
	vs.Op("Cond.Wait")
	w := c.push()
	c.L.Unlock()
	vs.Op("Cond.blocked")
	for !w.get() {
		time.Sleep(50 * time.Microsecond)
	}
	switch m := c.L.(type) {
	case *Mutex:
		m.m.Lock()
	case *RWMutex:
		m.m.Lock()
	default:
		c.L.Lock()
	}
}
func (c *Cond) Signal()    { vs.Op("Signal"); c.wake(false) }
func (c *Cond) Broadcast() { vs.Op("Broadcast"); c.wake(true) }

type Once struct {
	done uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	vs.Op("atomic")
	if atomic.LoadUint32(&o.done) == 0 {
		o.slow(f)
	}
}

func (o *Once) slow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	vs.Op("atomic")
	if atomic.LoadUint32(&o.done) == 0 {
		defer func() {
			vs.Op("atomic")
			atomic.StoreUint32(&o.done, 1)
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
