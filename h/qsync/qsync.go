// Package qsync stands in for sync inside boltdb (no scheduling points).
package qsync

import (
	"sync"

	"verif.local/h/chlock"
)

type (
	Locker    = sync.Locker
	Once      = sync.Once
	Pool      = sync.Pool
	Map       = sync.Map
	WaitGroup = sync.WaitGroup
)

func OnceFunc(f func()) func()                           { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return sync.OnceValue(f) }
func OnceValues[A, B any](f func() (A, B)) func() (A, B) { return sync.OnceValues(f) }

// Mutex stands in for sync.Mutex.
type Mutex struct{ l chlock.RW }

func (m *Mutex) Lock() {
	point("Lock")
	if m.l.Acquire(true) {
		point("Locked")
	}
}
func (m *Mutex) TryLock() bool { point("TryLock"); return m.l.Try(true) }
func (m *Mutex) Unlock()       { m.l.Release(true); point("Unlocked") }

// RWMutex stands in for sync.RWMutex.
type RWMutex struct{ l chlock.RW }

func (m *RWMutex) Lock() {
	point("Lock")
	if m.l.Acquire(true) {
		point("Locked")
	}
}
func (m *RWMutex) RLock() {
	point("RLock")
	if m.l.Acquire(false) {
		point("RLocked")
	}
}
func (m *RWMutex) TryLock() bool  { point("TryLock"); return m.l.Try(true) }
func (m *RWMutex) TryRLock() bool { point("TryRLock"); return m.l.Try(false) }
func (m *RWMutex) Unlock()        { m.l.Release(true); point("Unlocked") }
func (m *RWMutex) RUnlock()       { m.l.Release(false); point("RUnlocked") }

type rlocker RWMutex

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }
func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }

// Cond stands in for sync.Cond.
type Cond struct {
	L  Locker
	mu sync.Mutex
	q  []chan struct{}
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	ch := make(chan struct{})
	c.mu.Lock()
	c.q = append(c.q, ch)
	c.mu.Unlock()
	c.L.Unlock()
	<-ch
	c.L.Lock()
}
func (c *Cond) Signal() {
	c.mu.Lock()
	if len(c.q) > 0 {
		close(c.q[0])
		c.q = c.q[1:]
	}
	c.mu.Unlock()
}
func (c *Cond) Broadcast() {
	c.mu.Lock()
	for _, ch := range c.q {
		close(ch)
	}
	c.q = nil
	c.mu.Unlock()
}

func point(string) {}
