// Package xsync stands in for sync in /repo (every lock operation is a scheduling point).
package xsync

import (
	"sync"
	"sync/atomic"

	"verif.local/h/chlock"
	"verif.local/h/sched"
)

type Locker = sync.Locker

// Once stands in for sync.Once.
type Once struct {
	l    chlock.RW
	done atomic.Bool
}

func (o *Once) Do(f func()) {
	point("Once")
	if o.done.Load() {
		return
	}
	if o.l.Acquire(true) {
		point("Once waited")
	}
	defer o.l.Release(true)
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

func OnceFunc(f func()) func() {
	g := OnceValue(func() struct{} { f(); return struct{}{} })
	return func() { g() }
}

func OnceValue[T any](f func() T) func() T {
	g := OnceValues(func() (T, struct{}) { return f(), struct{}{} })
	return func() T { v, _ := g(); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var once Once
	var a A
	var b B
	var ok bool
	var p any
	return func() (A, B) {
		once.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			a, b = f()
			ok = true
		})
		if !ok {
			panic(p)
		}
		return a, b
	}
}

// Pool stands in for sync.Pool; it keeps nearly everything.
type Pool struct {
	New func() any
	mu  sync.Mutex
	s   []any
}

func (p *Pool) Get() any {
	point("Pool.Get")
	p.mu.Lock()
	if n := len(p.s); n > 0 {
		x := p.s[n-1]
		p.s = p.s[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x != nil {
		p.mu.Lock()
		if len(p.s) < 256 {
			p.s = append(p.s, x)
		}
		p.mu.Unlock()
	}
	point("Pool.Put")
}

// Map stands in for sync.Map.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool) { point("Map.Load"); return m.m.Load(k) }
func (m *Map) Store(k, v any)         { m.m.Store(k, v); point("Map.Store") }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	point("Map.LoadOrStore")
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	point("Map.LoadAndDelete")
	return m.m.LoadAndDelete(k)
}
func (m *Map) Delete(k any)                   { m.m.Delete(k); point("Map.Delete") }
func (m *Map) Swap(k, v any) (any, bool)      { point("Map.Swap"); return m.m.Swap(k, v) }
func (m *Map) Clear()                         { m.m.Clear(); point("Map.Clear") }
func (m *Map) CompareAndDelete(k, v any) bool { point("Map.CAD"); return m.m.CompareAndDelete(k, v) }
func (m *Map) CompareAndSwap(k, a, b any) bool {
	point("Map.CAS")
	return m.m.CompareAndSwap(k, a, b)
}
func (m *Map) Range(f func(k, v any) bool) {
	m.m.Range(func(k, v any) bool { point("Map.Range"); return f(k, v) })
}

// WaitGroup stands in for sync.WaitGroup.
type WaitGroup struct {
	mu sync.Mutex
	n  int
	q  []chan struct{}
}

func (w *WaitGroup) Add(d int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		for _, c := range w.q {
			close(c)
		}
		w.q = nil
	}
}
func (w *WaitGroup) Done() { w.Add(-1); point("WaitGroup.Done") }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go func() { defer w.Done(); f() }()
}
func (w *WaitGroup) Wait() {
	point("WaitGroup.Wait")
	w.mu.Lock()
	if w.n == 0 {
		w.mu.Unlock()
		return
	}
	c := make(chan struct{})
	w.q = append(w.q, c)
	w.mu.Unlock()
	<-c
	point("WaitGroup waited")
}

// Mutex stands in for sync.Mutex.
type Mutex struct{ l chlock.RW }

func (m *Mutex) Lock() {
	point("Lock")
	if m.l.Acquire(true) {
		point("Locked")
	}
}
func (m *Mutex) TryLock() bool { point("TryLock"); return m.l.Try(true) }
func (m *Mutex) Unlock()       { m.l.Release(true); point("Unlocked") }

// RWMutex stands in for sync.RWMutex.
type RWMutex struct{ l chlock.RW }

func (m *RWMutex) Lock() {
	point("Lock")
	if m.l.Acquire(true) {
		point("Locked")
	}
}
func (m *RWMutex) RLock() {
	point("RLock")
	if m.l.Acquire(false) {
		point("RLocked")
	}
}
func (m *RWMutex) TryLock() bool  { point("TryLock"); return m.l.Try(true) }
func (m *RWMutex) TryRLock() bool { point("TryRLock"); return m.l.Try(false) }
func (m *RWMutex) Unlock()        { m.l.Release(true); point("Unlocked") }
func (m *RWMutex) RUnlock()       { m.l.Release(false); point("RUnlocked") }

type rlocker RWMutex

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }
func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }

// Cond stands in for sync.Cond.
type Cond struct {
	L  Locker
	mu sync.Mutex
	q  []chan struct{}
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	ch := make(chan struct{})
	c.mu.Lock()
	c.q = append(c.q, ch)
	c.mu.Unlock()
	c.L.Unlock()
	<-ch
	c.L.Lock()
}
func (c *Cond) Signal() {
	c.mu.Lock()
	if len(c.q) > 0 {
		close(c.q[0])
		c.q = c.q[1:]
	}
	c.mu.Unlock()
}
func (c *Cond) Broadcast() {
	c.mu.Lock()
	for _, ch := range c.q {
		close(ch)
	}
	c.q = nil
	c.mu.Unlock()
}

func point(what string) { sched.Point(what) }
