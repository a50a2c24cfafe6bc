// Package chlock has mutexes which block on channels, so that a goroutine
// waiting for a lock inside a synctest bubble counts as durably blocked and a
// deadlock is detected instead of hanging.
package chlock

import "sync"

type waiter struct {
	write bool
	ch    chan struct{}
}

// RW is the state of a reader/writer lock.
type RW struct {
	g       sync.Mutex
	readers int
	writer  bool
	queue   []*waiter
}

// Acquire takes the lock; it reports whether it had to wait.
func (l *RW) Acquire(write bool) bool {
	l.g.Lock()
	if !l.writer && len(l.queue) == 0 && (!write || l.readers == 0) {
		if write {
			l.writer = true
		} else {
			l.readers++
		}
		l.g.Unlock()
		return false
	}
	w := &waiter{write: write, ch: make(chan struct{})}
	l.queue = append(l.queue, w)
	l.g.Unlock()
	<-w.ch
	return true
}

// Try takes the lock if it is free.
func (l *RW) Try(write bool) bool {
	l.g.Lock()
	defer l.g.Unlock()
	if !l.writer && len(l.queue) == 0 && (!write || l.readers == 0) {
		if write {
			l.writer = true
		} else {
			l.readers++
		}
		return true
	}
	return false
}

// Release gives the lock back.
func (l *RW) Release(write bool) {
	l.g.Lock()
	if write {
		if !l.writer {
			l.g.Unlock()
			panic("sync: unlock of unlocked mutex")
		}
		l.writer = false
	} else {
		if l.readers == 0 {
			l.g.Unlock()
			panic("sync: RUnlock of unlocked RWMutex")
		}
		l.readers--
	}
	for len(l.queue) > 0 {
		w := l.queue[0]
		if w.write {
			if l.writer || l.readers > 0 {
				break
			}
			l.writer = true
		} else {
			if l.writer {
				break
			}
			l.readers++
		}
		l.queue = l.queue[1:]
		close(w.ch)
		if w.write {
			break
		}
	}
	l.g.Unlock()
}
