// Package sched owns the interleaving of goroutines: code compiled against the
// xsync/xatomic shims (and the fake redis server) calls Point at every lock
// operation, atomic operation or server command. While a scheduler is
// installed, the calling goroutine parks there until the driver releases it.
package sched

import (
	"bytes"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"
)

type waiter struct {
	key  int    // client number, or 1000 for background goroutines
	name string // entry function of a background goroutine
	seq  int
	what string
	ch   chan struct{}
}

// Sched is one controlled execution.
type Sched struct {
	mu      sync.Mutex
	pending []*waiter
	seq     int
	clients map[int64]int
	done    int
	off     bool
	last    int // key of the last released waiter
	Steps   int
	Preempt int
	Trace   []string
}

var cur atomic.Pointer[Sched]

// Goid returns the id of the calling goroutine.
func Goid() int64 {
	var buf [64]byte
	b := buf[:runtime.Stack(buf[:], false)]
	b = b[len("goroutine "):]
	i := bytes.IndexByte(b, ' ')
	n, _ := strconv.ParseInt(string(b[:i]), 10, 64)
	return n
}

func entryName() string {
	var pcs [48]uintptr
	n := runtime.Callers(2, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	name := ""
	for {
		f, more := fr.Next()
		if f.Function != "runtime.goexit" && f.Function != "" {
			name = f.Function
		}
		if !more {
			break
		}
	}
	return name
}

// Point is a scheduling point.
func Point(what string) {
	s := cur.Load()
	if s == nil {
		return
	}
	s.park(what)
}

// Active reports whether a scheduler is installed.
func Active() bool { return cur.Load() != nil }

func (s *Sched) park(what string) {
	id := Goid()
	s.mu.Lock()
	if s.off {
		s.mu.Unlock()
		return
	}
	w := &waiter{what: what, ch: make(chan struct{})}
	if k, ok := s.clients[id]; ok {
		w.key = k
	} else {
		w.key = 1000
		w.name = entryName()
	}
	s.seq++
	w.seq = s.seq
	s.pending = append(s.pending, w)
	s.mu.Unlock()
	<-w.ch
}

// Choice is consulted at every step: which of the pending goroutines goes next
// (0 = keep running the one that ran last, if it is pending). keys are their
// client numbers, 1000 for those in the background.
type Choice func(step int, keys []int) int

// Run runs the clients under the scheduler until all have finished; it must
// be called inside a synctest bubble. tick is called before every step and
// may sleep (advancing the virtual clock). It returns false on a deadlock.
func Run(clients []func(), choose Choice, tick func(step int) time.Duration, maxSteps int) (s *Sched, ok bool) {
	s = &Sched{clients: map[int64]int{}, last: -1}
	cur.Store(s)
	defer func() {
		s.mu.Lock()
		s.off = true
		p := s.pending
		s.pending = nil
		s.mu.Unlock()
		cur.Store(nil)
		for _, w := range p {
			close(w.ch)
		}
	}()
	for i, f := range clients {
		i, f := i, f
		go func() {
			s.mu.Lock()
			s.clients[Goid()] = i
			s.mu.Unlock()
			Point("start")
			f()
			s.mu.Lock()
			s.done++
			s.mu.Unlock()
		}()
		synctest.Wait()
	}
	idle := 0
	for step := 0; ; step++ {
		synctest.Wait()
		s.mu.Lock()
		done := s.done
		s.mu.Unlock()
		if done == len(clients) {
			return s, true
		}
		if tick != nil {
			if d := tick(step); d > 0 {
				time.Sleep(d)
				synctest.Wait()
			}
		}
		s.mu.Lock()
		p := s.pending
		sort.SliceStable(p, func(a, b int) bool {
			la, lb := p[a].key == s.last, p[b].key == s.last
			if la != lb {
				return la
			}
			if p[a].key != p[b].key {
				return p[a].key < p[b].key
			}
			if p[a].name != p[b].name {
				return p[a].name < p[b].name
			}
			return p[a].seq < p[b].seq
		})
		if len(p) == 0 {
			s.mu.Unlock()
			// somebody may only be waiting for a moment
			if idle++; idle <= 4 {
				time.Sleep(25 * time.Millisecond)
				continue
			}
			return s, false
		}
		idle = 0
		if step > maxSteps {
			s.mu.Unlock()
			return s, true // give up controlling; let everything run
		}
		keys := make([]int, len(p))
		for i, w := range p {
			keys[i] = w.key
		}
		c := choose(step, keys) % len(p)
		if c < 0 {
			c = 0
		}
		w := p[c]
		if s.last >= 0 && w.key != s.last {
			s.Preempt++
		}
		s.last = w.key
		if len(s.Trace) < 400 {
			nm := strconv.Itoa(w.key)
			if w.key == 1000 {
				nm = w.name
			}
			s.Trace = append(s.Trace, nm+":"+w.what)
		}
		s.pending = append(p[:c:c], p[c+1:]...)
		s.Steps++
		s.mu.Unlock()
		close(w.ch)
	}
}

// Stop turns the current scheduler off and lets everything run freely.
func Stop() {
	if s := cur.Load(); s != nil {
		s.mu.Lock()
		s.off = true
		p := s.pending
		s.pending = nil
		s.mu.Unlock()
		cur.Store(nil)
		for _, w := range p {
			close(w.ch)
		}
	}
}
