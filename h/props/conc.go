package props

import (
	"fmt"
	"hash/maphash"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/powerpuffpenguin/sessionid"
	"pgregory.net/rapid"

	"verif.local/h/sched"
)

// Pre is a preemption: at step At the goroutine number To among the waiting ones goes on.
type Pre struct{ At, To int }

// Sch says how goroutines interleave.
type Sch struct {
	Pre   []Pre  `json:",omitempty"`
	Dense uint64 `json:",omitempty"` // != 0: a random choice at every step
	Slow  int    `json:",omitempty"` // client 0 goes on only after so many steps of others
	Ticks []int  `json:",omitempty"` // steps at which the clock moves on
	TickD int64  `json:",omitempty"` // by how much (ms)
}

func genSch(t *rapid.T, steps int) (s Sch) {
	if rapid.IntRange(0, 2).Draw(t, "dense") == 2 {
		s.Dense = rapid.Uint64Range(1, 1<<40).Draw(t, "schedseed")
	} else {
		s.Pre = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Pre {
			return Pre{rapid.IntRange(0, steps).Draw(t, "at"), rapid.IntRange(1, 4).Draw(t, "to")}
		}), 0, 5).Draw(t, "pre")
	}
	return
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

func (s Sch) choose() sched.Choice {
	at := map[int]int{}
	for _, p := range s.Pre {
		at[p.At] = p.To
	}
	since := 0
	return func(step int, keys []int) int {
		n := len(keys)
		if s.Slow > 0 {
			pick := 0
			if s.Dense != 0 {
				pick = int(mix(s.Dense+uint64(step)) % uint64(n))
			}
			for i := 0; i < n; i++ {
				if j := (pick + i) % n; (keys[j] == 0) == (since >= s.Slow) {
					pick = j
					break
				}
			}
			if keys[pick] == 0 {
				since = 0
			} else {
				since++
			}
			return pick
		}
		if s.Dense != 0 {
			return int(mix(s.Dense+uint64(step)) % uint64(n))
		}
		return at[step]
	}
}

func (s Sch) tick() func(int) time.Duration {
	at := map[int]bool{}
	for _, x := range s.Ticks {
		at[x] = true
	}
	return func(step int) time.Duration {
		if at[step] {
			return ms(s.TickD)
		}
		return 0
	}
}

// CallRec is a call of a concurrent history.
type CallRec struct {
	Client    int
	P         int // which provider
	C         COp
	R         Res
	Call, Ret int
	Done      bool
	Faulty    bool // it may have failed for reasons outside the store
}

func (h CallRec) String() string {
	r := "(no return)"
	if h.Done {
		r = h.R.String()
	}
	return fmt.Sprintf("client %d/%d [%d,%d] %s -> %s", h.Client, h.P, h.Call, h.Ret, h.C, r)
}

// Recorder collects a concurrent history.
type Recorder struct {
	mu  sync.Mutex
	seq int
	ops []*CallRec
}

func (h *Recorder) call(client, p int, c COp) *CallRec {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.seq++
	o := &CallRec{Client: client, P: p, C: c, Call: h.seq, Ret: 1 << 60}
	h.ops = append(h.ops, o)
	return o
}

func (h *Recorder) ret(o *CallRec, r Res) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.seq++
	o.R, o.Ret, o.Done = r, h.seq, true
}

// planned turns abstract operations into concrete ones for several clients,
// the tokens they will issue being known to the later ones.
func (d *Driver) planned(clients [][]Op) [][]COp {
	out := make([][]COp, len(clients))
	for i := 0; ; i++ {
		any := false
		for c := range clients {
			if i >= len(clients[c]) {
				continue
			}
			any = true
			d.opNo++
			o := d.Concrete(clients[c][i])
			out[c] = append(out[c], o)
			switch o.K {
			case "create":
				x := issuedTok{o.Tok, o.Ref, ""}
				x.id, _ = split(o.Tok)
				d.Issued = append(d.Issued, x)
			case "refresh":
				x := issuedTok{o.NTok, o.NRef, ""}
				ok := false
				if x.id, ok = split(o.NTok); ok {
					d.Issued = append(d.Issued, x)
				}
			}
		}
		if !any {
			return out
		}
	}
}

// concurrently runs the clients under the schedule; providers[i%len] serves client i.
func concurrently(ps []sessionid.Provider, plan [][]COp, s Sch, r *Rec) (*Recorder, *sched.Sched, error) {
	return concurrentlyWith(ps, plan, s, r, nil)
}

// concurrentlyWith tells before about every call that begins.
func concurrentlyWith(ps []sessionid.Provider, plan [][]COp, s Sch, r *Rec, before func(client, i int, o *CallRec)) (*Recorder, *sched.Sched, error) {
	rec := &Recorder{}
	var fs []func()
	for i := range plan {
		i := i
		fs = append(fs, func() {
			p := ps[i%len(ps)]
			for j, c := range plan[i] {
				o := rec.call(i, i%len(ps), c)
				if before != nil {
					before(i, j, o)
				}
				rec.ret(o, Exec(p, c))
			}
		})
	}
	sc, ok := sched.Run(fs, s.choose(), s.tick(), 4000)
	synctest.Wait()
	rec.mu.Lock()
	defer rec.mu.Unlock()
	for _, o := range rec.ops {
		r.Logf("%s", o)
	}
	r.Logf("schedule: %s", strings.Join(sc.Trace, " "))
	if !ok {
		return rec, sc, &caseErr{"deadlock", "these clients never finish"}
	}
	n := 0
	for _, c := range plan {
		n += len(c)
	}
	if len(rec.ops) != n {
		return rec, sc, &caseErr{"deadlock", "not all clients finish"}
	}
	for _, o := range rec.ops {
		if !o.Done {
			return rec, sc, &caseErr{"deadlock", "never returns: " + o.C.String()}
		}
		if o.R.C == "panic" {
			return rec, sc, &caseErr{"panic", o.String()}
		}
	}
	return rec, sc, nil
}

var digestSeed = maphash.MakeSeed()

// maxStates bounds the search for an order; beyond it a case is undecided
// (and counted as that).
const maxStates = 30000

// digest identifies the state of a model.
func (m *Model) digest() string {
	ss := make([]*Sess, 0, len(m.S))
	for _, s := range m.S {
		ss = append(ss, s)
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i].Seq < ss[j].Seq })
	var b strings.Builder
	if m.Closed {
		b.WriteString("closed;")
	}
	for _, s := range ss {
		fmt.Fprintf(&b, "%q %q %q %d %d", s.ID, s.Tok, s.Ref, s.ADead.UnixNano(), s.RDead.UnixNano())
		for _, k := range sortedKeys(s.Data) {
			v := s.Data[k]
			if len(v) > 40 {
				fmt.Fprintf(&b, " %q=%d:%x", k, len(v), maphash.String(digestSeed, v))
				continue
			}
			fmt.Fprintf(&b, " %q=%q", k, v)
		}
		b.WriteByte(';')
	}
	return b.String()
}

// linearize looks for a sequential order of the calls, respecting which
// returned before which was called, that the model allows and after which
// the final observations hold too. It gives back the models reached.
func linearize(start *Model, ops []*CallRec, now time.Time, final func(*Model) error) (err error) {
	n := len(ops)
	if n > 60 {
		panic("too many operations")
	}
	seen := map[string]bool{}
	best, bestN := error(nil), -1
	over := false
	var rec func(mask uint64, m *Model) bool
	rec = func(mask uint64, m *Model) bool {
		if mask == 1<<n-1 {
			e := final(m)
			if e == nil {
				return true
			}
			if n > bestN {
				best, bestN = e, n
			}
			return false
		}
		dig := m.digest()
		key := fmt.Sprintf("%x|%s", mask, dig)
		if seen[key] {
			return false
		}
		if seen[key] = true; len(seen) > maxStates {
			over = true
		}
		if over {
			return false
		}
		minRet := 1 << 61
		cnt := 0
		for i, o := range ops {
			if mask>>i&1 == 0 {
				if o.Ret < minRet {
					minRet = o.Ret
				}
			} else {
				cnt++
			}
		}
		for i, o := range ops {
			if mask>>i&1 != 0 || o.Call > minRet {
				continue
			}
			c := m.Clone()
			if e := c.Step(o.C, o.R, now); e != nil {
				if cnt > bestN {
					best, bestN = e, cnt
				}
				continue
			}
			if rec(mask|1<<i, c) {
				return true
			}
			if (!o.C.changes() || o.R.C != "ok") && c.digest() == dig { // it can as well be now
				return false
			}
		}
		return false
	}
	if rec(0, start.Clone()) {
		return nil
	}
	if over {
		return &caseErr{"undecided", "too many orders"}
	}
	return fail("no sequential order of the calls explains their results; the closest comes to: %v", best)
}

// audit reads everything through every token the driver knows about, as one
// list of calls to be explained by the model of any order that is possible.
func (d *Driver) auditOps(p sessionid.Provider, last bool) []*CallRec {
	return d.auditWith(p, last, synctest.Wait)
}

// auditFree is auditOps outside of a bubble.
func (d *Driver) auditFree(p sessionid.Provider) []*CallRec {
	return d.auditWith(p, true, func() {})
}

func (d *Driver) auditWith(p sessionid.Provider, last bool, wait func()) (out []*CallRec) {
	do := func(c COp) Res {
		o := &CallRec{Client: -1, C: c, Done: true}
		o.R = Exec(p, c)
		wait()
		out = append(out, o)
		return o.R
	}
	seen := map[string]bool{}
	for _, x := range d.Issued {
		if seen[x.tok] {
			continue
		}
		seen[x.tok] = true
		r := do(COp{K: "keys", Tok: x.tok})
		do(COp{K: "check", Tok: x.tok})
		ks := append(append([]string{}, r.Keys...), keyPool[:4]...)
		do(COp{K: "get", Tok: x.tok, Keys: ks})
	}
	if !last {
		return
	}
	// does every refresh token work that should, and no other
	for _, x := range d.Issued {
		nt, nr := d.fresh(x.id)
		r := do(COp{K: "refresh", Tok: x.tok, Ref: x.ref, NTok: nt, NRef: nr})
		if r.C == "ok" {
			do(COp{K: "keys", Tok: nt})
		}
	}
	// does the owner index still find what is there
	ids := map[string]bool{}
	for _, x := range d.Issued {
		if !ids[x.id] {
			ids[x.id] = true
			do(COp{K: "destroyID", ID: x.id})
		}
	}
	return
}

func explain(m *Model, ops []*CallRec, now time.Time) error {
	c := m.Clone()
	for _, o := range ops {
		if e := c.Step(o.C, o.R, now); e != nil {
			return fail("afterwards: %v", e)
		}
	}
	return nil
}
