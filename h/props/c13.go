package props

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"verif.local/h/fakeredis"
	"verif.local/h/sched"
)

// C13: a failing redis connection never corrupts a session.

// Flt is a fault: the requests From..From+N-1 of step Op fail.
type Flt struct {
	Op, From, N int
	F           fakeredis.Fault
}

// Ctl is a context that ends: before the call, or when it makes its request number At.
type Ctl struct {
	Op, Kind, At int
}

type c13Case struct {
	Cfg    Cfg
	Ops    []Op
	Faults []Flt
	Ctx    []Ctl
	Touch  []Flt // other clients write to everything, without changing it, before these requests
}

func genC13(t *rapid.T) c13Case {
	c := c13Case{Cfg: genCfg(t, "redis")}
	genTimes(t, &c.Cfg)
	ws := weights{{"create", 5}, {"put", 5}, {"del", 3}, {"refresh", 6}, {"destroyTok", 2}, {"destroyID", 3}, {"get", 2}, {"keys", 2}, {"check", 2}, {"adv", 2}, {"observe", 1}, {"many", 1}}
	c.Ops = genOps(t, ws, 2, 14, false)
	n := len(c.Ops)
	c.Faults = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Flt {
		f := Flt{Op: rapid.IntRange(0, n-1).Draw(t, "op"), From: rapid.IntRange(0, 4).Draw(t, "from"), N: 1}
		f.F = rapid.SampledFrom([]fakeredis.Fault{fakeredis.DropAfter, fakeredis.DropBefore, fakeredis.Timeout, fakeredis.Reject}).Draw(t, "fault")
		if rapid.IntRange(0, 2).Draw(t, "long") == 0 {
			f.N = rapid.IntRange(1, 8).Draw(t, "n")
		}
		return f
	}), 1, 4).Draw(t, "faults")
	if rapid.IntRange(0, 2).Draw(t, "ctx") == 0 {
		c.Ctx = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Ctl {
			return Ctl{Op: rapid.IntRange(0, n-1).Draw(t, "op"), Kind: rapid.IntRange(0, 5).Draw(t, "kind"), At: rapid.IntRange(0, 4).Draw(t, "at")}
		}), 1, 4).Draw(t, "ctxs")
		if rapid.Bool().Draw(t, "only") { // nothing else goes wrong
			c.Faults = nil
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "touch") == 0 {
		c.Touch = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Flt {
			return Flt{Op: rapid.IntRange(0, n-1).Draw(t, "op"), From: rapid.IntRange(0, 3).Draw(t, "from"), N: rapid.SampledFrom([]int{1, 2, 3, 4, 7, 12, 40}).Draw(t, "n")}
		}), 1, 3).Draw(t, "touches")
	}
	return c
}

// worlds are the states the store may be in.
type worlds []*Model

func (w worlds) dedupe() worlds {
	seen := map[string]bool{}
	var out worlds
	for _, m := range w {
		k := m.digest()
		if !seen[k] {
			seen[k] = true
			out = append(out, m)
		}
	}
	return out
}

// step applies a call; faulty says that the call may have failed for reasons outside the store.
func (w worlds) step(o COp, r Res, now time.Time, faulty bool) (worlds, error) {
	if r.C == "panic" {
		return nil, &caseErr{"panic", fmt.Sprintf("%s: %s", o, r.E)}
	}
	var out worlds
	var last error
	for _, m := range w {
		if r.C == "other" && faulty {
			out = append(out, m) // it did not happen,
			c := m.Clone()       // or it did
			if c.Step(o, Res{C: "ok"}, now) == nil {
				out = append(out, c)
			}
			continue
		}
		c := m.Clone()
		if e := c.Step(o, r, now); e != nil {
			last = e
			continue
		}
		out = append(out, c)
	}
	if len(out) == 0 {
		return nil, last
	}
	return out.dedupe(), nil
}

func runC13(c c13Case, r *Rec) error {
	err := bubble(func() error {
		d, err := NewDriver(c.Cfg, r)
		if err != nil {
			return err
		}
		defer d.W.Done()
		srv := d.W.Srv
		w := worlds{d.M}
		do := func(o COp, op int) error {
			now := time.Now()
			fired, req, me := 0, 0, sched.Goid()
			ctx, ctl := bg, Ctl{At: -1}
			cancel := context.CancelFunc(func() {})
			for _, x := range c.Ctx {
				if x.Op == op {
					ctl = x
					switch x.Kind {
					case 0:
						ctx, cancel = context.WithCancel(bg)
						cancel()
						fired++
					case 1:
						ctx, cancel = context.WithDeadline(bg, now.Add(-time.Second))
						fired++
					case 2: // lasts long enough
						ctx, cancel = context.WithTimeout(bg, time.Hour)
					default:
						ctx, cancel = context.WithCancel(bg)
					}
					r.Label(fmt.Sprintf("context:%d", min(x.Kind, 3)))
				}
			}
			defer func() { cancel() }()
			var mu sync.Mutex
			srv.OnRequest = func(cmd string, args []string) fakeredis.Fault {
				mu.Lock()
				defer mu.Unlock()
				back := sched.Goid() != me
				if ctx != bg { // the client uses another goroutine, too
					back = (cmd == "del" || cmd == "unlink") && o.K != "create" && !strings.HasPrefix(o.K, "destroy")
				}
				if back { // background work
					for _, f := range c.Faults {
						if f.Op == op && f.N > 1 {
							return f.F
						}
					}
					return fakeredis.None
				}
				i := req
				req++
				for _, f := range c.Touch {
					if f.Op == op && i >= f.From && i < f.From+f.N && (cmd == "exec" || f.N > 1) {
						r.Label("touched:" + cmd)
						srv.TouchAll()
					}
				}
				if ctl.At == i && ctl.Kind > 2 {
					fired++
					r.Label("context ended:" + cmd)
					cancel()
				}
				for _, f := range c.Faults {
					if f.Op == op && i >= f.From && i < f.From+f.N {
						fired++
						r.Label(fmt.Sprintf("fault:%d:%s", f.F, cmd))
						return f.F
					}
				}
				return fakeredis.None
			}
			broke := srv.Broke
			res := ExecCtx(ctx, d.W.P, o)
			mu.Lock()
			faulty := fired > 0 || srv.Broke > broke
			mu.Unlock()
			synctest.Wait()
			srv.OnRequest = nil
			note := ""
			if faulty {
				note = fmt.Sprintf("   (%d faults)", fired)
			}
			r.Logf("%s %s -> %s%s", now.Sub(epoch), o, res, note)
			nw, err := w.step(o, res, now, faulty)
			if err != nil {
				if len(w) > 1 {
					err = fail("%v (in all of %d possible states)", err, len(w))
				}
				return err
			}
			w = nw
			d.M = w[0]
			if o.K == "create" || o.K == "refresh" {
				if res.C == "ok" || res.C == "other" {
					x := issuedTok{o.Tok, o.Ref, ""}
					if o.K == "refresh" {
						x = issuedTok{o.NTok, o.NRef, ""}
					}
					if id, ok := split(x.tok); ok {
						x.id = id
						d.Issued = append(d.Issued, x)
					}
				}
			}
			if faulty {
				r.Label("hit:" + o.K + ":" + res.C)
				if o.K != "get" && o.K != "keys" && o.K != "check" && res.C != "invalid" {
					r.NT()
				}
			}
			return nil
		}
		observe := func() error {
			seen := map[string]bool{}
			for _, x := range d.Issued {
				if seen[x.tok] {
					continue
				}
				seen[x.tok] = true
				if err := do(COp{K: "check", Tok: x.tok}, -1); err != nil {
					return err
				}
				if err := do(COp{K: "keys", Tok: x.tok}, -1); err != nil {
					return err
				}
				ks := append([]string{}, keyPool[:4]...)
				for _, m := range w {
					if s := m.S[x.tok]; s != nil {
						ks = append(ks, sortedKeys(s.Data)...)
					}
				}
				if err := do(COp{K: "get", Tok: x.tok, Keys: ks}, -1); err != nil {
					return err
				}
			}
			return nil
		}
		for i, o := range c.Ops {
			d.opNo++
			switch o.K {
			case "adv":
				d.Advance(o)
				continue
			case "observe":
				if err := observe(); err != nil {
					return err
				}
				continue
			case "many":
				srv.BreakAll()
				r.Logf("all connections break")
				continue
			}
			if err := do(d.Concrete(o), i); err != nil {
				return err
			}
		}
		// a connection broken before counts as one more fault; then all is well
		for i := 0; i < 2; i++ {
			if err := do(COp{K: "check", Tok: "1.none.g"}, -1); err != nil {
				return err
			}
		}
		if err := observe(); err != nil {
			return err
		}
		for _, k := range srv.Undying() {
			if strings.HasPrefix(k, c.Cfg.prefix()) {
				return fail("the key %q on the server never expires", k)
			}
		}
		for _, s := range w[0].Live(time.Now()) {
			nt, nr := d.fresh(s.ID)
			if err := do(COp{K: "refresh", Tok: s.Tok, Ref: s.Ref, NTok: nt, NRef: nr}, -1); err != nil {
				return err
			}
		}
		return observe()
	})
	if errKind(err) == "leak" {
		return nil // decided by C14 only
	}
	return err
}

// CFlt is a fault of a concurrent history: requests From..From+N-1 of call Op of a client fail.
type CFlt struct {
	Client, Op, From, N int
	F                   fakeredis.Fault
}

// c13Conc is a concurrent history over one server with faults.
type c13Conc struct {
	CCase
	Faults []CFlt
}

func genC13Conc(t *rapid.T) c13Conc {
	c := c13Conc{CCase: genC12(t)}
	n := len(c.Clients)
	c.Faults = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) CFlt {
		f := CFlt{Client: rapid.IntRange(0, n-1).Draw(t, "client"), Op: rapid.IntRange(0, 2).Draw(t, "op"), From: rapid.IntRange(0, 4).Draw(t, "from"), N: 1}
		f.F = rapid.SampledFrom([]fakeredis.Fault{fakeredis.DropAfter, fakeredis.DropBefore, fakeredis.Timeout, fakeredis.Reject}).Draw(t, "fault")
		if rapid.IntRange(0, 3).Draw(t, "long") == 0 {
			f.N = rapid.IntRange(2, 6).Draw(t, "n")
		}
		return f
	}), 1, 5).Draw(t, "faults")
	return c
}

func runC13Conc(c c13Conc, r *Rec) error {
	err := bubble(func() error {
		d, err := NewDriver(c.Cfg, r)
		if err != nil {
			return err
		}
		defer d.W.Done()
		ps, done, err := d.stores(c.Stores)
		defer done()
		if err != nil {
			return err
		}
		for _, o := range c.Setup {
			if err := d.Step(o, nil); err != nil {
				return err
			}
		}
		d.settle(c.CCase)
		start, now := d.M.Clone(), time.Now()
		plan := d.planned(c.Clients)
		// nobody knows a token before the call which stores it has returned:
		// a creation may be sent twice when an answer is lost
		maker := map[string]int{}
		for i, ops := range plan {
			for _, o := range ops {
				switch o.K {
				case "create":
					maker[o.Tok] = i
				case "refresh":
					maker[o.NTok] = i
				}
			}
		}
		for i, ops := range plan {
			var keep []COp
			for _, o := range ops {
				if m, ok := maker[o.Tok]; !ok || m == i {
					keep = append(keep, o)
				}
			}
			plan[i] = keep
		}
		srv := d.W.Srv
		var mu sync.Mutex
		type at struct {
			client, op, req int
			o               *CallRec
		}
		calls := map[int64]*at{}
		srv.OnRequest = func(cmd string, args []string) fakeredis.Fault {
			mu.Lock()
			defer mu.Unlock()
			x := calls[sched.Goid()]
			if x == nil { // in the background
				return fakeredis.None
			}
			i := x.req
			x.req++
			for _, f := range c.Faults {
				if f.Client == x.client && f.Op == x.op && i >= f.From && i < f.From+f.N {
					x.o.Faulty = true
					r.Label(fmt.Sprintf("fault:%d:%s", f.F, cmd))
					return f.F
				}
			}
			return fakeredis.None
		}
		srv.OnBroke = func() {
			mu.Lock()
			defer mu.Unlock()
			if x := calls[sched.Goid()]; x != nil {
				x.o.Faulty = true
			}
		}
		rec, sc, err := concurrentlyWith(ps, plan, c.Sch, r, func(client, i int, o *CallRec) {
			mu.Lock()
			defer mu.Unlock()
			calls[sched.Goid()] = &at{client: client, op: i, o: o}
		})
		if err != nil {
			return err
		}
		synctest.Wait()
		srv.OnRequest = nil
		srv.OnBroke = nil
		for _, p := range ps {
			for i := 0; i < 3; i++ {
				Exec(p, COp{K: "check", Tok: "1.none.g"})
			}
		}
		final := d.auditOps(ps[0], true)
		for _, o := range final {
			r.Logf("%s -> %s", o.C, o.R)
		}
		if err := linearizeRedis(start, rec.ops, now, func(m *Model) error { return explain(m, final, now) }); err != nil {
			return err
		}
		failed := 0
		for _, o := range rec.ops {
			if o.Faulty {
				r.Label("hit:" + o.C.K + ":" + o.R.C)
				if o.C.changes() {
					failed++
				}
			}
		}
		if failed > 0 && sc.Preempt > 0 && changes(rec.ops) > 0 {
			r.NT()
		}
		return nil
	})
	if errKind(err) == "leak" {
		return nil // decided by C14 only
	}
	return err
}

func init() {
	reg("C13", "together", 48000, 1200000, "a fault hit a call that changes sessions, with a preemption between commands, and another change succeeded", genC13Conc, runC13Conc)
	reg("C13", "faults", 72000, 2400000, "a fault hit a call that changes sessions", genC13, runC13)
}
