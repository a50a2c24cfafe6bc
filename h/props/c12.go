package props

import (
	"fmt"
	"strings"
	"testing/synctest"
	"time"

	"github.com/powerpuffpenguin/sessionid"
	predis "github.com/powerpuffpenguin/sessionid/provider/redis"
	"pgregory.net/rapid"
)

// C12: concurrent use of one redis store is atomic.

// rmodel is a model along with the bulk destructions in progress.
type rmodel struct {
	m     *Model
	roots map[string]string // token -> token the session was created with
	open  map[int][]string  // destroyID in progress -> sessions it has to end
}

func (s *rmodel) clone() *rmodel {
	n := &rmodel{s.m.Clone(), map[string]string{}, map[int][]string{}}
	for k, v := range s.roots {
		n.roots[k] = v
	}
	for k, v := range s.open {
		n.open[k] = v
	}
	return n
}

func (s *rmodel) root(tok string) string {
	if r, ok := s.roots[tok]; ok {
		return r
	}
	return tok
}

func (s *rmodel) step(o *CallRec, now time.Time) error {
	if e := s.m.Step(o.C, o.R, now); e != nil {
		return e
	}
	if o.R.C == "ok" && o.C.K == "refresh" && o.C.NTok != o.C.Tok {
		s.roots[o.C.NTok] = s.root(o.C.Tok)
		delete(s.roots, o.C.Tok)
	}
	return nil
}

// linearizeRedis is linearize, a destruction by owner id being one
// destruction for every session of the owner (found when it begins, and
// maybe some created later), each at its own instant before it returns.
func linearizeRedis(start *Model, ops []*CallRec, now time.Time, final func(*Model) error) error {
	n := len(ops)
	if n > 60 {
		panic("too many operations")
	}
	seen := map[string]bool{}
	best, bestN, over := error(nil), -1, false
	miss := func(e error, cnt int) {
		if cnt > bestN {
			best, bestN = e, cnt
		}
	}
	var rec func(mask uint64, s *rmodel) bool
	rec = func(mask uint64, s *rmodel) bool {
		if mask == 1<<n-1 {
			e := final(s.m)
			if e != nil {
				miss(e, n)
			}
			return e == nil
		}
		var key strings.Builder
		dig := s.m.digest()
		fmt.Fprintf(&key, "%x|%s|", mask, dig)
		for i := range ops {
			if r, ok := s.open[i]; ok {
				fmt.Fprintf(&key, "%d%q", i, r)
			}
		}
		if seen[key.String()] {
			return false
		}
		if seen[key.String()] = true; len(seen) > maxStates {
			over = true
		}
		if over {
			return false
		}
		minRet, cnt := 1<<61, 0
		for i, o := range ops {
			if mask>>i&1 == 0 {
				minRet = min(minRet, o.Ret)
			} else {
				cnt++
			}
		}
		for i, o := range ops {
			if mask>>i&1 != 0 || o.Call > minRet {
				continue
			}
			failed := o.Faulty && o.R.C == "other"
			if failed { // it did not happen, or nothing more of it
				c := s.clone()
				delete(c.open, i)
				if rec(mask|1<<i, c) {
					return true
				}
			}
			if failed && o.C.K != "destroyID" { // it happened
				c, x := s.clone(), *o
				x.R = Res{C: "ok"}
				if o.C.changes() && c.step(&x, now) == nil && rec(mask|1<<i, c) {
					return true
				}
				continue
			}
			if o.C.K != "destroyID" {
				c := s.clone()
				if e := c.step(o, now); e != nil {
					miss(e, cnt)
					continue
				}
				if rec(mask|1<<i, c) {
					return true
				}
				if (!o.C.changes() || o.R.C != "ok") && c.m.digest() == dig { // it can as well be now
					return false
				}
				continue
			}
			if o.R.C != "ok" && !failed {
				miss(fail("%s", o), cnt)
				continue
			}
			must, begun := s.open[i]
			if !begun {
				c := s.clone()
				rs := []string{}
				for _, x := range s.m.Live(now) {
					if x.ID == o.C.ID {
						rs = append(rs, s.root(x.Tok))
					}
				}
				c.open[i] = rs
				if rec(mask, c) {
					return true
				}
				continue
			}
			left := false
			for _, x := range s.m.Live(now) {
				if x.ID != o.C.ID {
					continue
				}
				for _, r := range must {
					left = left || r == s.root(x.Tok)
				}
				c := s.clone()
				c.m.drop(x.Tok)
				if rec(mask, c) {
					return true
				}
			}
			if failed {
				continue // as far as it got
			}
			if left {
				miss(fail("%s: a session the owner had when it began is left", o), cnt)
				continue
			}
			c := s.clone()
			delete(c.open, i)
			if rec(mask|1<<i, c) {
				return true
			}
		}
		return false
	}
	if rec(0, &rmodel{start.Clone(), map[string]string{}, map[int][]string{}}) {
		return nil
	}
	if over {
		return &caseErr{"undecided", "too many orders"}
	}
	return fail("no sequential order of the calls explains their results; the closest comes to: %v", best)
}

func genC12(t *rapid.T) CCase {
	c := CCase{Cfg: genCfg(t, "redis"), Setup: genConcSetup(t), Stores: rapid.IntRange(1, 3).Draw(t, "stores")}
	c.Cfg.A, c.Cfg.R = 4000, 6000
	if rapid.IntRange(0, 2).Draw(t, "long") == 0 {
		c.Cfg.R = 100000
	}
	c.Cfg.Batch = rapid.SampledFrom([]int{0, -100, 1, 2}).Draw(t, "batch")
	c.Clients = genClients(t, concWeights, 4, 3)
	fix := func(o *Op) {
		if o.K == "create" && o.V >= 13 || o.K == "refresh" && o.V == 18 {
			o.V = 0 // a token is issued once only
		}
	}
	for i := range c.Setup {
		fix(&c.Setup[i])
	}
	for i := range c.Clients {
		for j := range c.Clients[i] {
			fix(&c.Clients[i][j])
		}
	}
	c.Sch = genSch(t, 30)
	return c
}

// stores opens more stores on the same server.
func (d *Driver) stores(n int) (ps []sessionid.Provider, done func(), err error) {
	ps = []sessionid.Provider{d.W.P}
	done = func() {
		for _, p := range ps[1:] {
			p.(*predis.Provider).Close()
		}
	}
	for len(ps) < n {
		p, e := predis.New(redisOpts(d.W.Cfg, NewClient(d.W.Srv))...)
		if e != nil {
			return ps, done, fail("cannot open the store: %v", e)
		}
		ps = append(ps, p)
	}
	return
}

func runC12(c CCase, r *Rec) error {
	err := bubble(func() error {
		d, err := NewDriver(c.Cfg, r)
		if err != nil {
			return err
		}
		defer d.W.Done()
		ps, done, err := d.stores(c.Stores)
		defer done()
		if err != nil {
			return err
		}
		r.Label(fmt.Sprintf("stores:%d", len(ps)))
		for _, o := range c.Setup {
			if err := d.Step(o, nil); err != nil {
				return err
			}
		}
		d.settle(c)
		start, now := d.M.Clone(), time.Now()
		plan := d.planned(c.Clients)
		rec, sc, err := concurrently(ps, plan, c.Sch, r)
		if err != nil {
			return err
		}
		synctest.Wait()
		final := d.auditOps(ps[0], true)
		for _, o := range final {
			r.Logf("%s -> %s", o.C, o.R)
		}
		if err := linearizeRedis(start, rec.ops, now, func(m *Model) error { return explain(m, final, now) }); err != nil {
			return err
		}
		for _, o := range rec.ops {
			r.Label(o.C.K + ":" + o.R.C)
		}
		if sc.Preempt > 1 && changes(rec.ops) > 0 {
			r.NT()
		}
		return nil
	})
	if errKind(err) == "leak" {
		return nil // decided by C14 only
	}
	return err
}

// C12Busy is a client whose session others keep changing.
type C12Busy struct {
	Cfg    Cfg
	Stores int
	Mode   int // 0: the others put, 1: they refresh the session again and again
	Victim []int
	N      int // changes by each of the others
	Others int
	Sch    Sch
}

func genC12Busy(t *rapid.T) C12Busy {
	c := C12Busy{Cfg: genCfg(t, "redis"), Stores: rapid.IntRange(1, 3).Draw(t, "stores"), Mode: rapid.IntRange(0, 2).Draw(t, "mode") % 2}
	c.Cfg.A, c.Cfg.R = 40000, 60000
	c.Victim = rapid.SliceOfN(rapid.IntRange(0, 6), 1, 3).Draw(t, "victim")
	c.Others = rapid.IntRange(1, 2).Draw(t, "others")
	c.N = rapid.IntRange(3, 40/c.Others).Draw(t, "n")
	if c.Mode == 1 {
		c.Others, c.N = 1, min(c.N, 20)
	}
	c.Sch.Slow = rapid.IntRange(1, 7).Draw(t, "slow")
	if rapid.Bool().Draw(t, "random") {
		c.Sch.Dense = rapid.Uint64Range(1, 1<<40).Draw(t, "schedseed")
	}
	return c
}

func runC12Busy(c C12Busy, r *Rec) error {
	err := bubble(func() error {
		d, err := NewDriver(c.Cfg, r)
		if err != nil {
			return err
		}
		defer d.W.Done()
		ps, done, err := d.stores(c.Stores)
		defer done()
		if err != nil {
			return err
		}
		tok, ref := d.fresh("o")
		tok2, ref2 := d.fresh("o")
		for _, x := range [][2]string{{tok, ref}, {tok2, ref2}} {
			if _, err := d.Do(COp{K: "create", Tok: x[0], Ref: x[1], Pairs: []PB{{"a", []byte("1")}}}); err != nil {
				return err
			}
		}
		plan := make([][]COp, 1+c.Others)
		issue := func(t, r string) { d.Issued = append(d.Issued, issuedTok{t, r, "o"}) }
		issue(tok, ref)
		issue(tok2, ref2)
		for i := range plan {
			if i == 0 {
				continue
			}
			at, rf := tok, ref
			for j := 0; j < c.N; j++ {
				if c.Mode == 1 {
					nt, nr := d.fresh("o")
					plan[i] = append(plan[i], COp{K: "refresh", Tok: at, Ref: rf, NTok: nt, NRef: nr})
					issue(nt, nr)
					at, rf = nt, nr
				} else {
					plan[i] = append(plan[i], COp{K: "put", Tok: tok, Pairs: []PB{{"b", []byte(fmt.Sprint(i, j))}}})
				}
			}
		}
		at, rf := tok, ref
		for j, v := range c.Victim {
			var o COp
			switch v {
			case 0, 1:
				o = COp{K: "put", Tok: at, Pairs: []PB{{"a", []byte(fmt.Sprint("v", j))}}}
			case 2:
				o = COp{K: "del", Tok: at, Keys: []string{"a", "b"}}
			case 3:
				nt, nr := d.fresh("o")
				o = COp{K: "refresh", Tok: at, Ref: rf, NTok: nt, NRef: nr}
				issue(nt, nr)
				at, rf = nt, nr
			case 4:
				o = COp{K: "destroyTok", Tok: at}
			case 5:
				o = COp{K: "get", Tok: at, Keys: []string{"a", "b"}}
			default:
				o = COp{K: "keys", Tok: at}
			}
			if c.Mode == 1 && j == len(c.Victim)-1 {
				o = COp{K: "destroyID", ID: "o"}
			}
			plan[0] = append(plan[0], o)
		}
		start, now := d.M.Clone(), time.Now()
		rec, sc, err := concurrently(ps, plan, c.Sch, r)
		if err != nil {
			return err
		}
		synctest.Wait()
		final := d.auditOps(ps[0], true)
		if err := linearizeRedis(start, rec.ops, now, func(m *Model) error { return explain(m, final, now) }); err != nil {
			return err
		}
		r.Label(fmt.Sprintf("mode:%d", c.Mode))
		// how often did somebody else finish while the first call of the victim was under way
		for _, o := range rec.ops {
			if o.Client != 0 {
				continue
			}
			within := 0
			for _, x := range rec.ops {
				if x.Client != 0 && x.R.C == "ok" && x.Ret > o.Call && x.Ret < o.Ret {
					within++
				}
			}
			if within >= 8 {
				r.Label("eight changes during one call")
				r.NT()
			}
		}
		if sc.Preempt > 8 && changes(rec.ops) > 3 {
			r.NT()
		}
		return nil
	})
	if errKind(err) == "leak" {
		return nil
	}
	return err
}

func genC12Race(t *rapid.T) CCase {
	c := genC12(t)
	c.Cfg.A, c.Cfg.R, c.Cfg.Skew = 3000000, 3600000, 0
	for i := range c.Setup {
		if c.Setup[i].K == "adv" {
			c.Setup[i].K = "observe"
		}
	}
	for len(c.Clients) < 5 {
		c.Clients = append(c.Clients, c.Clients[0])
	}
	c.Sch = Sch{}
	return c
}

// runC12Race: the clients run freely, several of them through one store.
func runC12Race(c CCase, r *Rec) error {
	w, err := NewWorld(c.Cfg)
	if err != nil {
		return fail("cannot open the store: %v", err)
	}
	defer w.Done()
	d := driverFor(w, r)
	d.Wait = false
	ps, done, err := d.stores(min(c.Stores, 2))
	defer done()
	if err != nil {
		return err
	}
	for _, o := range c.Setup {
		if err := d.Step(o, nil); err != nil {
			return err
		}
	}
	start, now := d.M.Clone(), time.Now()
	rec, err := d.free(ps, d.planned(c.Clients), r)
	if err != nil {
		return err
	}
	final := d.auditFree(w.P)
	return linearizeRedis(start, rec.ops, now, func(m *Model) error { return explain(m, final, now) })
}

func init() {
	reg("C12", "race", 2000, 80000, "two calls of different clients overlapped", genC12Race, runC12Race).Race = true
	reg("C12", "busy", 12000, 240000, "more than eight preemptions between commands and more than three successful changes, or eight changes during one call", genC12Busy, runC12Busy)
	reg("C12", "schedules", 120000, 2400000, "at least two preemptions between commands, and a successful change", genC12, runC12)
}
