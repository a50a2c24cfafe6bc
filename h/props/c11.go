package props

import (
	"sync"
	"time"

	"github.com/powerpuffpenguin/sessionid"
	"pgregory.net/rapid"
)

// C11: concurrent use of a local store is atomic.

var concWeights = weights{{"create", 4}, {"put", 4}, {"get", 3}, {"keys", 1}, {"del", 2}, {"check", 4}, {"refresh", 6}, {"destroyTok", 2}, {"destroyID", 3}}

func genC11(t *rapid.T) CCase {
	c := CCase{Cfg: genConcCfg(t, "memory", "bolt"), Setup: genConcSetup(t)}
	ws := concWeights
	if c.Cfg.Kind == "bolt" {
		ws = append(append(weights{}, ws...), weights{{"clear", 1}}...)
	}
	c.Clients = genClients(t, ws, 4, 3)
	c.Sch = genSch(t, 40)
	c.genTicks(t)
	return c
}

// genC11Hot has everybody at one or two sessions and the same few keys.
func genC11Hot(t *rapid.T) CCase {
	c := CCase{Cfg: genConcCfg(t, "memory", "bolt")}
	first := Op{K: "create", P: genPairs(t, 6, false)}
	c.Setup = []Op{first}
	if rapid.Bool().Draw(t, "two") {
		c.Setup = append(c.Setup, first)
	}
	c.Clients = genClients(t, weights{{"put", 5}, {"del", 5}, {"refresh", 4}, {"get", 2}, {"keys", 1}, {"destroyTok", 1}, {"create", 1}}, 4, 4)
	for i := range c.Clients {
		for j := range c.Clients[i] {
			o := &c.Clients[i][j]
			o.U, o.S = 0, o.S%4
			if o.V > 9 {
				o.V = 0
			}
			switch o.K {
			case "del", "get":
				o.G = []int{0, 1, 2, 3, 5, 7}[:rapid.IntRange(1, 6).Draw(t, "keys")]
			case "put":
				for k := range o.P {
					o.P[k].K %= 4
				}
			}
		}
	}
	c.Sch = genSch(t, 40)
	return c
}

func (c COp) changes() bool { return c.K != "get" && c.K != "keys" && c.K != "check" }

func changes(ops []*CallRec) (n int) {
	for _, o := range ops {
		if o.C.changes() && o.R.C == "ok" {
			n++
		}
	}
	return
}

func runC11(c CCase, r *Rec) error {
	err := bubble(func() error {
		d, err := NewDriver(c.Cfg, r)
		if err != nil {
			return err
		}
		defer d.W.Done()
		r.Label("kind:" + c.Cfg.Kind)
		for _, o := range c.Setup {
			if err := d.Step(o, nil); err != nil {
				return err
			}
		}
		d.settle(c)
		start, now := d.M.Clone(), time.Now()
		plan := d.planned(c.Clients)
		rec, sc, err := concurrently([]sessionid.Provider{d.W.P}, plan, c.Sch, r)
		if err != nil {
			return err
		}
		final := d.auditOps(d.W.P, true)
		for _, o := range final {
			r.Logf("%s -> %s", o.C, o.R)
		}
		if err := linearize(start, rec.ops, now, func(m *Model) error { return explain(m, final, now) }); err != nil {
			return err
		}
		for _, o := range rec.ops {
			r.Label(o.C.K + ":" + o.R.C)
		}
		if sc.Preempt > 1 && changes(rec.ops) > 0 {
			r.NT()
		}
		return nil
	})
	if errKind(err) == "leak" {
		return nil // decided by C14 only
	}
	return err
}

// the same without a scheduler, in the binary with the race detector

type c11Race struct {
	Cfg     Cfg
	Setup   []Op
	Clients [][]Op
	Short   bool
	Dead    bool `json:",omitempty"` // the clients begin when the first sessions are past all deadlines
	Rounds  int
}

func genC11Race(t *rapid.T) c11Race {
	c := c11Race{Cfg: Cfg{Kind: rapid.SampledFrom([]string{"memory", "memory", "bolt"}).Draw(t, "kind"), A: 3600000, R: 7200000, Clear: 1}}
	c.Short = rapid.Bool().Draw(t, "short")
	if c.Short {
		c.Cfg.A = rapid.Int64Range(1, 2).Draw(t, "a")
		c.Cfg.R = c.Cfg.A + rapid.Int64Range(0, 2).Draw(t, "r")
	}
	c.Cfg.Batch = rapid.SampledFrom([]int{0, -100, 1, 2}).Draw(t, "batch")
	c.Cfg.Max = rapid.SampledFrom([]int{0, 0, 1, 2, 4}).Draw(t, "max")
	c.Setup = genConcSetup(t)
	for i := range c.Setup {
		if c.Setup[i].K == "adv" {
			c.Setup[i].K = "observe"
		}
	}
	no := 7
	if c.Short {
		no = 25
	}
	ws := concWeights
	if c.Short && rapid.Bool().Draw(t, "dead") {
		c.Dead, no = true, 6
		if rapid.IntRange(0, 2).Draw(t, "cleaning") != 0 {
			c.Cfg.Clear = 0
		}
		ws = weights{{"check", 6}, {"get", 4}, {"keys", 3}, {"put", 1}, {"refresh", 1}, {"create", 1}}
	}
	if c.Short && rapid.IntRange(0, 3).Draw(t, "closing") == 0 {
		ws = append(append(weights{}, ws...), weights{{"close", 1}}...)
	}
	if c.Cfg.Kind == "bolt" {
		ws = append(append(weights{}, ws...), weights{{"clear", 1}}...)
	}
	c.Clients = genClients(t, ws, 5, no)
	return c
}

// free runs the clients without a schedule.
func (d *Driver) free(ps []sessionid.Provider, plan [][]COp, r *Rec) (*Recorder, error) {
	rec := &Recorder{}
	var wg sync.WaitGroup
	gate := make(chan bool)
	for i := range plan {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			for _, o := range plan[i] {
				h := rec.call(i, 0, o)
				rec.ret(h, Exec(ps[i%len(ps)], o))
			}
		}()
	}
	close(gate)
	wg.Wait()
	for _, o := range rec.ops {
		r.Logf("%s", o)
		if o.R.C == "panic" {
			return rec, &caseErr{"panic", o.String()}
		}
	}
	for _, a := range rec.ops {
		for _, b := range rec.ops {
			if a.Client < b.Client && a.Call < b.Ret && b.Call < a.Ret {
				r.NT()
				return rec, nil
			}
		}
	}
	return rec, nil
}

func runC11Race(c c11Race, r *Rec) error {
	w, err := NewWorld(c.Cfg)
	if err != nil {
		return fail("cannot open the store: %v", err)
	}
	defer w.Done()
	d := driverFor(w, r)
	d.Wait = false
	r.Label("kind:" + c.Cfg.Kind)
	for _, o := range c.Setup {
		if c.Short { // what the deadlines do is not predictable
			if o.K != "observe" {
				x := d.Concrete(o)
				Exec(w.P, x)
				if x.K == "create" {
					id, _ := split(x.Tok)
					d.Issued = append(d.Issued, issuedTok{x.Tok, x.Ref, id})
				}
			}
			continue
		}
		if err := d.Step(o, nil); err != nil {
			return err
		}
	}
	if c.Dead {
		r.Label("dead sessions")
		time.Sleep(ms(c.Cfg.R) + time.Millisecond)
	}
	start, now := d.M.Clone(), time.Now()
	rec, err := d.free([]sessionid.Provider{w.P}, d.planned(c.Clients), r)
	if err != nil {
		return err
	}
	if c.Short {
		r.Label("short")
		return nil
	}
	r.Label("long")
	final := d.auditFree(w.P)
	return linearize(start, rec.ops, now, func(m *Model) error { return explain(m, final, now) })
}

func init() {
	reg("C11", "hot", 24000, 800000, "at least two preemptions, and a successful change", genC11Hot, runC11)
	reg("C11", "schedules", 72000, 2400000, "at least two preemptions, and a successful change", genC11, runC11)
	reg("C11", "race", 15000, 400000, "two calls of different clients overlapped", genC11Race, runC11Race).Race = true
}
