package props

import (
	"fmt"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// Wide has calls over many keys or many sessions at once, by several clients.
type Wide struct {
	Cfg    Cfg
	Stores int `json:",omitempty"`
	N, M   int // keys of a session, sessions of the owner
	Ops    [][]WideOp
	Sch    Sch
}

// WideOp is a call: on session S, with all keys or (Part > 0) those from Part on.
type WideOp struct {
	K       string
	S, Part int `json:",omitempty"`
}

func genWide(t *rapid.T, kinds ...string) Wide {
	c := Wide{Cfg: genConcCfg(t, kinds...)}
	c.Cfg.A, c.Cfg.R, c.Cfg.Clear, c.Cfg.Max = 40000, 60000, 0, 0
	ks := []string{"put", "put", "put", "get", "get", "get", "keys", "del", "del", "refresh", "destroyTok", "create"}
	c.N = rapid.SampledFrom([]int{3, 17, 20, 33, 40, 65, 70, 101, 129, 140, 257, 300, 520, 1030}).Draw(t, "n")
	c.M = rapid.IntRange(1, 3).Draw(t, "m")
	if c.Cfg.Kind == "redis" {
		c.Stores = rapid.IntRange(1, 3).Draw(t, "stores")
	} else if rapid.IntRange(0, 3).Draw(t, "crowd") == 0 {
		c.M = rapid.SampledFrom([]int{5, 17, 20, 33, 40, 65, 70, 130}).Draw(t, "sessions")
		c.N = rapid.IntRange(1, 3).Draw(t, "few")
		ks = []string{"destroyID", "destroyID", "refresh", "get", "check", "create", "put"}
		if c.Cfg.Kind == "bolt" {
			ks = append(ks, "clear")
		}
	}
	n := rapid.IntRange(2, 3).Draw(t, "clients")
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) WideOp {
			o := WideOp{K: rapid.SampledFrom(ks).Draw(t, "k")}
			if c.M > 3 {
				o.S = rapid.IntRange(0, c.M-1).Draw(t, "s")
			} else {
				o.S = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "s")
			}
			if rapid.IntRange(0, 3).Draw(t, "some") == 0 {
				o.Part = rapid.IntRange(1, c.N).Draw(t, "part")
			}
			return o
		}), 1, 3).Draw(t, "calls"))
	}
	c.Sch = genSch(t, 25)
	return c
}

func (d *Driver) widePlan(c Wide) (plan [][]COp, err error) {
	pairs := func(v string, part int) (ps []PB) {
		for i := part; i < c.N; i++ {
			ps = append(ps, PB{fmt.Sprint("w", i), []byte(v)})
		}
		return
	}
	names := func(part int) (ks []string) {
		for i := part; i < c.N; i++ {
			ks = append(ks, fmt.Sprint("w", i))
		}
		return
	}
	var at, rf []string
	for i := 0; i < c.M; i++ {
		tok, ref := d.fresh("o")
		if _, err = d.Do(COp{K: "create", Tok: tok, Ref: ref, Pairs: pairs("start", i%2)}); err != nil {
			return
		}
		at, rf = append(at, tok), append(rf, ref)
	}
	issue := func(t, r string) { d.Issued = append(d.Issued, issuedTok{t, r, "o"}) }
	for i := range at {
		issue(at[i], rf[i])
	}
	plan = make([][]COp, len(c.Ops))
	for i, ops := range c.Ops {
		for j, o := range ops {
			s := o.S % len(at)
			x := COp{K: o.K, Tok: at[s]}
			switch o.K {
			case "put":
				x.Pairs = pairs(fmt.Sprint(i, "-", j), o.Part)
			case "get", "del":
				x.Keys = names(o.Part)
			case "refresh":
				nt, nr := d.fresh("o")
				x.Ref, x.NTok, x.NRef = rf[s], nt, nr
				issue(nt, nr)
				if i == 0 { // the calls planned from now on know of it
					at[s], rf[s] = nt, nr
				}
			case "create":
				nt, nr := d.fresh("o")
				x.Tok, x.Ref, x.Pairs = nt, nr, pairs("new", o.Part)
				issue(nt, nr)
				at, rf = append(at, nt), append(rf, nr)
			case "destroyID":
				x.Tok, x.ID = "", "o"
			case "clear":
				x.Tok = ""
			}
			plan[i] = append(plan[i], x)
		}
	}
	return
}

func runWide(c Wide, r *Rec) error {
	err := bubble(func() error {
		d, err := NewDriver(c.Cfg, r)
		if err != nil {
			return err
		}
		defer d.W.Done()
		ps, done, err := d.stores(c.Stores)
		defer done()
		if err != nil {
			return err
		}
		r.Label("kind:" + c.Cfg.Kind)
		plan, err := d.widePlan(c)
		if err != nil {
			return err
		}
		start, now := d.M.Clone(), time.Now()
		rec, sc, err := concurrently(ps, plan, c.Sch, r)
		if err != nil {
			return err
		}
		synctest.Wait()
		final := d.auditOps(ps[0], true)
		last := func(m *Model) error { return explain(m, final, now) }
		if c.Cfg.Kind == "redis" {
			err = linearizeRedis(start, rec.ops, now, last)
		} else {
			err = linearize(start, rec.ops, now, last)
		}
		if err != nil {
			return err
		}
		for _, o := range rec.ops {
			r.Label(o.C.K + ":" + o.R.C)
		}
		if c.N > 32 || c.M > 32 {
			r.Label("more than 32 at once")
		}
		if sc.Preempt > 0 && changes(rec.ops) > 0 {
			r.NT()
		}
		return nil
	})
	if errKind(err) == "leak" {
		return nil
	}
	return err
}

func init() {
	reg("C11", "wide", 6000, 200000, "a preemption, and a successful change", func(t *rapid.T) Wide { return genWide(t, "memory", "bolt") }, runWide)
	reg("C12", "wide", 6000, 200000, "a preemption, and a successful change", func(t *rapid.T) Wide { return genWide(t, "redis") }, runWide)
}
