package props

import (
	"fmt"
	"time"

	"pgregory.net/rapid"
)

// Life is the long life of a few sessions: a pattern of calls, repeated until N calls are made.
type Life struct {
	Cfg  Cfg
	N    int
	Sess int
	Pat  []Op // S: which session, D: how far or how many
}

func genLife(t *rapid.T, c Cfg, kinds []string) Life {
	l := Life{Cfg: c, Sess: rapid.IntRange(1, 3).Draw(t, "sessions")}
	l.N = rapid.SampledFrom([]int{300, 600, 1100, 1100, 2100, 4200}).Draw(t, "n") + rapid.IntRange(0, 50).Draw(t, "more")
	l.Pat = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op {
		return Op{K: rapid.SampledFrom(kinds).Draw(t, "k"), S: rapid.IntRange(0, 2).Draw(t, "s"), D: rapid.Int64Range(1, 60).Draw(t, "d")}
	}), 1, 9).Draw(t, "pattern")
	return l
}

func runLife(c Life, r *Rec) error {
	return dropLeak(bubble(func() error {
		d, err := NewDriver(c.Cfg, r)
		if err != nil {
			return err
		}
		defer d.W.Done()
		d.Wait = false
		r.Label("kind:" + c.Cfg.Kind)
		cur := make([]issuedTok, c.Sess)
		calls := 0
		do := func(o COp) (Res, error) { calls++; return d.Do(o) }
		for i := 0; i < c.N; i++ {
			o := c.Pat[i%len(c.Pat)]
			d.opNo++
			x := &cur[o.S%c.Sess]
			if s := d.M.S[x.tok]; s == nil || !s.RDead.After(time.Now()) {
				x.id = d.id(o.S)
				x.tok, x.ref = d.fresh(x.id)
				if _, err := do(COp{K: "create", Tok: x.tok, Ref: x.ref, Pairs: []PB{{"born", []byte(fmt.Sprint(i))}}}); err != nil {
					return err
				}
			}
			co := COp{K: o.K, Tok: x.tok}
			key := func(n int64) string { return fmt.Sprintf("k%d", (int64(i)*7+n)%(o.D*o.D)) }
			switch o.K {
			case "put":
				co.Pairs = []PB{{key(0), []byte(fmt.Sprint("v", i))}, {"last", []byte(fmt.Sprint(i))}}
			case "del":
				co.Keys = []string{key(1), key(2)}
			case "get":
				co.Keys = []string{"last", key(0), key(3), "born"}
			case "keys", "check":
			case "refresh":
				old := x.tok
				nt, nr := d.fresh(x.id)
				co.Ref, co.NTok, co.NRef = x.ref, nt, nr
				res, err := do(co)
				if err != nil {
					return err
				}
				if res.C == "ok" {
					x.tok, x.ref = nt, nr
				}
				co = COp{K: "check", Tok: old}
			case "adv":
				by := d.M.A * time.Duration(o.D) / 180
				if o.D > 55 {
					by = d.M.A + d.M.A/10
				}
				d.Advance(Op{D: by.Milliseconds() + 1})
				continue
			}
			if _, err := do(co); err != nil {
				return err
			}
		}
		if err := d.checkAll(true); err != nil {
			return err
		}
		for _, x := range cur {
			if d.M.S[x.tok] == nil {
				continue
			}
			for _, o := range []COp{{K: "keys", Tok: x.tok}, {K: "check", Tok: x.tok}, {K: "destroyID", ID: x.id}, {K: "check", Tok: x.tok}} {
				if _, err := do(o); err != nil {
					return err
				}
			}
		}
		if err := d.checkAll(true); err != nil {
			return err
		}
		for k := range d.Stats {
			r.Label(k)
		}
		if calls > 250 {
			r.NT()
		}
		return nil
	}))
}

func init() {
	const rule = "more than 250 calls on at most three sessions at a time"
	reg("C03", "life", 600, 20000, rule, func(t *rapid.T) Life {
		return genLife(t, genCfg(t, all...), []string{"put", "put", "put", "del", "get", "get", "keys", "check"})
	}, runLife)
	reg("C04", "life", 600, 20000, rule, func(t *rapid.T) Life {
		c := genCfg(t, all...)
		genTimes(t, &c)
		return genLife(t, c, []string{"adv", "adv", "adv", "refresh", "refresh", "check", "get", "put"})
	}, runLife)
	reg("C05", "life", 600, 20000, rule, func(t *rapid.T) Life {
		return genLife(t, genCfg(t, all...), []string{"refresh", "refresh", "refresh", "refresh", "put", "get", "del", "check"})
	}, runLife)
}
