package props

import (
	"fmt"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// Crowd is a history over many sessions at once.
type Crowd struct {
	Cfg Cfg
	Ops []Op
}

// genCrowd draws steps of the named kinds, each over up to a few hundred sessions.
func genCrowd(t *rapid.T, c Cfg, kinds []string, lo, hi int) Crowd {
	h := Crowd{Cfg: c}
	step := rapid.Custom(func(t *rapid.T) Op {
		o := Op{K: rapid.SampledFrom(kinds).Draw(t, "k")}
		o.U = rapid.IntRange(0, 7).Draw(t, "u")
		o.S = rapid.IntRange(0, 40).Draw(t, "s")
		o.V = rapid.IntRange(0, 5).Draw(t, "v")
		o.D = rapid.Int64Range(1, 180).Draw(t, "d")
		return o
	})
	first := step.Draw(t, "first")
	first.K = "crowd"
	first.D += 20
	if rapid.IntRange(0, 39).Draw(t, "huge") == 39 {
		first.D = rapid.Int64Range(900, 1300).Draw(t, "n")
		if rapid.Bool().Draw(t, "one owner") {
			first.V = 0
		}
	}
	h.Ops = append([]Op{first}, rapid.SliceOfN(step, lo, hi).Draw(t, "ops")...)
	return h
}

// each returns every (1+V)th live session, beginning with the S-th.
func (d *Driver) each(o Op) (out []*Sess) {
	for i, s := range d.M.Live(time.Now()) {
		if i%(1+o.V) == o.S%(1+o.V) && len(out) < int(o.D)+20 {
			out = append(out, s)
		}
	}
	return
}

func (d *Driver) crowdStep(o Op) error {
	d.opNo++
	switch o.K {
	case "crowd":
		for i := 0; i < int(o.D); i++ {
			u := o.U
			if o.V > 0 { // several owners in turn
				u = (o.U + i%(1+o.V)) % 8
			}
			tok, ref := d.fresh(d.id(u))
			var ps []PB
			if o.S%3 > 0 {
				ps = []PB{{"n", []byte(fmt.Sprint(i))}}
			}
			if o.S%3 > 1 {
				ps = append(ps, PB{"text", make([]byte, 100)})
			}
			if _, err := d.Do(COp{K: "create", Tok: tok, Ref: ref, Pairs: ps}); err != nil {
				return err
			}
		}
	case "refreshes":
		for _, s := range d.each(o) {
			nt, nr := d.fresh(s.ID)
			if _, err := d.Do(COp{K: "refresh", Tok: s.Tok, Ref: s.Ref, NTok: nt, NRef: nr}); err != nil {
				return err
			}
		}
	case "destroys":
		for _, s := range d.each(o) {
			if _, err := d.Do(COp{K: "destroyTok", Tok: s.Tok}); err != nil {
				return err
			}
		}
	case "puts":
		for _, s := range d.each(o) {
			if _, err := d.Do(COp{K: "put", Tok: s.Tok, Pairs: []PB{{"n", []byte(fmt.Sprint("p", d.opNo))}}}); err != nil {
				return err
			}
		}
	case "destroyID":
		_, err := d.Do(COp{K: "destroyID", ID: d.id(o.U)})
		return err
	case "adv":
		by := d.M.R * time.Duration(o.D) / 180
		if o.V == 5 {
			by = d.M.R + 2*time.Millisecond
		}
		d.Advance(Op{D: by.Milliseconds() + 1})
	case "clear":
		if d.W.Cfg.Kind == "bolt" {
			_, err := d.Do(COp{K: "clear"})
			return err
		}
	case "reopen":
		if d.W.Cfg.Kind != "memory" {
			return d.Reopen(d.W.Cfg, ms(o.D))
		}
	case "cleaned": // an interval of cleaning later nothing is left of those long gone
		interval := ms(d.W.Cfg.Clear)
		if d.W.Cfg.Kind == "redis" {
			interval = time.Second
		}
		if interval <= 0 || interval >= time.Hour {
			return nil
		}
		if o.V > 2 {
			d.Advance(Op{D: d.M.R.Milliseconds()})
		}
		d.Advance(Op{D: interval.Milliseconds() + 1})
		synctest.Wait()
		d.Stats["cleaned"]++
		return compare(d, stored(d, time.Now().Add(-interval-2*time.Millisecond)), "after an interval of cleaning")
	case "stored":
		if len(d.M.S) != len(d.M.Live(time.Now())) {
			return nil
		}
		synctest.Wait()
		d.Stats["stored"]++
		return compare(d, stored(d, time.Now()), "with live sessions only")
	}
	return nil
}

// checkAll looks at every token ever issued, and at the data of live sessions.
func (d *Driver) checkAll(full bool) error {
	n := 0
	for i, x := range d.Issued {
		s := d.M.S[x.tok]
		if s == nil && !full && i%3 != 0 {
			continue
		}
		if _, err := d.Do(COp{K: "check", Tok: x.tok}); err != nil {
			return err
		}
		if s != nil && (full || i%5 == 0) {
			if _, err := d.Do(COp{K: "get", Tok: x.tok, Keys: []string{"n", "text", "none"}}); err != nil {
				return err
			}
		}
		n++
	}
	return nil
}

func runCrowd(c Crowd, r *Rec) error {
	return dropLeak(bubble(func() error {
		d, err := NewDriver(c.Cfg, r)
		if err != nil {
			return err
		}
		defer d.W.Done()
		d.Wait = false
		r.Label("kind:" + c.Cfg.Kind)
		most := 0
		for _, o := range c.Ops {
			if len(d.Issued) > 1500 && (o.K == "crowd" || o.K == "refreshes") {
				continue
			}
			r.Logf("-- %+v", o)
			if err := d.crowdStep(o); err != nil {
				return err
			}
			if n := len(d.M.S); n > most {
				most = n
			}
			if err := d.checkAll(false); err != nil {
				return err
			}
		}
		if err := d.checkAll(true); err != nil {
			return err
		}
		// does the index of the owners know them all
		for i := 0; i < 8; i++ {
			if _, err := d.Do(COp{K: "destroyID", ID: d.id((c.Ops[0].U + i) % 8)}); err != nil {
				return err
			}
			if i == 0 || i == 7 {
				if err := d.checkAll(true); err != nil {
					return err
				}
			}
		}
		for k := range d.Stats {
			r.Label(k)
		}
		if most > 20 && len(d.Issued) > 30 {
			r.NT()
		}
		return nil
	}))
}

func init() {
	const rule = "more than 30 sessions were created or refreshed and more than 20 were held at once"
	reg("C04", "crowd", 1000, 25000, rule, func(t *rapid.T) Crowd {
		c := genCfg(t, all...)
		genTimes(t, &c)
		return genCrowd(t, c, []string{"crowd", "crowd", "refreshes", "puts", "adv", "adv", "adv"}, 2, 8)
	}, runCrowd)
	reg("C05", "crowd", 1200, 30000, rule, func(t *rapid.T) Crowd {
		return genCrowd(t, genCfg(t, all...), []string{"crowd", "refreshes", "refreshes", "puts", "destroys"}, 1, 8)
	}, runCrowd)
	reg("C06", "crowd", 1200, 30000, rule, func(t *rapid.T) Crowd {
		return genCrowd(t, genCfg(t, all...), []string{"crowd", "crowd", "refreshes", "destroys", "destroyID", "destroyID", "clear"}, 1, 8)
	}, runCrowd)
	reg("C07", "crowd", 1200, 30000, rule, func(t *rapid.T) Crowd {
		c := genCfg(t, "memory", "bolt")
		c.Max = rapid.IntRange(15, 250).Draw(t, "max")
		return genCrowd(t, c, []string{"crowd", "crowd", "refreshes", "destroys", "destroyID", "reopen"}, 1, 8)
	}, runCrowd)
	reg("C08", "crowd", 800, 20000, rule, func(t *rapid.T) Crowd {
		c := genCfg(t, "bolt")
		genLimit(t, &c)
		if c.Max > 0 {
			c.Max *= 20
		}
		return genCrowd(t, c, []string{"crowd", "refreshes", "destroys", "destroyID", "puts", "reopen", "reopen"}, 1, 8)
	}, runCrowd)
	reg("C15", "crowd", 1200, 30000, rule, func(t *rapid.T) Crowd {
		c := genCfg(t, all...)
		c.OwnDB, c.Skew = false, 0
		c.A = rapid.SampledFrom([]int64{1000, 5000, 60000}).Draw(t, "a")
		c.R = c.A * rapid.Int64Range(1, 4).Draw(t, "r")
		if c.Kind != "redis" {
			c.Clear = c.R*rapid.Int64Range(1, 5).Draw(t, "clear")/3 + 7
			if rapid.IntRange(0, 3).Draw(t, "limited") == 3 {
				c.Max = rapid.IntRange(15, 200).Draw(t, "max")
			}
		}
		return genCrowd(t, c, []string{"crowd", "crowd", "refreshes", "destroys", "destroyID", "adv", "cleaned", "cleaned", "stored"}, 2, 9)
	}, runCrowd)
	reg("C15", "throng", 40, 1000, rule, func(t *rapid.T) Crowd {
		c := genCfg(t, all...)
		c.OwnDB, c.Skew = false, 0
		c.A, c.R = 60000, 60000
		ns := []int64{2100, 4100, 5000, 8200}
		if c.Kind == "bolt" {
			ns = []int64{1100, 2100, 2600}
		}
		if c.Kind != "redis" {
			c.Clear = 90000
		}
		step := func(k string, d int64, v int) Op {
			return Op{K: k, U: rapid.IntRange(0, 7).Draw(t, "u"), S: rapid.IntRange(0, 2).Draw(t, "s"), D: d, V: v}
		}
		h := Crowd{Cfg: c, Ops: []Op{step("crowd", rapid.SampledFrom(ns).Draw(t, "n"), rapid.IntRange(0, 7).Draw(t, "owners"))}}
		switch rapid.IntRange(0, 3).Draw(t, "end") {
		case 0:
			h.Ops = append(h.Ops, step("destroyID", 0, 0), step("stored", 0, 0))
		case 1:
			h.Ops = append(h.Ops, step("destroys", 9000, 1), step("stored", 0, 0))
		}
		h.Ops = append(h.Ops, step("cleaned", 0, 3))
		return h
	}, runCrowd)
}
