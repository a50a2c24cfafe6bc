package props

import (
	"bytes"
	"fmt"
	"strings"
	"testing/synctest"
	"time"

	"github.com/boltdb/bolt"
	"pgregory.net/rapid"
)

// XOp is a step on one of two stores.
type XOp struct {
	Op
	Side int
}

// C19Case is two stores side by side.
type C19Case struct {
	Cfgs []Cfg
	Ops  []XOp
}

var bucketNames = []string{"", "sessionid", "s", "session", "sessionid2", "metadata", "data", "count", "\x00", "\xff", "日本", "a*", "a", "a?"}
var prefixNames = []string{"", "sessionid.provider.redis_", "sessionid.provider.redis*", "p.", "q.", "p*.", "?.", "[pq].", "\\p.", "P.", "日", "[^p].", "pp.", "*", "sessionid?provider.redis."}

func genC19(t *rapid.T) C19Case      { return genSides(t, false) }
func genC19Crowd(t *rapid.T) C19Case { return genSides(t, true) }

func genSides(t *rapid.T, crowded bool) C19Case {
	var c C19Case
	a := genCfg(t, all...)
	a.OwnDB, a.JSON = false, false
	genTimes(t, &a)
	b := a
	switch a.Kind {
	case "bolt":
		a.Bucket = rapid.SampledFrom(bucketNames).Draw(t, "ba")
		b.Bucket = rapid.SampledFrom(bucketNames).Draw(t, "bb")
		name := func(s string) string {
			if s == "" {
				return "sessionid"
			}
			return s
		}
		if name(a.Bucket) == name(b.Bucket) {
			b.Bucket += "x"
		}
	case "redis":
		a.Prefix = rapid.SampledFrom(prefixNames).Draw(t, "pa")
		b.Prefix = rapid.SampledFrom(prefixNames).Draw(t, "pb")
		if strings.HasPrefix(a.prefix(), b.prefix()) || strings.HasPrefix(b.prefix(), a.prefix()) {
			// no separation is promised where one begins with the other
			a.Prefix, b.Prefix = "p*.", "pp."
		}
		b.MetaKey = rapid.SampledFrom([]string{"", "mk", "a"}).Draw(t, "mk2")
	}
	if a.Kind != "redis" && rapid.IntRange(0, 2).Draw(t, "limited") == 0 {
		a.Max = rapid.IntRange(1, 4).Draw(t, "max")
		b.Max = rapid.IntRange(0, 4).Draw(t, "max2")
	}
	genTimes(t, &b)
	if _, ra := a.Durations(); true { // no tiny cleaning intervals next to long lives
		_, rb := b.Durations()
		life := max(ra, rb).Milliseconds()
		for _, x := range []*Cfg{&a, &b} {
			if x.Clear > 0 {
				x.Clear = max(x.Clear, life/3+11)
			}
		}
	}
	c.Cfgs = []Cfg{a, b}
	if crowded {
		for i, o := range genCrowd(t, a, []string{"crowd", "crowd", "refreshes", "destroys", "puts", "destroyID", "destroyID", "adv", "clear"}, 3, 10).Ops {
			if o.D > 200 {
				o.D = 200
			}
			c.Ops = append(c.Ops, XOp{o, rapid.IntRange(0, 1).Draw(t, "side")})
			if i == 0 {
				c.Ops = append(c.Ops, XOp{o, 1 - c.Ops[0].Side})
			}
		}
		return c
	}
	ws := weights{{"create", 8}, {"put", 4}, {"get", 2}, {"del", 2}, {"keys", 1}, {"refresh", 4}, {"destroyTok", 3}, {"destroyID", 5}, {"adv", 2}, {"observe", 1}}
	if a.Kind == "bolt" {
		ws = append(ws, weights{{"clear", 1}}...)
	}
	for _, o := range genOps(t, ws, 12, 50, false) {
		c.Ops = append(c.Ops, XOp{o, rapid.IntRange(0, 1).Draw(t, "side")})
	}
	if rapid.IntRange(0, 2).Draw(t, "close") == 0 {
		i := rapid.IntRange(0, len(c.Ops)).Draw(t, "closeat")
		s := rapid.IntRange(0, 1).Draw(t, "closed")
		c.Ops = append(c.Ops[:i:i], append([]XOp{{Op{K: "close"}, s}}, c.Ops[i:]...)...)
	}
	return c
}

// sideBySide opens the stores of a case on one database, server or process.
func sideBySide(cfgs []Cfg, r *Rec) (ds []*Driver, done func(), err error) {
	r.Label("kind:" + cfgs[0].Kind)
	for i, cfg := range cfgs {
		var d *Driver
		if i == 0 {
			d, err = NewDriver(cfg, r)
		} else {
			d, err = newDriverOn(ds[0].W, cfg, r)
		}
		if err != nil {
			return
		}
		ds = append(ds, d)
	}
	return ds, func() {
		func() {
			defer func() { recover() }()
			ds[1].W.P.Close()
		}()
		ds[0].W.Done()
	}, nil
}

// advanceBoth lets time pass for both stores.
func advanceBoth(d, other *Driver, o Op) {
	d.Advance(o)
	for clash := true; clash; { // not on a deadline of the other
		clash = false
		for _, dl := range other.M.Deadlines() {
			if dl.Equal(nowT()) {
				d.Advance(Op{D: 1})
				clash = true
			}
		}
	}
}

func runC19(c C19Case, r *Rec) error {
	err := bubble(func() error {
		ds, done, err := sideBySide(c.Cfgs, r)
		if err != nil {
			return err
		}
		defer done()
		w := ds[0].W
		unrelated, err := plantUnrelated(w, c.Cfgs)
		if err != nil {
			return err
		}
		for _, x := range c.Ops {
			d := ds[x.Side]
			r.Logf("store %d:", x.Side+1)
			if x.K == "adv" { // time passes for both
				advanceBoth(d, ds[1-x.Side], x.Op)
				continue
			}
			if err := d.Step(x.Op, nil); err != nil {
				return fail("store %d: %w", x.Side+1, err)
			}
			if x.K == "destroyID" || x.K == "clear" || x.K == "close" {
				r.Logf("store %d:", 2-x.Side)
				if err := ds[1-x.Side].Observe(); err != nil {
					return fail("store %d, after %s on the other: %w", 2-x.Side, x.K, err)
				}
			}
		}
		for i, d := range ds {
			r.Logf("store %d:", i+1)
			if err := d.Observe(); err != nil {
				return fail("store %d: %w", i+1, err)
			}
		}
		synctest.Wait()
		if err := unrelated(); err != nil {
			return err
		}
		for k := range ds[0].Stats {
			r.Label(k)
		}
		if has(ds[0], "create:ok") && has(ds[1], "create:ok") && ds[0].Stats["destroyID:ok"]+ds[1].Stats["destroyID:ok"] > 0 {
			r.NT()
		}
		return nil
	})
	return dropLeak(err)
}

// runC19Crowd is the same with many sessions in each store.
func runC19Crowd(c C19Case, r *Rec) error {
	return dropLeak(bubble(func() error {
		ds, done, err := sideBySide(c.Cfgs, r)
		if err != nil {
			return err
		}
		defer done()
		unrelated, err := plantUnrelated(ds[0].W, c.Cfgs)
		if err != nil {
			return err
		}
		most := 0
		for _, x := range c.Ops {
			d, other := ds[x.Side], ds[1-x.Side]
			if len(d.Issued) > 700 && (x.K == "crowd" || x.K == "refreshes") {
				continue
			}
			d.Wait = false
			r.Logf("-- store %d: %+v", x.Side+1, x.Op)
			if x.K == "adv" {
				by := d.M.R * time.Duration(x.D) / 180
				advanceBoth(d, other, Op{D: by.Milliseconds() + 1})
			} else if err := d.crowdStep(x.Op); err != nil {
				return fail("store %d: %w", x.Side+1, err)
			}
			for i, d := range ds {
				if err := d.checkAll(false); err != nil {
					return fail("store %d, after %s on store %d: %w", i+1, x.K, x.Side+1, err)
				}
			}
			if n := min(len(d.M.S), len(other.M.S)); n > most {
				most = n
			}
		}
		for i, d := range ds {
			if err := d.checkAll(true); err != nil {
				return fail("store %d: %w", i+1, err)
			}
			for k := range d.Stats {
				r.Label(k)
			}
		}
		synctest.Wait()
		if most > 20 {
			r.NT()
		}
		return unrelated()
	}))
}

// newDriverOn opens a second store on what is below the first.
func newDriverOn(w *World, c Cfg, r *Rec) (*Driver, error) {
	w2 := &World{Cfg: c, Srv: w.Srv, Path: w.Path, DB: w.DB}
	if err := w2.Open(); err != nil {
		return nil, fail("cannot open the second store: %v", err)
	}
	d := driverFor(w2, r)
	r.Logf("store %+v", c)
	return d, nil
}

// plantUnrelated puts other things next to the stores and returns what checks them.
func plantUnrelated(w *World, cs []Cfg) (func() error, error) {
	switch w.Cfg.Kind {
	case "bolt":
		want := map[string]string{"k": "v", "1.s1.g": "x", "count": "\xff"}
		err := w.DB.Update(func(t *bolt.Tx) error {
			b, e := t.CreateBucketIfNotExists([]byte("unrelated"))
			if e != nil {
				return e
			}
			for k, v := range want {
				if e := b.Put([]byte(k), []byte(v)); e != nil {
					return e
				}
			}
			for _, n := range []string{"metadata2", "data2"} {
				if _, e := b.CreateBucketIfNotExists([]byte(n)); e != nil {
					return e
				}
			}
			return nil
		})
		return func() error {
			return w.DB.View(func(t *bolt.Tx) error {
				n := 0
				ok := map[string]bool{"unrelated": true}
				for _, c := range cs {
					if c.Bucket == "" {
						ok["sessionid"] = true
					} else {
						ok[c.Bucket] = true
					}
				}
				if e := t.ForEach(func(k []byte, _ *bolt.Bucket) error {
					if !ok[string(k)] {
						return fail("a store made bucket %q", k)
					}
					return nil
				}); e != nil {
					return e
				}
				b := t.Bucket([]byte("unrelated"))
				if b == nil {
					return fail("unrelated bucket removed")
				}
				e := b.ForEach(func(k, v []byte) error {
					n++
					if v == nil {
						return nil
					}
					if x, has := want[string(k)]; !has || !bytes.Equal(v, []byte(x)) {
						return fail("unrelated data changed: %q = %q", k, v)
					}
					return nil
				})
				if e == nil && n != len(want)+2 {
					e = fail("unrelated data changed")
				}
				return e
			})
		}, err
	case "redis":
		var keys []string
		for i, k := range []string{"unrelated", "1.s1.g", "1.s1r.h", "sessionid", "sessionid.provider.redis1.s1.g", "p1.s1.g", "x1.s1.g", "px.1.s1.g", "q.1.s1.g", "p.1.s2.g", "pp1.s1.g", "日本.s1.g"} {
			for _, c := range cs {
				if strings.HasPrefix(k, c.prefix()) {
					k = ""
				}
			}
			if k != "" {
				w.Srv.SetString(k, fmt.Sprint("v", i))
				keys = append(keys, k)
			}
		}
		before := map[string]string{}
		for _, k := range keys {
			before[k], _ = w.Srv.GetString(k)
		}
		return func() error {
			for _, k := range keys {
				if got, _ := w.Srv.GetString(k); got != before[k] {
					return fail("unrelated key %q changed: %q", k, got)
				}
			}
			for k := range w.Srv.RawKeys() {
				ok := before[k] != ""
				for _, c := range cs {
					ok = ok || strings.HasPrefix(k, c.prefix())
				}
				if !ok {
					return fail("a store made key %q", k)
				}
			}
			return nil
		}, nil
	}
	return func() error { return nil }, nil
}

func init() {
	reg("C19", "two", 60000, 1600000, "sessions in both stores, and a destroy by id", genC19, runC19)
	reg("C19", "crowd", 1500, 40000, "more than 20 sessions were held in each store at once", genC19Crowd, runC19Crowd)
}
