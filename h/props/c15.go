package props

import (
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"testing/synctest"
	"time"
	"unsafe"
	"weak"

	"github.com/boltdb/bolt"
	"pgregory.net/rapid"
	"verif.local/h/sched"
)

// footprint is how much a store holds: entries of any kind, and their bytes.
type footprint struct{ entries, bytes int }

func (f footprint) String() string { return fmt.Sprintf("%d entries, %d bytes", f.entries, f.bytes) }

// held measures a store without knowing how it is organised.
func held(w *World) (f footprint, err error) {
	switch w.Cfg.Kind {
	case "bolt":
		name := w.Cfg.Bucket
		if name == "" {
			name = "sessionid"
		}
		db := w.DB
		if db == nil {
			return f, fail("no database to look into")
		}
		err = db.View(func(t *bolt.Tx) error {
			b := t.Bucket([]byte(name))
			if b == nil {
				return fail("bucket %q is gone", name)
			}
			return countBucket(b, &f)
		})
	case "redis":
		f.entries, f.bytes = w.Srv.Size()
	default:
		walk(reflect.ValueOf(w.P), map[uintptr]bool{}, &f)
	}
	return
}

func countBucket(b *bolt.Bucket, f *footprint) error {
	return b.ForEach(func(k, v []byte) error {
		f.entries++
		f.bytes += len(k) + len(v)
		if v == nil {
			if in := b.Bucket(k); in != nil {
				return countBucket(in, f)
			}
		}
		return nil
	})
}

// walk counts what is reachable from v.
func walk(v reflect.Value, seen map[uintptr]bool, f *footprint) {
	if !v.IsValid() {
		return
	}
	t := v.Type()
	switch pk := t.PkgPath(); {
	case pk == "time" || strings.HasPrefix(pk, "sync") || strings.HasPrefix(pk, "context") || strings.HasSuffix(pk, "/xsync") || strings.HasSuffix(pk, "/chlock"):
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		f.entries++
		walk(v.Elem(), seen, f)
	case reflect.Interface:
		walk(v.Elem(), seen, f)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			walk(v.Field(i), seen, f)
		}
	case reflect.Map:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		for it := v.MapRange(); it.Next(); {
			f.entries++
			walk(it.Key(), seen, f)
			walk(it.Value(), seen, f)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			f.bytes += v.Len()
			return
		}
		for i := 0; i < v.Len(); i++ {
			f.entries++
			walk(v.Index(i), seen, f)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), seen, f)
		}
	case reflect.String:
		f.bytes += v.Len()
	}
}

// rebuilt is what a new store with exactly these sessions holds.
func rebuilt(c Cfg, ss []*Sess) (f footprint, err error) {
	c.Max, c.OwnDB, c.Skew = 0, false, 0
	if c.Clear != 0 {
		c.Clear = 24 * 3600 * 1000
	}
	c.A, c.R = 3600000, 7200000
	w, err := NewWorld(c)
	if err != nil {
		return f, err
	}
	defer w.Done()
	// having held a session once may leave a constant behind
	if e := w.P.Create(bg, "dummy.dummy.x", "dummy.dummyr.x", pairs([]PB{{"dummykey", []byte("v")}})); e != nil {
		return f, fail("create: %v", e)
	}
	if e := w.P.DestroyByToken(bg, "dummy.dummy.x"); e != nil {
		return f, fail("destroy: %v", e)
	}
	for _, s := range ss {
		var ps []PB
		for _, k := range sortedKeys(s.Data) {
			ps = append(ps, PB{k, []byte(s.Data[k])})
		}
		if e := w.P.Create(bg, s.Tok, s.Ref, pairs(ps)); e != nil {
			return f, fail("create: %v", e)
		}
	}
	synctest.Wait()
	return held(w)
}

// compare says whether the store holds more than the sessions need.
func compare(d *Driver, ss []*Sess, when string) error {
	got, err := held(d.W)
	if err != nil {
		return err
	}
	want, err := rebuilt(d.W.Cfg, ss)
	if err != nil {
		return err
	}
	slack := 64 + 24*len(ss)
	d.R.Logf("%s: holds %s, needs %s for %d sessions", when, got, want, len(ss))
	if got.entries > want.entries || got.bytes > want.bytes+slack {
		var names []string
		for _, s := range ss {
			names = append(names, s.Tok)
		}
		return fail("%s: the store holds %s; a new store with the same sessions %q holds %s", when, got, names, want)
	}
	return nil
}

func stored(d *Driver, since time.Time) (out []*Sess) {
	for _, s := range d.M.S {
		if s.RDead.After(since) {
			out = append(out, s)
		}
	}
	return
}

var touches = []string{"check", "get", "keys", "put", "del", "refresh", "destroyTok"}

// audit compares what is stored with what should be.
func audit(d *Driver, o Op) error {
	interval := ms(d.W.Cfg.Clear)
	if d.W.Cfg.Clear < 0 {
		interval = 10 * time.Minute
	}
	if d.W.Cfg.Kind == "redis" { // the server drops what has expired
		interval = time.Second
	}
	if interval > 0 && o.V%2 == 1 && (interval < time.Minute || d.M.R > interval/100) {
		d.Advance(Op{D: interval.Milliseconds() + 1})
		synctest.Wait()
		// who was past its refresh time one interval ago is gone without being touched
		if err := compare(d, stored(d, time.Now().Add(-interval-2*time.Millisecond)), "after an interval of cleaning"); err != nil {
			return err
		}
		d.Stats["cleaned"]++
	}
	now := time.Now()
	i := o.S
	mode := o.V / 2 % 4 // 0, 1: one after the other; 2: at once; 3: at the same time
	var late []COp
	for _, x := range d.Issued {
		s := d.M.S[x.tok]
		if s == nil || now.Before(s.RDead) {
			continue
		}
		k := touches[i%len(touches)]
		i++
		c := COp{K: k, Tok: s.Tok}
		switch k {
		case "get", "del":
			c.Keys = []string{"a"}
		case "put":
			c.Pairs = []PB{{"a", []byte("late")}}
		case "refresh":
			nt, nr := d.fresh(s.ID)
			c.Ref, c.NTok, c.NRef = s.Ref, nt, nr
		}
		if mode == 3 {
			late = append(late, c)
			continue
		}
		if _, err := d.Do(c); err != nil {
			return err
		}
		if mode != 2 {
			synctest.Wait()
			if _, err := d.Do(COp{K: "check", Tok: s.Tok}); err != nil {
				return err
			}
			synctest.Wait()
		} else {
			d.Stats["touched quickly"]++
		}
		delete(d.M.S, s.Tok)
		d.Stats["touched dead"]++
	}
	if len(late) != 0 {
		rs := make([]Res, len(late))
		var fs []func()
		for j := range late {
			fs = append(fs, func() { rs[j] = Exec(d.W.P, late[j]) })
		}
		// the background work waits until everybody has touched its session, if it can
		if _, ok := sched.Run(fs, func(_ int, keys []int) int {
			for n, k := range keys {
				if k != 1000 {
					return n
				}
			}
			return 0
		}, nil, 20000); !ok {
			return &caseErr{"deadlock", "several calls at once that touch dead sessions never return"}
		}
		for j, c := range late {
			if err := d.M.Step(c, rs[j], now); err != nil {
				return err
			}
			delete(d.M.S, c.Tok)
		}
		if len(late) > 1 {
			d.Stats["touched together"]++
		}
	}
	synctest.Wait()
	live := stored(d, now)
	if len(live) == 0 {
		d.Stats["audit empty"]++
	} else {
		d.Stats["audit"]++
	}
	return compare(d, live, "after the dead ones were touched")
}

// many makes a number of sessions and ends them in one of several ways.
func many(d *Driver, o Op) error {
	n := 2 + int(o.D)%12
	for i := 0; i < n; i++ {
		id := d.id((o.U + i*(o.V%2)) % 8)
		tok, ref := d.fresh(id)
		if _, err := d.Do(COp{K: "create", Tok: tok, Ref: ref, Pairs: []PB{{"a", []byte("1")}, {"longer-key", []byte(strings.Repeat("x", 40))}}}); err != nil {
			return err
		}
		switch (o.V + i*(o.S%2)) % 6 {
		case 0, 1: // replaced several times
			for j := 0; j < 3; j++ {
				nt, nr := d.fresh(id)
				if _, err := d.Do(COp{K: "refresh", Tok: tok, Ref: ref, NTok: nt, NRef: nr}); err != nil {
					return err
				}
				tok, ref = nt, nr
			}
		case 2, 3:
			if _, err := d.Do(COp{K: "destroyTok", Tok: tok}); err != nil {
				return err
			}
		case 4:
			if _, err := d.Do(COp{K: "destroyID", ID: id}); err != nil {
				return err
			}
		}
	}
	return nil
}

func genC15(t *rapid.T) Hist {
	c := genCfg(t, all...)
	genTimes(t, &c)
	c.OwnDB, c.Skew = false, 0
	if c.Kind != "redis" && rapid.IntRange(0, 2).Draw(t, "limited") == 0 {
		c.Max = rapid.IntRange(1, 6).Draw(t, "max")
	}
	h := Hist{Cfg: c}
	ws := weights{{"create", 6}, {"put", 3}, {"del", 1}, {"refresh", 4}, {"destroyTok", 2}, {"destroyID", 2}, {"adv", 5}, {"audit", 4}, {"many", 1}, {"check", 1}, {"get", 1}, {"keys", 1}}
	if c.Kind == "bolt" {
		ws = append(ws, weights{{"clear", 1}, {"reopen", 1}}...)
	}
	h.Ops = genOps(t, ws, 6, 30, false)
	return h
}

func runC15(h Hist, r *Rec) error {
	return dropLeak(bubble(func() error {
		d, err := NewDriver(h.Cfg, r)
		if err != nil {
			return err
		}
		defer d.W.Done()
		r.Label("kind:" + h.Cfg.Kind)
		for _, o := range h.Ops {
			d.opNo++
			switch o.K {
			case "audit":
				err = audit(d, o)
			case "many":
				err = many(d, o)
			default:
				err = d.Step(o, nil)
			}
			if err != nil {
				return err
			}
		}
		if err := audit(d, Op{V: 1}); err != nil {
			return err
		}
		// everybody goes, and nothing may be left
		if h.Cfg.R%2 == 0 || h.Cfg.Clear < 0 {
			for _, s := range d.M.Live(time.Now()) {
				if _, err := d.Do(COp{K: "destroyTok", Tok: s.Tok}); err != nil {
					return err
				}
			}
		} else {
			time.Sleep(d.M.R + time.Millisecond)
			synctest.Wait()
		}
		if err := audit(d, Op{V: 0, S: len(h.Ops)}); err != nil {
			return err
		}
		if err := d.Observe(); err != nil {
			return err
		}
		for k := range d.Stats {
			r.Label(k)
		}
		if len(d.Issued) > 4 && d.Stats["audit"] > 0 && d.Stats["audit empty"] > 0 {
			r.NT()
		}
		return nil
	}))
}

// C15Weak is a population of a memory store which all goes away.
type C15Weak struct {
	Cfg Cfg
	N   int
	Ids int
	End int
	Ops []Op

	Quick bool `json:",omitempty"` // the dead are touched without a pause
}

func genC15Weak(t *rapid.T) C15Weak {
	c := C15Weak{Cfg: Cfg{Kind: "memory", A: 1000, R: 2000}}
	c.Cfg.Clear = rapid.SampledFrom([]int64{0, 700}).Draw(t, "clear")
	c.Cfg.Batch = rapid.SampledFrom([]int{0, -100, 1, 3}).Draw(t, "batch")
	c.N = rapid.IntRange(8, 24).Draw(t, "n")
	c.Ids = rapid.IntRange(1, c.N).Draw(t, "ids")
	c.End = rapid.IntRange(0, 4).Draw(t, "end")
	c.Quick = rapid.Bool().Draw(t, "quick")
	if c.End == 4 {
		c.Cfg.Max = rapid.IntRange(1, 4).Draw(t, "max")
	}
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op {
		return Op{K: rapid.SampledFrom([]string{"put", "refresh", "get"}).Draw(t, "k"), S: rapid.IntRange(0, 30).Draw(t, "s")}
	}), 0, 20).Draw(t, "ops")
	return c
}

// runC15Weak checks that the strings of sessions which have gone can be collected.
func runC15Weak(c C15Weak, r *Rec) error {
	return dropLeak(bubble(func() error {
		w, err := NewWorld(c.Cfg)
		if err != nil {
			return err
		}
		defer w.Done()
		var refs []weak.Pointer[byte]
		note := func(s string) string {
			s = strings.Clone(s)
			refs = append(refs, weak.Make(unsafe.StringData(s)))
			return s
		}
		seq := 0
		name := func(i int) (string, string) {
			seq++
			id := fmt.Sprintf("owner-with-a-long-name-%06d", i%c.Ids)
			return id + fmt.Sprintf(".session-with-a-long-name-%06d.sig", seq), id + fmt.Sprintf(".refresh-with-a-long-name-%06d.sig", seq)
		}
		p := w.P
		if err := func() error {
			type pair struct{ a, r string }
			var toks []pair
			for i := 0; i < c.N; i++ {
				a, rf := name(i)
				toks = append(toks, pair{a, rf})
				if e := p.Create(bg, note(a), note(rf), pairs([]PB{{note(fmt.Sprintf("a-rather-long-key-name-%06d", i)), []byte("v")}})); e != nil {
					return fail("create: %v", e)
				}
			}
			for _, o := range c.Ops {
				x := &toks[o.S%len(toks)]
				switch o.K {
				case "put":
					seq++
					p.Put(bg, note(x.a), pairs([]PB{{note(fmt.Sprintf("another-rather-long-key-%06d", seq)), []byte("v")}}))
				case "get":
					p.Get(bg, note(x.a), []string{note(fmt.Sprintf("a-key-nobody-has-ever-stored-%06d", seq))})
				case "refresh":
					a, rf := name(o.S % len(toks))
					if e := p.Refresh(bg, note(x.a), note(x.r), note(a), note(rf)); e == nil {
						*x = pair{a, rf}
					}
				}
			}
			switch c.End {
			case 0:
				for _, x := range toks {
					p.DestroyByToken(bg, note(x.a))
				}
			case 1:
				for i := 0; i < c.Ids; i++ {
					p.Destroy(bg, note(fmt.Sprintf("owner-with-a-long-name-%06d", i)))
				}
			case 2, 3: // expire; touched one by one, or cleaned
				time.Sleep(2001 * time.Millisecond)
				if c.Cfg.Clear > 0 {
					time.Sleep(1500 * time.Millisecond)
				} else {
					for i, x := range toks {
						t := note(x.a)
						switch i % 4 {
						case 0:
							p.Check(bg, t)
						case 1:
							p.Get(bg, t, nil)
						case 2:
							p.Put(bg, t, nil)
						default:
							p.Keys(bg, t)
						}
						if !c.Quick {
							synctest.Wait()
						}
					}
				}
			case 4: // evicted by a few others, which stay
				for i := 0; i < c.Cfg.Max; i++ {
					if e := p.Create(bg, fmt.Sprintf("z.z%d.g", i), "z.zr.g", nil); e != nil {
						return fail("create: %v", e)
					}
				}
			}
			return nil
		}(); err != nil {
			return err
		}
		synctest.Wait()
		left := 0
		for i := 0; i < 3; i++ {
			runtime.GC()
			left = 0
			for _, x := range refs {
				if x.Value() != nil {
					left++
				}
			}
			if left <= 3 {
				break
			}
		}
		r.Label(fmt.Sprintf("end:%d", c.End))
		r.Logf("%d of %d strings are still reachable", left, len(refs))
		// what the last steps of background work hold on to does not count
		if left > 3 {
			return fail("all sessions are gone (way %d), but %d of the %d strings they were made of are still held", c.End, left, len(refs))
		}
		runtime.KeepAlive(p)
		r.NT()
		return nil
	}))
}

func init() {
	reg("C15", "storage", 36000, 960000, "more than four sessions, audited with some left and with none left", genC15, runC15)
	reg("C15", "memory", 6000, 120000, "every case: a population created, used and ended", genC15Weak, runC15Weak)
}
