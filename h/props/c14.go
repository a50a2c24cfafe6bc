package props

import (
	"fmt"
	"os"
	"sync/atomic"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/boltdb/bolt"
	"github.com/powerpuffpenguin/sessionid"
	pbolt "github.com/powerpuffpenguin/sessionid/provider/bolt"
	"pgregory.net/rapid"
)

// C14: close semantics.

type c14Case struct {
	Cfg    Cfg
	Ops    []Op
	Touch  []Op // just before closing, without waiting for background work
	Tail   []Op // after closing
	Reopen Cfg
}

func genC14(t *rapid.T) c14Case {
	c := c14Case{Cfg: genCfg(t, "memory", "bolt", "redis")}
	genTimes(t, &c.Cfg)
	c.Cfg.Max = rapid.SampledFrom([]int{0, 0, 2, 3}).Draw(t, "max")
	ws := weights{{"create", 5}, {"put", 2}, {"get", 1}, {"check", 2}, {"refresh", 2}, {"destroyTok", 1}, {"destroyID", 1}, {"adv", 3}}
	c.Ops = genOps(t, ws, 0, 12, false)
	c.Touch = genOps(t, weights{{"check", 3}, {"get", 2}, {"keys", 1}, {"put", 1}, {"del", 1}, {"refresh", 1}}, 0, 4, false)
	tail := weights{{"create", 2}, {"put", 2}, {"get", 2}, {"keys", 2}, {"del", 2}, {"check", 2}, {"refresh", 2}, {"destroyTok", 2}, {"destroyID", 2}, {"close", 2}, {"adv", 2}}
	if c.Cfg.Kind == "bolt" {
		tail = append(tail, weights{{"clear", 1}}...)
	}
	c.Tail = genOps(t, tail, 1, 10, false)
	c.Reopen = c.Cfg
	c.Reopen.OwnDB = c.Cfg.Kind == "bolt" && rapid.Bool().Draw(t, "own2")
	return c
}

// countWrites counts the changes of the database file from now on.
func countWrites(path string) (n *atomic.Int64, stop func()) {
	n = new(atomic.Int64)
	bolt.Hook = func(p, ev string, off int64, data []byte) error {
		if p == path {
			n.Add(1)
		}
		return nil
	}
	return n, func() { bolt.Hook = nil }
}

func runC14(c c14Case, r *Rec) error {
	return bubble(func() error {
		d, err := NewDriver(c.Cfg, r)
		if err != nil {
			return err
		}
		defer d.W.Done()
		r.Label("kind:" + c.Cfg.Kind)
		for _, o := range c.Ops {
			if err := d.Step(o, nil); err != nil {
				return err
			}
		}
		d.Wait = false
		for _, o := range c.Touch {
			if err := d.Step(o, nil); err != nil {
				return err
			}
		}
		if _, err := d.Do(COp{K: "close"}); err != nil {
			return err
		}
		if c.Cfg.Kind == "bolt" && c.Cfg.OwnDB {
			if err := unlocked(d.W.Path); err != nil {
				return err
			}
		}
		if c.Cfg.Kind == "bolt" && !c.Cfg.OwnDB {
			n, stop := countWrites(d.W.Path)
			defer stop()
			synctest.Wait()
			if err := c14Tail(d, c); err != nil {
				return err
			}
			if k := n.Load(); k != 0 {
				return fail("the closed store changed its database file %d times", k)
			}
		} else {
			before := 0
			if d.W.Srv != nil {
				synctest.Wait() // a command may have been on its way
				before = d.W.Srv.Commands
			}
			if err := c14Tail(d, c); err != nil {
				return err
			}
			if d.W.Srv != nil {
				if k := d.W.Srv.Commands - before; k != 0 {
					return fail("the closed store sent %d commands to its server", k)
				}
				if k := d.W.Srv.OpenConns(); k != 0 {
					return fail("the closed store keeps %d connections", k)
				}
			}
		}
		if c.Cfg.Kind == "memory" {
			if len(c.Ops) > 0 {
				r.NT()
			}
			return nil
		}
		// what lies below can be used again, at once
		if c.Cfg.Kind == "bolt" && !c.Cfg.OwnDB {
			if err := d.W.DB.Update(func(t *bolt.Tx) error {
				b, e := t.CreateBucketIfNotExists([]byte("mine"))
				if e != nil {
					return e
				}
				return b.Put([]byte("k"), []byte("v"))
			}); err != nil {
				return fail("the database given to the store cannot be used after closing the store: %v", err)
			}
			if c.Reopen.OwnDB {
				d.W.closeDB()
			}
		}
		start := time.Now()
		d.W.Cfg = c.Reopen
		if err := d.W.Open(); err != nil {
			return fail("cannot open the store again after closing it: %v", err)
		}
		if w := time.Since(start); w > 500*time.Millisecond {
			return fail("opening the store again took %s", w)
		}
		d.M.Closed = false
		d.Wait = true
		if err := d.Observe(); err != nil {
			return err
		}
		if len(d.M.S) > 0 {
			r.NT()
		}
		for k := range d.Stats {
			r.Label(k)
		}
		_, err = d.Do(COp{K: "close"})
		return err
	})
}

// unlocked: somebody else can take the database file at once.
func unlocked(path string) error {
	f, e := os.OpenFile(path, os.O_RDWR, 0)
	if e != nil {
		return fail("%v", e)
	}
	defer f.Close()
	if e := syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB); e != nil {
		return fail("Close has returned and the store still has its database open: %v", e)
	}
	return nil
}

func c14Tail(d *Driver, c c14Case) error {
	for _, o := range c.Tail {
		start := time.Now()
		if err := d.Step(o, nil); err != nil {
			return err
		}
		if w := time.Since(start); o.K != "adv" && w > time.Second {
			return fail("%s on the closed store took %s", o.K, w)
		}
	}
	synctest.Wait()
	_, err := d.Do(COp{K: "close"})
	return err
}

// CCase is a concurrent case.
type CCase struct {
	Cfg     Cfg
	Setup   []Op
	Clients [][]Op
	Sch     Sch
	Stores  int // how many providers (redis)
}

func genConcCfg(t *rapid.T, kinds ...string) Cfg {
	c := Cfg{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), A: 4000, R: 6000}
	c.OwnDB = c.Kind == "bolt" && rapid.IntRange(0, 3).Draw(t, "owndb") == 0
	if rapid.IntRange(0, 2).Draw(t, "long") == 0 {
		c.R = 100000
	}
	c.Batch = rapid.SampledFrom([]int{0, -100, 1, 2}).Draw(t, "batch")
	c.Max = rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "max")
	c.Clear = rapid.SampledFrom([]int64{0, 100, 700}).Draw(t, "clear")
	if c.R == 100000 && c.Clear == 100 {
		c.Clear = 700
	}
	return c
}

func genConcSetup(t *rapid.T) []Op {
	ops := genOps(t, weights{{"create", 5}, {"put", 1}, {"refresh", 1}, {"adv", 1}}, 1, 5, false)
	for i := range ops {
		ops[i].U %= 3
		if ops[i].K == "create" && ops[i].V >= 13 {
			ops[i].V = 0
		}
		if ops[i].K == "adv" {
			ops[i].V = 4 + ops[i].V%2
		}
	}
	return ops
}

func genClients(t *rapid.T, ws weights, nc, no int) (out [][]Op) {
	n := rapid.IntRange(2, nc).Draw(t, "clients")
	for i := 0; i < n; i++ {
		ops := genOps(t, ws, 1, no, false)
		for j := range ops {
			ops[j].U %= 3
			ops[j].S %= 8
		}
		out = append(out, ops)
	}
	return
}

func (c *CCase) genTicks(t *rapid.T) {
	if c.Cfg.Clear > 0 && rapid.Bool().Draw(t, "ticking") {
		c.Sch.Ticks = rapid.SliceOfN(rapid.IntRange(0, 30), 1, 3).Draw(t, "ticks")
		c.Sch.TickD = c.Cfg.Clear
	}
}

// settle moves the clock so that no deadline passes during the concurrent part.
func (d *Driver) settle(c CCase) {
	window := ms(c.Sch.TickD)*time.Duration(len(c.Sch.Ticks)) + 500*time.Millisecond
	for i := 0; i < 400; i++ {
		now, hit := time.Now(), false
		for _, x := range d.M.Deadlines() {
			if x.After(now) && x.Before(now.Add(window)) {
				hit = true
			}
		}
		if !hit {
			return
		}
		time.Sleep(50 * time.Millisecond)
		synctest.Wait()
	}
}

func genC14Race(t *rapid.T) CCase {
	c := CCase{Cfg: genConcCfg(t, "memory", "bolt", "redis"), Setup: genConcSetup(t)}
	ws := weights{{"create", 2}, {"put", 2}, {"get", 2}, {"keys", 1}, {"del", 1}, {"check", 3}, {"refresh", 2}, {"destroyTok", 1}, {"destroyID", 1}, {"close", 3}}
	if c.Cfg.Kind == "bolt" {
		ws = append(ws, weights{{"clear", 1}}...)
	}
	c.Clients = genClients(t, ws, 4, 3)
	c.Clients[0][len(c.Clients[0])-1] = Op{K: "close"}
	c.Sch = genSch(t, 40)
	c.genTicks(t)
	return c
}

func runC14Race(c CCase, r *Rec) error {
	return bubble(func() error {
		d, err := NewDriver(c.Cfg, r)
		if err != nil {
			return err
		}
		defer d.W.Done()
		r.Label("kind:" + c.Cfg.Kind)
		for _, o := range c.Setup {
			if err := d.Step(o, nil); err != nil {
				return err
			}
		}
		d.settle(c)
		start, now := d.M.Clone(), time.Now()
		plan := d.planned(c.Clients)
		var closed, late atomic.Int64
		if c.Cfg.Kind == "bolt" && !c.Cfg.OwnDB {
			bolt.Hook = func(p, ev string, off int64, data []byte) error {
				if p == d.W.Path && closed.Load() != 0 {
					late.Add(1)
				}
				return nil
			}
			defer func() { bolt.Hook = nil }()
		}
		p := &closeWatcher{d.W.P, &closed}
		rec, sc, err := concurrently([]sessionid.Provider{p}, plan, c.Sch, r)
		if err != nil {
			return err
		}
		if k := late.Load(); k != 0 {
			return fail("the closed store changed its database file %d times", k)
		}
		oks, first := 0, 1<<60
		for _, o := range rec.ops {
			if o.C.K == "close" {
				if o.R.C == "ok" {
					oks++
					first = o.Ret
				} else if o.R.C != "closed" {
					return fail("%s: want ok or closed", o)
				}
			}
		}
		if oks != 1 {
			return fail("%d calls of Close succeeded", oks)
		}
		if sc.Preempt > 0 {
			r.Label("preempted")
		}
		if c.Cfg.Kind == "redis" {
			for _, o := range rec.ops {
				if o.Call < first {
					continue
				}
				m := NewModel(start.A, start.R, 0)
				m.Closed, m.Touchy = true, start.Touchy
				if e := m.Step(o.C, o.R, now); e != nil {
					return fail("called after Close had returned: %v", e)
				}
			}
			if k := d.W.Srv.OpenConns(); k != 0 {
				return fail("the closed store keeps %d connections", k)
			}
		} else if err := linearize(start, rec.ops, now, func(*Model) error { return nil }); err != nil {
			return err
		}
		if sc.Preempt > 1 {
			r.NT()
		}
		d.M.Closed = true
		time.Sleep(10 * time.Second)
		synctest.Wait()
		if k := late.Load(); k != 0 {
			return fail("the closed store changed its database file %d times", k)
		}
		for _, k := range []string{"close", "check", "create", "destroyID"} {
			if _, err := d.Do(COp{K: k, Tok: "1.x.g", Ref: "1.xr.g", ID: "1"}); err != nil {
				return err
			}
		}
		if c.Cfg.Kind == "bolt" {
			if err := d.W.Open(); err != nil {
				return fail("cannot open the store again after closing it: %v", err)
			}
			if r := Exec(d.W.P, COp{K: "create", Tok: "1.y.g", Ref: "1.yr.h"}); r.C != "ok" {
				return fail("the store opened again does not work: create -> %s", r)
			}
		}
		return nil
	})
}

// closeWatcher notes when Close has returned successfully.
type closeWatcher struct {
	sessionid.Provider
	closed *atomic.Int64
}

func (c *closeWatcher) Close() error {
	e := c.Provider.Close()
	if e == nil {
		c.closed.Store(1)
	}
	return e
}

func (c *closeWatcher) Clear() error { return c.Provider.(clearer).Clear() }

type c14Open struct {
	Bucket string
	Again  bool
	Locked bool
}

// opening fails, and leaves nothing behind
func runC14Open(c c14Open, r *Rec) error {
	return bubble(func() error {
		path := newFile()
		w := &World{Path: path, Cfg: Cfg{Kind: "bolt"}}
		defer w.Done()
		if c.Again {
			p, e := pbolt.New(pbolt.WithFilename(path), pbolt.WithTimeout(time.Second))
			if e != nil {
				return fail("open: %v", e)
			}
			p.Close()
		}
		if c.Locked {
			if e := w.openDB(); e != nil {
				return fail("open: %v", e)
			}
			r.Label("locked")
		}
		// an empty bucket name is refused by the database
		p, e := pbolt.New(pbolt.WithFilename(path), pbolt.WithTimeout(60*time.Millisecond), pbolt.WithBucket([]byte(c.Bucket)))
		if e == nil {
			if c.Bucket == "" || c.Locked {
				return fail("opening with the bucket %q succeeded", c.Bucket)
			}
			p.Close()
		} else if c.Bucket != "" && !c.Locked {
			return fail("opening with the bucket %q failed: %v", c.Bucket, e)
		}
		w.closeDB()
		synctest.Wait()
		q, e := pbolt.New(pbolt.WithFilename(path), pbolt.WithTimeout(60*time.Millisecond))
		if e != nil {
			return fail("the file cannot be opened after a failed attempt: %v", e)
		}
		if c.Bucket == "" || c.Locked {
			r.NT()
		}
		if r := Exec(q, COp{K: "create", Tok: "1.y.g", Ref: "1.yr.h"}); r.C != "ok" {
			return fail("create -> %s", r)
		}
		if e = q.Close(); e != nil {
			return fail("close: %v", e)
		}
		return nil
	})
}

func init() {
	reg("C14", "after", 48000, 1200000, "bolt and redis: sessions left in the store when it is closed; memory: a history before closing", genC14, runC14)
	reg("C14", "during", 48000, 1600000, "at least two preemptions", genC14Race, runC14Race)
	reg("C14", "failed-open", 320, 8000, "opening failed", func(t *rapid.T) c14Open {
		return c14Open{rapid.SampledFrom([]string{"", "", "b", fmt.Sprint("sessions")}).Draw(t, "bucket"), rapid.Bool().Draw(t, "again"), rapid.IntRange(0, 3).Draw(t, "locked") == 0}
	}, runC14Open)
}
