package props

import (
	"errors"
	"fmt"
	"math"
	"os"
	"sync"
	"testing/synctest"
	"time"

	"github.com/boltdb/bolt"
	"pgregory.net/rapid"

	"verif.local/h/sched"
)

// C09: a crash leaves each bolt operation done or not done.
// C10: a bolt operation that fails on I/O has no effect.

type fileEv struct {
	ev   string
	off  int64
	data []byte
}

func (e fileEv) apply(img []byte) []byte {
	switch e.ev {
	case "write":
		return writeAt(img, e.off, e.data)
	case "grow":
		return resize(img, int(e.off))
	}
	return img
}

func writeAt(img []byte, off int64, data []byte) []byte {
	if end := int(off) + len(data); end > len(img) {
		img = resize(img, end)
	}
	copy(img[off:], data)
	return img
}

func resize(img []byte, n int) []byte {
	if n <= len(img) {
		return img[:n]
	}
	return append(img, make([]byte, n-len(img))...)
}

// shadow follows what is in a database file, and what of it would survive a power loss.
type shadow struct {
	mu    sync.Mutex
	path  string
	img   []byte // everything written
	dur   []byte // as of the last sync
	pend  []fileEv
	snaps []snap
	on    bool
	seed  uint64
	power int
}

type snap struct {
	img   []byte
	what  string
	after bool // the call had returned
}

func (s *shadow) rnd(n int) int {
	s.seed = mix(s.seed)
	return int(s.seed % uint64(n))
}

func (s *shadow) hook(path, ev string, off int64, data []byte) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if path != s.path {
		return nil
	}
	if s.on {
		s.take(fmt.Sprintf("killed before %s at %d of %d bytes", ev, off, len(data)), false)
		if len(s.pend) > 0 && s.rnd(3) < s.power {
			s.takePower(fmt.Sprintf("power lost before %s at %d", ev, off), false)
		}
	}
	e := fileEv{ev, off, append([]byte{}, data...)}
	s.img = e.apply(s.img)
	if ev == "sync" {
		s.pend = nil
		s.dur = append(s.dur[:0:0], s.img...)
	} else {
		s.pend = append(s.pend, e)
	}
	return nil
}

func (s *shadow) take(what string, after bool) {
	s.snaps = append(s.snaps, snap{append([]byte{}, s.img...), what, after})
}

// takePower keeps what was synced and any part of the rest.
func (s *shadow) takePower(what string, after bool) {
	img := append([]byte{}, s.dur...)
	kept := 0
	mode := s.rnd(3) // nothing, anything, everything but one
	skip := s.rnd(len(s.pend) + 1)
	for i, e := range s.pend {
		switch {
		case mode == 0, mode == 2 && i == skip, mode == 1 && s.rnd(2) == 0:
			continue
		}
		kept++
		if e.ev == "write" && mode == 1 && s.rnd(3) == 0 { // torn between sectors
			for o := 0; o < len(e.data); o += 512 {
				if s.rnd(2) == 0 {
					img = writeAt(img, e.off+int64(o), e.data[o:min(o+512, len(e.data))])
				}
			}
			continue
		}
		img = e.apply(img)
	}
	s.snaps = append(s.snaps, snap{img, fmt.Sprintf("%s, %d of %d unsynced writes kept", what, kept, len(s.pend)), after})
}

type c09Case struct {
	Cfg   Cfg
	Ops   []Op
	Cfgs  []Cfg
	Crash []int
	Seed  uint64
	Power int
	Own   bool
	Again bool // go on with what a crash left behind
	Few   int  `json:",omitempty"` // only so many of the images are looked at
}

func genBoltHist(t *rapid.T) (c Cfg, ops []Op) {
	c = genCfg(t, "bolt")
	genTimes(t, &c)
	c.Max = rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4}).Draw(t, "max")
	ws := weights{{"create", 8}, {"put", 4}, {"bulk", 1}, {"del", 3}, {"refresh", 6}, {"destroyTok", 2}, {"destroyID", 3}, {"get", 1}, {"check", 1}, {"adv", 2}, {"reopen", 1}, {"clear", 1}}
	ops = genOps(t, ws, 1, 12, rapid.IntRange(0, 3).Draw(t, "big") == 0)
	for i := range ops {
		ops[i].U %= 5 // few owners
		if ops[i].K == "bulk" {
			ops[i].D = ops[i].D%120 + 1
		}
	}
	return
}

func genC09(t *rapid.T) c09Case {
	var c c09Case
	c.Cfg, c.Ops = genBoltHist(t)
	c.Crash = rapid.SliceOfN(rapid.IntRange(0, len(c.Ops)-1), 1, 3).Draw(t, "crash")
	c.Seed = rapid.Uint64Range(1, 1<<30).Draw(t, "seed")
	c.Power = rapid.IntRange(0, 3).Draw(t, "power")
	c.Own = rapid.Bool().Draw(t, "own")
	c.Again = rapid.Bool().Draw(t, "again")
	return c
}

// genC09Wide has steps that touch hundreds of sessions or of keys at once.
func genC09Wide(t *rapid.T) c09Case {
	c := c09Case{Cfg: genCfg(t, "bolt"), Few: 5}
	c.Cfg.A, c.Cfg.R, c.Cfg.Clear, c.Cfg.Max = 1<<40, 1<<41, -1, 0
	c.Seed = rapid.Uint64Range(1, 1<<30).Draw(t, "seed")
	c.Power = rapid.IntRange(0, 3).Draw(t, "power")
	c.Own = rapid.Bool().Draw(t, "own")
	c.Again = rapid.Bool().Draw(t, "again")
	c.Ops, c.Crash = genWideOps(t)
	return c
}

// genWideOps draws a few calls over hundreds of sessions or keys; hit tells which of them may be disturbed.
func genWideOps(t *rapid.T) (ops []Op, hit []int) {
	u := rapid.IntRange(0, 3).Draw(t, "u")
	n := rapid.SampledFrom([]int64{3, 20, 40, 70, 110, 140, 270}).Draw(t, "sessions")
	ops = []Op{{K: "crowd", U: u, D: n, V: rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(t, "owners"), S: rapid.IntRange(0, 2).Draw(t, "with")}}
	kinds := []string{"destroyID", "destroyID", "destroyID", "clear", "create"}
	if n < 50 {
		kinds = []string{"bulk", "bulkdel", "refresh", "refresh", "destroyTok", "destroyID"}
		ops = append(ops, Op{K: "bulk", D: rapid.SampledFrom([]int64{100, 300, 520, 1030, 1500}).Draw(t, "keys")})
		if rapid.Bool().Draw(t, "crash there") {
			hit = append(hit, 1)
		}
	}
	for i, m := 0, rapid.IntRange(1, 3).Draw(t, "m"); i < m; i++ {
		o := genOp(t, rapid.SampledFrom(kinds).Draw(t, "k"), false)
		switch o.K {
		case "destroyID":
			o.U, o.V = u, 0
		case "bulk":
			o.S, o.D = 0, rapid.SampledFrom([]int64{100, 300, 520, 1030, 1500}).Draw(t, "keys")
		case "refresh", "destroyTok", "bulkdel":
			o.S, o.V = 0, 0
			o.D += 200
		}
		hit = append(hit, len(ops))
		ops = append(ops, o)
	}
	return
}

func runC09(c c09Case, r *Rec) error {
	err := bubble(func() error {
		d, err := NewDriver(c.Cfg, r)
		if err != nil {
			return err
		}
		defer d.W.Done()
		img, err := os.ReadFile(d.W.Path)
		if err != nil {
			return fail("%v", err)
		}
		sh := &shadow{path: d.W.Path, img: img, dur: append([]byte{}, img...), seed: c.Seed, power: c.Power}
		bolt.Hook = sh.hook
		defer func() { bolt.Hook = nil }()
		crash := map[int]bool{}
		for _, i := range c.Crash {
			crash[i] = true
		}
		for i, o := range c.Ops {
			if o.K == "crowd" {
				if err := d.crowdStep(o); err != nil {
					return err
				}
				continue
			}
			if !crash[i] || o.K == "adv" {
				if err := d.Step(o, c.Cfgs); err != nil {
					return err
				}
				continue
			}
			pre := d.M.Clone()
			sh.mu.Lock()
			sh.snaps, sh.on = nil, true
			sh.mu.Unlock()
			d.Wait = false
			err := d.Step(o, c.Cfgs)
			d.Wait = true
			if err != nil {
				return err
			}
			sh.mu.Lock()
			events := len(sh.snaps)
			sh.take("killed after the call", true)
			sh.takePower("power lost after the call", true)
			sh.on = false
			sh.mu.Unlock()
			synctest.Wait()
			changed := pre.digest() != d.M.digest()
			r.Label("crash:" + o.K)
			on := sh.rnd(len(sh.snaps))
			var next snap
			var nextM *Model
			look := map[int]bool{on: true, len(sh.snaps) - 1: true}
			for len(look) < c.Few && len(look) < len(sh.snaps) {
				look[sh.rnd(len(sh.snaps))] = true
			}
			for j, s := range sh.snaps {
				if c.Few > 0 && !look[j] {
					continue
				}
				m, err := c09Check(d, c, s, pre, r)
				if err != nil {
					return fail("step %d %s, %s (%d of %d): %v", i, o.K, s.what, j+1, len(sh.snaps), err)
				}
				if j == on && c.Again {
					next, nextM = s, m
				}
			}
			if n := len(sh.snaps); c.Few > 0 && len(look) < n {
				r.Labels["images"] += len(look)
			} else {
				r.Labels["images"] += n
			}
			if changed && events >= 3 {
				r.NT()
			}
			if nextM != nil {
				// the next process goes on from here
				w := &World{Cfg: d.W.Cfg, Path: newFile()}
				if err := os.WriteFile(w.Path, next.img, 0o600); err != nil {
					return fail("%v", err)
				}
				defer w.Done()
				bolt.Hook = nil
				d.W.Done()
				if err := w.Open(); err != nil {
					return fail("the store cannot be opened: %v", err)
				}
				d.W, d.M = w, nextM.Clone()
				r.Logf("the next process goes on after: %s", next.what)
				r.Label("crashed, and went on")
				img, err := os.ReadFile(w.Path)
				if err != nil {
					return fail("%v", err)
				}
				sh.mu.Lock()
				sh.path, sh.img, sh.dur, sh.pend = w.Path, img, append([]byte{}, img...), nil
				sh.mu.Unlock()
				bolt.Hook = sh.hook
				if err := d.Observe(); err != nil {
					return fail("step %d %s, then %s and opened again: %v", i, o.K, next.what, err)
				}
			}
		}
		return nil
	})
	if errKind(err) == "leak" {
		return nil // decided by C14 only
	}
	return err
}

// c09Check opens what a crash left behind, and tells what it is.
func c09Check(d *Driver, c c09Case, s snap, pre *Model, r *Rec) (*Model, error) {
	path := newFile()
	if err := os.WriteFile(path, s.img, 0o600); err != nil {
		return nil, fail("%v", err)
	}
	cfg := d.W.Cfg
	cfg.OwnDB = c.Own
	w := &World{Cfg: cfg, Path: path}
	defer w.Done()
	if err := w.Open(); err != nil {
		return nil, fail("the store cannot be opened: %v", err)
	}
	now := time.Now()
	ops := d.auditWith(w.P, true, synctest.Wait)
	errPost := explain(d.M, ops, now)
	if errPost == nil {
		return d.M, c09Empty(d, w)
	}
	if s.after {
		trace(r, ops)
		return nil, fail("the call had returned: %v", errPost)
	}
	errPre := explain(pre, ops, now)
	if errPre != nil {
		trace(r, ops)
		return nil, fail("neither as after the call (%v) nor as before it (%v)", errPost, errPre)
	}
	return pre, c09Empty(d, w)
}

func trace(r *Rec, ops []*CallRec) {
	for _, o := range ops {
		r.Logf("  recovered: %s -> %s", o.C, o.R)
	}
}

// c09Empty: the audit ended all sessions, so nothing of them may be left.
func c09Empty(d *Driver, w *World) error {
	if w.Cfg.OwnDB {
		if e := w.P.Close(); e != nil {
			return fail("close: %v", e)
		}
		w.P = nil
		if e := w.openDB(); e != nil {
			return fail("the database cannot be opened after closing the store: %v", e)
		}
	}
	got, err := held(w)
	if err != nil {
		return err
	}
	if got.entries > 8 || got.bytes > 200 {
		return fail("all sessions are gone and the store still holds %s", got)
	}
	return nil
}

// C10

type c10Fault struct {
	Op, From, N int
	Part        bool // part of the data is written before the failure
}

type c10Case struct {
	Cfg    Cfg
	Ops    []Op
	Faults []c10Fault
	Pass   bool // let everything expire in the end
	Late   bool // and touch it while nothing can be removed
}

func genC10(t *rapid.T) c10Case {
	var c c10Case
	c.Cfg, c.Ops = genBoltHist(t)
	n := len(c.Ops)
	c.Pass = rapid.Bool().Draw(t, "pass")
	if c.Late = rapid.IntRange(0, 3).Draw(t, "late") == 0; c.Late {
		c.Cfg.Clear = 0
	}
	c.Faults = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c10Fault {
		f := c10Fault{Op: rapid.IntRange(0, n-1).Draw(t, "op"), From: rapid.IntRange(0, 8).Draw(t, "from"), N: 1}
		if rapid.IntRange(0, 2).Draw(t, "more") == 0 {
			f.N = 100
		}
		f.Part = rapid.IntRange(0, 3).Draw(t, "part") == 0
		return f
	}), 1, 4).Draw(t, "faults")
	return c
}

// genC10Wide has calls that touch hundreds of sessions or of keys at once.
func genC10Wide(t *rapid.T) c10Case {
	c := c10Case{Cfg: genCfg(t, "bolt")}
	c.Cfg.A, c.Cfg.R, c.Cfg.Clear, c.Cfg.Max = 1<<40, 1<<41, -1, 0
	var hit []int
	c.Ops, hit = genWideOps(t)
	if rapid.Bool().Draw(t, "sweep") { // the last call again and again, failing a little later each time
		from, step := rapid.IntRange(0, 6).Draw(t, "first"), rapid.IntRange(1, 3).Draw(t, "step")
		o := c.Ops[len(c.Ops)-1]
		if o.K == "clear" || o.K == "destroyTok" {
			o.K = "refresh"
		}
		for i := 0; i < 14; i++ {
			c.Faults = append(c.Faults, c10Fault{Op: len(c.Ops), From: from + i*step, N: 1})
			c.Ops = append(c.Ops, o)
		}
		return c
	}
	c.Faults = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c10Fault {
		f := c10Fault{Op: rapid.SampledFrom(hit).Draw(t, "op"), From: rapid.IntRange(0, 12).Draw(t, "from"), N: 1}
		if rapid.Bool().Draw(t, "later") {
			f.From = rapid.IntRange(0, 70).Draw(t, "far")
		}
		if rapid.IntRange(0, 2).Draw(t, "more") == 0 {
			f.N = 100
		}
		return f
	}), 1, 4).Draw(t, "faults")
	return c
}

const late = -2

var errIO = errors.New("input/output error (injected)")

func runC10(c c10Case, r *Rec) error {
	err := bubble(func() error {
		d, err := NewDriver(c.Cfg, r)
		if err != nil {
			return err
		}
		defer d.W.Done()
		defer func() { bolt.Hook = nil }()
		w := worlds{d.M}
		var mu sync.Mutex
		// arm makes the file fail as planned for a step; the result tells
		// how many faults hit, and whether the outcome is open because the
		// last sync failed with everything written already.
		arm := func(op int) func() (int, bool) {
			me := sched.Goid()
			fired, n, open, meta := 0, 0, false, false
			bolt.Hook = func(path, ev string, off int64, data []byte) error {
				if path != d.W.Path {
					return nil
				}
				mu.Lock()
				defer mu.Unlock()
				bg := sched.Goid() != me
				i := n
				if !bg {
					n++
				}
				for _, f := range c.Faults {
					if f.Op != op || (bg && f.N == 1) || (!bg && (i < f.From || i >= f.From+f.N)) {
						continue
					}
					if bg {
						r.Label("fault in the background")
					} else {
						fired++
						r.Label("fault:" + ev)
						if ev == "sync" && meta {
							open = true
						}
						if ev == "write" && f.Part && off >= int64(2*os.Getpagesize()) && len(data) > 512 {
							if g, e := os.OpenFile(path, os.O_WRONLY, 0); e == nil {
								g.WriteAt(data[:len(data)/1024*512], off)
								g.Close()
							}
						}
					}
					return errIO
				}
				if !bg {
					meta = ev == "write" && off < int64(2*os.Getpagesize())
				}
				return nil
			}
			return func() (int, bool) {
				mu.Lock()
				defer mu.Unlock()
				bolt.Hook = nil
				return fired, open
			}
		}
		do := func(o COp, op int) error {
			now := time.Now()
			disarm := arm(op)
			res := Exec(d.W.P, o)
			synctest.Wait() // what runs in the background meets the faults too
			fired, open := disarm()
			note := ""
			if fired > 0 {
				note = fmt.Sprintf("   (%d faults)", fired)
				r.Label("hit:" + o.K + ":" + res.C)
			}
			r.Logf("%s %s -> %s%s", now.Sub(epoch), o, res, note)
			if res.C == "panic" {
				return &caseErr{"panic", fmt.Sprintf("%s: %s", o, res.E)}
			}
			if fired > 0 && res.C != "other" && res.C != "expired" && res.C != "notexist" && res.C != "refmismatch" {
				return fail("%s: writing the file failed, and the result is %s", o, res)
			}
			var nw worlds
			if fired > 0 && res.C == "other" {
				if !errorIs(res, errIO) {
					r.Label("other error")
				}
				nw = w // nothing happened
				if open {
					for _, m := range w {
						x := m.Clone()
						if x.Step(o, Res{C: "ok"}, now) == nil {
							nw = append(nw[:len(nw):len(nw)], x)
						}
					}
					nw = nw.dedupe()
					r.Label("open")
				}
				r.NT()
			} else if nw, err = w.step(o, res, now, false); err != nil {
				return err
			}
			w = nw
			d.M = w[0]
			if res.C == "ok" || open {
				x := issuedTok{o.Tok, o.Ref, ""}
				if o.K == "refresh" {
					x = issuedTok{o.NTok, o.NRef, ""}
				}
				if id, ok := split(x.tok); ok && (o.K == "create" || o.K == "refresh") {
					x.id = id
					d.Issued = append(d.Issued, x)
				}
			}
			return nil
		}
		observe := func() error {
			seen := map[string]bool{}
			for _, x := range d.Issued {
				if seen[x.tok] {
					continue
				}
				seen[x.tok] = true
				ks := append([]string{}, keyPool[:4]...)
				for _, m := range w {
					if s := m.S[x.tok]; s != nil {
						ks = append(ks, sortedKeys(s.Data)...)
					}
				}
				for _, o := range []COp{{K: "check", Tok: x.tok}, {K: "keys", Tok: x.tok}, {K: "get", Tok: x.tok, Keys: ks}} {
					if err := do(o, -1); err != nil {
						return err
					}
				}
			}
			return nil
		}
		for i, o := range c.Ops {
			d.opNo++
			switch o.K {
			case "crowd":
				if err := d.crowdStep(o); err != nil {
					return err
				}
				w = worlds{d.M}
				continue
			case "adv": // only the cleaning can meet faults here
				disarm := arm(i)
				d.Advance(o)
				disarm()
				continue
			case "reopen":
				if e := Exec(d.W.P, COp{K: "close"}); e.C != "ok" {
					return fail("close: %s", e)
				}
				d.W.closeDB()
				disarm := arm(i)
				err := d.W.Open()
				fired, _ := disarm()
				r.Logf("reopen -> %v (%d faults)", err, fired)
				if err != nil {
					if fired == 0 {
						return fail("cannot reopen the store: %v", err)
					}
					r.Label("open failed")
					d.W.closeDB()
					synctest.Wait()
					if err = d.W.Open(); err != nil {
						return fail("cannot reopen the store after a failed attempt: %v", err)
					}
				}
				if err := observe(); err != nil {
					return err
				}
				continue
			}
			before := len(w)
			if err := do(d.Concrete(o), i); err != nil {
				return err
			}
			if len(w) > before || i%3 == 2 {
				if err := observe(); err != nil {
					return err
				}
			}
		}
		if err := observe(); err != nil {
			return err
		}
		for _, s := range w[0].Live(time.Now()) {
			nt, nr := d.fresh(s.ID)
			if err := do(COp{K: "refresh", Tok: s.Tok, Ref: s.Ref, NTok: nt, NRef: nr}, -1); err != nil {
				return err
			}
		}
		if err := observe(); err != nil {
			return err
		}
		for _, k := range []int{0, 1, 2, 3} {
			if err := do(d.Concrete(Op{K: "create", U: k}), -1); err != nil {
				return err
			}
		}
		// sessions that could not be removed when they were touched are removed later
		if c.Late && c.Cfg.Clear == 0 && !c.Cfg.OwnDB {
			time.Sleep(d.M.R + 2*time.Millisecond)
			c.Faults = append(c.Faults[:len(c.Faults):len(c.Faults)], c10Fault{Op: late, From: math.MaxInt32, N: 100})
			for _, op := range []int{late, -1, -1} {
				for _, x := range d.Issued {
					if err := do(COp{K: "check", Tok: x.tok}, op); err != nil {
						return err
					}
				}
			}
			r.Label("late")
			got, err := held(d.W)
			if err != nil {
				return err
			}
			if got.entries > 8 || got.bytes > 200 {
				return fail("all sessions are past their refresh time and were touched again after a touch that could not remove them, and the store still holds %s", got)
			}
		}
		// cleaning works too
		if c.Cfg.Clear > 0 && !c.Cfg.OwnDB && c.Pass {
			time.Sleep(d.M.R + ms(c.Cfg.Clear) + 2*time.Millisecond)
			synctest.Wait()
			r.Label("cleaned")
			got, err := held(d.W)
			if err != nil {
				return err
			}
			if got.entries > 8 || got.bytes > 200 {
				return fail("all sessions are past their refresh time, cleaning was due after that, and the store still holds %s", got)
			}
		}
		// on disk it is the same
		if e := Exec(d.W.P, COp{K: "close"}); e.C != "ok" {
			return fail("close: %s", e)
		}
		d.W.closeDB()
		if err := d.W.Open(); err != nil {
			return fail("cannot reopen the store: %v", err)
		}
		return observe()
	})
	if errKind(err) == "leak" {
		return nil // decided by C14 only
	}
	return err
}

func errorIs(r Res, e error) bool { return r.E == e.Error() }

func init() {
	reg("C09", "crash", 30000, 600000, "the interrupted call changed sessions, with at least three file writes to crash between", genC09, runC09)
	reg("C09", "wide", 320, 10000, "the interrupted call changed sessions, with at least three file writes to crash between", genC09Wide, runC09)
	reg("C10", "wide", 480, 20000, "a call failed because of an injected I/O error", genC10Wide, runC10)
	reg("C10", "faults", 36000, 1200000, "a call failed because of an injected I/O error", genC10, runC10)
}
