package props

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"encoding/xml"
	"strings"

	"github.com/powerpuffpenguin/sessionid"
	"pgregory.net/rapid"
)

// C22: every manager and store behaves as its own options say.

// C22Stores is a number of stores with different options, alive at the same time.
type C22Stores struct {
	Cfgs []Cfg
	Twin []int // use the option values of that earlier store (memory)
	Ops  []XOp // K "open": the next store is opened
}

func genC22Stores(t *rapid.T) C22Stores {
	var c C22Stores
	n := rapid.IntRange(2, 5).Draw(t, "n")
	for i := 0; i < n; i++ {
		x := Cfg{Kind: rapid.SampledFrom([]string{"memory", "memory", "bolt", "bolt", "redis"}).Draw(t, "kind")}
		genTimes(t, &x)
		x.Clear = 0
		if x.Kind != "redis" && rapid.Bool().Draw(t, "limited") {
			x.Max = rapid.SampledFrom([]int{1, 2, 3, 4, -100, -1}).Draw(t, "max")
		}
		switch x.Kind {
		case "bolt":
			x.OwnDB = rapid.IntRange(0, 3).Draw(t, "own") == 0
			x.Bucket = []string{"", "b1", "b2", "sessionid2", "x"}[i]
		case "redis":
			x.Prefix = []string{"", "p1.", "q*", "r", "s/"}[i]
			x.MetaKey = rapid.SampledFrom([]string{"", "mk", "a"}).Draw(t, "metakey")
			x.JSON = rapid.Bool().Draw(t, "json")
		}
		twin := -1
		if j := rapid.IntRange(0, n+2).Draw(t, "twin"); j < i && c.Cfgs[j].Kind == "memory" {
			x, twin = c.Cfgs[j], j
		}
		c.Cfgs = append(c.Cfgs, x)
		c.Twin = append(c.Twin, twin)
	}
	ws := weights{{"create", 8}, {"put", 2}, {"get", 1}, {"keys", 1}, {"refresh", 4}, {"destroyTok", 1}, {"destroyID", 1}, {"adv", 4}, {"observe", 2}, {"reopen", 1}}
	for _, o := range genOps(t, ws, 15, 60, false) {
		c.Ops = append(c.Ops, XOp{o, rapid.IntRange(0, 4).Draw(t, "side")})
	}
	for i := 1; i < n; i++ { // the first is opened before everything
		at := rapid.IntRange(0, len(c.Ops)*2/3).Draw(t, "at")
		c.Ops = append(c.Ops[:at:at], append([]XOp{{Op{K: "open"}, 0}}, c.Ops[at:]...)...)
	}
	if rapid.IntRange(0, 2).Draw(t, "close") == 0 {
		at := rapid.IntRange(0, len(c.Ops)).Draw(t, "closeat")
		c.Ops = append(c.Ops[:at:at], append([]XOp{{Op{K: "close"}, rapid.IntRange(0, 4).Draw(t, "closed")}}, c.Ops[at:]...)...)
	}
	return c
}

func runC22Stores(c C22Stores, r *Rec) error {
	return dropLeak(bubble(func() error {
		var ds []*Driver
		var db, red *World
		opts := map[int][]sessionid.ProviderOption{}
		defer func() {
			for i := len(ds) - 1; i >= 0; i-- {
				w := ds[i].W
				if w != db && !w.Cfg.OwnDB {
					w.DB, w.Path = nil, ""
				}
				w.Done()
			}
			if db != nil {
				db.Done()
			}
		}()
		open := func() error {
			i := len(ds)
			if i == len(c.Cfgs) {
				return nil
			}
			x := c.Cfgs[i]
			w := &World{Cfg: x}
			switch x.Kind {
			case "memory":
				o := memOpts(x)
				if j := c.Twin[i]; j >= 0 {
					o = opts[j]
					r.Label("twin")
				}
				opts[i] = o
				w.P = sessionid.NewProvider(o...)
			case "bolt":
				if x.OwnDB {
					w.Path = newFile()
				} else {
					if db == nil {
						db = &World{Cfg: Cfg{Kind: "bolt"}, Path: newFile()}
						if err := db.openDB(); err != nil {
							return err
						}
					}
					w.Path, w.DB = db.Path, db.DB
				}
			case "redis":
				if red == nil {
					var err error
					if red, err = NewWorld(x); err != nil {
						return err
					}
					w = red
				}
				w.Srv = red.Srv
			}
			if w.P == nil {
				if err := w.Open(); err != nil {
					return fail("cannot open store %d: %v", i+1, err)
				}
			}
			r.Logf("store %d: %+v", i+1, x)
			ds = append(ds, driverFor(w, r))
			return nil
		}
		if err := open(); err != nil {
			return err
		}
		clash := func() bool {
			for _, d := range ds {
				for _, x := range d.M.Deadlines() {
					if x.Equal(nowT()) {
						return true
					}
				}
			}
			return false
		}
		for _, x := range c.Ops {
			i := x.Side % len(ds)
			d := ds[i]
			r.Logf("store %d:", i+1)
			switch x.K {
			case "open":
				if err := open(); err != nil {
					return err
				}
				continue
			case "adv":
				d.Advance(x.Op)
				for clash() {
					d.Advance(Op{D: 1})
				}
				continue
			case "reopen":
				if d.W.Cfg.Kind == "memory" || d.M.Closed {
					continue
				}
				if e := Exec(d.W.P, COp{K: "close"}); e.C != "ok" {
					return fail("store %d: close: %s", i+1, e)
				}
				if err := d.W.Open(); err != nil {
					return fail("store %d cannot be reopened: %v", i+1, err)
				}
				r.Logf("reopened")
				d.Stats["reopen"]++
				continue
			}
			if err := d.Step(x.Op, nil); err != nil {
				return fail("store %d: %w", i+1, err)
			}
		}
		for i, d := range ds {
			r.Logf("store %d:", i+1)
			if err := d.Observe(); err != nil {
				return fail("store %d: %w", i+1, err)
			}
		}
		n := 0
		for _, d := range ds {
			for k := range d.Stats {
				r.Label(k)
			}
			if d.Stats["create:ok"] > 0 && d.Stats["check:expired"]+d.Stats["evict"] > 0 {
				n++
			}
		}
		if n > 1 {
			r.NT()
		}
		return nil
	}))
}

// C22Mgr is how a manager is configured; -1 or nil: option not given.
type C22Mgr struct {
	M, Coder, Prov int
	Key            []byte
	Over           []C22Mgr // options given before, and overridden
	Order          int
	Twin           int // use the option values of that earlier manager
}

// C22Mgrs is a number of managers made and used in turn.
type C22Mgrs struct {
	Stores int
	Mgrs   []C22Mgr
	Ops    []C22Use
}

// C22Use lets a manager make a session, and another look at it.
type C22Use struct {
	A, B  int
	Id    []byte
	Value string
	Make  bool // make the next manager first
}

func genC22Mgr(t *rapid.T, stores int) C22Mgr {
	m := C22Mgr{Twin: -1}
	m.M = rapid.IntRange(-3, 4).Draw(t, "m")
	m.Coder = rapid.IntRange(-2, 2).Draw(t, "coder")
	m.Prov = rapid.IntRange(-2, stores-1).Draw(t, "prov")
	m.M, m.Coder, m.Prov = max(m.M, -1), max(m.Coder, -1), max(m.Prov, -1)
	switch rapid.IntRange(0, 4).Draw(t, "haskey") {
	case 0, 1:
		m.Key = rapid.SampledFrom([][]byte{[]byte("k1"), []byte("k2"), []byte("github.com/powerpuffpenguin/sessionid")}).Draw(t, "k")
	case 2:
		m.Key = rapid.SliceOfN(rapid.Byte(), 1, 100).Draw(t, "kb")
	}
	m.Order = rapid.IntRange(0, 23).Draw(t, "order")
	return m
}

func genC22Mgrs(t *rapid.T) C22Mgrs {
	c := C22Mgrs{Stores: rapid.IntRange(1, 3).Draw(t, "stores")}
	n := rapid.IntRange(2, 6).Draw(t, "n")
	for i := 0; i < n; i++ {
		m := genC22Mgr(t, c.Stores)
		if rapid.IntRange(0, 3).Draw(t, "over") == 0 {
			m.Over = []C22Mgr{genC22Mgr(t, c.Stores)}
			// what is overridden has to be given again
			o := &m.Over[0]
			if m.M < 0 {
				o.M = -1
			}
			if m.Coder < 0 {
				o.Coder = -1
			}
			if m.Prov < 0 {
				o.Prov = -1
			}
			if m.Key == nil {
				o.Key = nil
			}
		}
		if j := rapid.IntRange(0, n+3).Draw(t, "twin"); j < i {
			m = c.Mgrs[j]
			m.Twin = j
		}
		c.Mgrs = append(c.Mgrs, m)
	}
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) C22Use {
		return C22Use{A: rapid.IntRange(0, 5).Draw(t, "a"), B: rapid.IntRange(0, 5).Draw(t, "b"), Id: rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(t, "id"),
			Value: rapid.StringMatching(`[a-zA-Z0-9 ]{1,10}`).Draw(t, "value"), Make: rapid.Bool().Draw(t, "make")}
	}), 3, 20).Draw(t, "ops")
	return c
}

func (m C22Mgr) options(stores []sessionid.Provider) (out []sessionid.Option) {
	for _, o := range m.Over {
		out = append(out, o.options(stores)...)
	}
	var own []sessionid.Option
	if m.M >= 0 {
		own = append(own, sessionid.WithMethod(method(m.M)))
	}
	if m.Key != nil {
		own = append(own, sessionid.WithKey(m.Key))
	}
	if m.Coder >= 0 {
		own = append(own, sessionid.WithCoder(coder(m.Coder)))
	}
	if m.Prov >= 0 {
		own = append(own, sessionid.WithProvider(stores[m.Prov%len(stores)]))
	}
	o := m.Order
	for n := len(own); n > 0; n-- {
		out = append(out, own[o%n])
		own = append(own[:o%n:o%n], own[o%n+1:]...)
		o /= n
	}
	return
}

func (m C22Mgr) method() int { return max(m.M, 0) } // the default is HMD5
func (m C22Mgr) coder() int  { return max(m.Coder, 0) }
func (m C22Mgr) key() []byte {
	if m.Key == nil {
		return []byte("github.com/powerpuffpenguin/sessionid")
	}
	return m.Key
}

func runC22Mgrs(c C22Mgrs, r *Rec) error {
	return func() error { // in real time: the default store lives outside of any case
		var stores []sessionid.Provider
		for i := 0; i < c.Stores; i++ {
			p := sessionid.NewProvider(sessionid.WithProviderClear(0))
			defer p.Close()
			stores = append(stores, p)
		}
		var mgrs []*sessionid.LocalManager
		var options [][]sessionid.Option
		make1 := func() {
			i := len(mgrs)
			if i < len(c.Mgrs) {
				m := c.Mgrs[i]
				o := m.options(stores)
				if m.Twin >= 0 {
					o = options[m.Twin]
				}
				options = append(options, o)
				mgrs = append(mgrs, sessionid.NewManager(o...))
				r.Logf("manager %d: %+v", i, m)
			}
		}
		make1()
		var gone []func()
		defer func() {
			for _, f := range gone {
				f()
			}
		}()
		defaults := 0
		for _, u := range c.Ops {
			if u.Make {
				make1()
			}
			a, b := u.A%len(mgrs), u.B%len(mgrs)
			ma, mb := c.Mgrs[a], c.Mgrs[b]
			s, ref, e := mgrs[a].Create(bg, string(u.Id), sessionid.Pair{Key: "k", Value: u.Value})
			if e != nil {
				return fail("manager %d: create: %v", a, e)
			}
			tok := s.Token()
			gone = append(gone, func() { mgrs[a].DestroyByToken(bg, tok) })
			r.Logf("manager %d creates %q for %q", a, tok, u.Id)
			for _, x := range []string{tok, ref} {
				if !oracleValid(ma.method(), ma.key(), x) {
					return fail("manager %d (%+v) issued %q, not signed with its method and key", a, ma, x)
				}
			}
			// it is in the manager's store, encoded by its coder, and in no other
			for i, p := range stores {
				e := p.Check(bg, tok)
				if i == ma.Prov {
					if e != nil {
						return fail("the session made by manager %d is not in its store: %v", a, e)
					}
					vs, e := p.Get(bg, tok, []string{"k"})
					if e != nil || len(vs) != 1 || !vs[0].Exists || !rawIs(ma.coder(), vs[0].Bytes, u.Value) {
						return fail("manager %d (%+v) stored %v as %v, %v", a, ma, u.Value, vs, e)
					}
				} else if e != sessionid.ErrTokenNotExists {
					return fail("the session made by manager %d (store %d) in store %d: %v", a, ma.Prov, i, e)
				}
			}
			if ma.Prov < 0 {
				defaults++
			}
			// another manager accepts it if method and key are the same, and finds it if the store is the same
			s2, e := mgrs[b].Get(bg, tok)
			same := ma.method() == mb.method() && sameKey(ma.key(), mb.key(), ma.method())
			if same != (e == nil) {
				return fail("token of manager %d (%+v) at manager %d (%+v): %v", a, ma, b, mb, e)
			}
			if e != nil {
				r.Label("refused")
				continue
			}
			e = s2.Check(bg)
			if want := ma.Prov == mb.Prov; want != (e == nil) || e != nil && e != sessionid.ErrTokenNotExists {
				return fail("session of manager %d (%+v) at manager %d (%+v): %v", a, ma, b, mb, e)
			}
			if e == nil && ma.coder() == mb.coder() {
				var got string
				if e := s2.Get(bg, "k", &got); e != nil || got != u.Value {
					return fail("value %q of manager %d (%+v) at manager %d (%+v): %q, %v", u.Value, a, ma, b, mb, got, e)
				}
				if a != b {
					r.Label("shared")
				}
			}
			// logging out at another store changes nothing here
			if e := mgrs[b].Destroy(bg, string(u.Id)); e != nil {
				return fail("manager %d: destroy: %v", b, e)
			}
			e = s.Check(bg)
			if gone := ma.Prov == mb.Prov; gone != (e == sessionid.ErrTokenNotExists) || !gone && e != nil {
				return fail("session of manager %d (%+v) after logging out at manager %d (%+v): %v", a, ma, b, mb, e)
			}
		}
		if len(mgrs) > 1 && len(c.Ops) > 3 {
			r.NT()
		}
		if defaults > 0 {
			r.Label("default store")
		}
		return nil
	}()
}

// rawIs says whether b is v in the encoding of a coder.
func rawIs(cd int, b []byte, v string) bool {
	var got string
	switch cd {
	case 0:
		return gob.NewDecoder(bytes.NewReader(b)).Decode(&got) == nil && got == v
	case 1:
		return json.Unmarshal(b, &got) == nil && got == v
	}
	return strings.HasPrefix(string(b), "<string>") && xml.Unmarshal(b, &got) == nil && got == v
}

// sameKey: keys which HMAC cannot tell apart are the same.
func sameKey(a, b []byte, m int) bool {
	return oracleSig(m, a, "x") == oracleSig(m, b, "x")
}

func init() {
	reg("C22", "stores", 36000, 900000, "sessions expired or were evicted in at least two stores", genC22Stores, runC22Stores)
	reg("C22", "managers", 30000, 600000, "at least two managers, more than three uses", genC22Mgrs, runC22Mgrs)
}
