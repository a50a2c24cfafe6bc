package props

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"testing/synctest"
	"time"

	"github.com/powerpuffpenguin/sessionid"
	"pgregory.net/rapid"
)

var errInjected = errors.New("injected failure")

// flaky is a provider whose next call may fail, and which remembers what it was given.
type flaky struct {
	sessionid.Provider
	mode  string // "", before, after, short, panic-free modes only
	puts  int
	calls int
}

func (f *flaky) take() string { m := f.mode; f.mode = ""; f.calls++; return m }

func (f *flaky) Put(ctx context.Context, tok string, p []sessionid.PairBytes) error {
	m := f.take()
	if m == "before" {
		return errInjected
	}
	e := f.Provider.Put(ctx, tok, p)
	if e == nil {
		f.puts++
	}
	if m == "after" && e == nil {
		return errInjected
	}
	return e
}

func (f *flaky) Create(ctx context.Context, a, r string, p []sessionid.PairBytes) error {
	m := f.take()
	if m == "before" {
		return errInjected
	}
	e := f.Provider.Create(ctx, a, r, p)
	if e == nil {
		f.puts++
	}
	return e
}

func (f *flaky) Get(ctx context.Context, tok string, ks []string) ([]sessionid.Value, error) {
	m := f.take()
	if m == "before" {
		return nil, errInjected
	}
	v, e := f.Provider.Get(ctx, tok, ks)
	if e == nil && m == "after" {
		return nil, errInjected
	}
	if e == nil && m == "short" && len(v) > 0 {
		return v[:len(v)-1], nil
	}
	return v, e
}

func (f *flaky) Delete(ctx context.Context, tok string, ks []string) error {
	m := f.take()
	if m == "before" {
		return errInjected
	}
	e := f.Provider.Delete(ctx, tok, ks)
	if m == "after" && e == nil {
		return errInjected
	}
	return e
}

// HOp is a step with a session handle.
type HOp struct {
	K string
	V int
	I int     // key
	D VSpec   // destination
	S []VSpec // values put
	G []int   // keys
}

// C17Case is a history of one handle, with others touching the same session.
type C17Case struct {
	Cfg   Cfg
	Coder int
	Init  []VSpec // values under the first keys
	Ops   []HOp
}

func genC17(t *rapid.T) C17Case {
	c := C17Case{Cfg: Cfg{Kind: rapid.SampledFrom([]string{"memory", "memory", "bolt", "redis"}).Draw(t, "kind"), A: 10000, R: 20000}}
	c.Coder = rapid.IntRange(0, nCoders-1).Draw(t, "coder")
	val := func(t *rapid.T) VSpec {
		s := genVSpec(t, c.Coder)
		if (s.T == 1 || s.T == 5) && rapid.IntRange(0, 39).Draw(t, "long") == 39 {
			s.N += rapid.SampledFrom([]int{1000, 4096, 9000, 40000, 1 << 16, 300000, 1 << 20}).Draw(t, "vlen")
		}
		return s
	}
	c.Init = rapid.SliceOfN(rapid.Custom(val), 0, 4).Draw(t, "init")
	key := rapid.Custom(func(t *rapid.T) int { return rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 3, 5}).Draw(t, "key") })
	keys := func() []int { return rapid.SliceOfN(key, 0, 5).Draw(t, "keys") }
	bag := strings.Fields("put put put put get get get get get get get get get get get get prepare prepare prepare del del del xput xput xdel keys check fault fault bad bad end")
	n := rapid.IntRange(5, 40).Draw(t, "n")
	last := map[int]VSpec{}
	for i, s := range c.Init {
		last[i] = s
	}
	for i := 0; i < n; i++ {
		o := HOp{K: rapid.SampledFrom(bag).Draw(t, "k")}
		switch o.K {
		case "put", "xput":
			o.G = rapid.SliceOfN(key, 0, 3).Draw(t, "pk")
			for _, k := range o.G {
				s := val(t)
				o.S = append(o.S, s)
				last[k] = s
			}
		case "get":
			o.I = key.Draw(t, "gk")
			o.D = VSpec{last[o.I].T, 0}
			switch rapid.IntRange(0, 7).Draw(t, "dest") {
			case 0: // any type
				o.D = VSpec{rapid.IntRange(0, nTypes-1).Draw(t, "dt"), rapid.IntRange(0, 9).Draw(t, "dn")}
			case 1, 2: // a type of the same kind
				o.D.T = sameKind(o.D.T, rapid.IntRange(0, 5).Draw(t, "dk"))
			case 3, 4: // not empty
				o.D.N = rapid.IntRange(1, 9).Draw(t, "dn")
			}
		case "prepare":
			o.G = keys()
			if rapid.IntRange(0, 99).Draw(t, "wide") == 99 { // those, and very many others
				k0, n := rapid.IntRange(0, 9).Draw(t, "from"), rapid.SampledFrom([]int{70, 130, 260, 520, 1030, 1100}).Draw(t, "n")
				for i := 0; i < n; i++ {
					o.G = append(o.G, k0+i)
				}
			}
		case "del":
			o.G = keys()
			o.V = rapid.IntRange(0, 5).Draw(t, "v")
		case "xdel":
			o.G = keys()
		case "fault":
			o.V = rapid.IntRange(0, 2).Draw(t, "v")
		case "bad":
			o.I = key.Draw(t, "gk")
			o.V = rapid.IntRange(0, 9).Draw(t, "v")
		case "end":
			if rapid.IntRange(0, 5).Draw(t, "really") != 0 {
				o.K = "check"
			}
			o.V = rapid.IntRange(0, 2).Draw(t, "v")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// sameKind gives a type of the same reflect kind.
func sameKind(t, i int) int {
	for _, g := range [][]int{{0, 8}, {1, 14}, {2, 10, 15, 5}, {3, 16, 22}, {4, 9, 17, 19, 12, 21}, {13, 23, 24}} {
		for _, x := range g {
			if x == t%nTypes {
				return g[i%len(g)]
			}
		}
	}
	return t
}

// hstate is what the handle may hold of one key.
type hstate struct {
	opts  []string // bytes it may read
	none  bool     // it may read that there is no such key
	fresh bool     // it may read what is stored at that time
}

func runC17(c C17Case, r *Rec) error {
	err := bubble(func() error {
		w, err := NewWorld(c.Cfg)
		if err != nil {
			return err
		}
		defer w.Done()
		r.Label("kind:" + c.Cfg.Kind)
		const tok, other = "1.s1.g", "1.s2.g"
		cd := typedCoder(c.Coder)
		f := &flaky{Provider: w.P}
		r.Logf("store %s, coder %T", c.Cfg.Kind, cd)
		enc := func(s VSpec) (b []byte, e error) {
			return cd.Encode(s.value())
		}
		var init []sessionid.PairBytes
		for i, s := range c.Init {
			if b, e := enc(s); e == nil {
				init = append(init, sessionid.PairBytes{Key: keyName(i), Value: b})
			}
		}
		for _, t := range []string{tok, other} {
			if e := w.P.Create(bg, t, t+"r", pairs2(init)); e != nil {
				return fail("create: %v", e)
			}
		}
		synctest.Wait()
		h, e := sessionid.NewSession(tok, f, cd)
		if e != nil {
			return fail("NewSession: %v", e)
		}
		if h.ID() != "1" || h.Token() != tok {
			return fail("handle names %q %q", h.ID(), h.Token())
		}
		alive := true
		// what is stored now
		actual := func(k string) (string, bool, error) {
			vs, e := w.P.Get(bg, tok, []string{k})
			synctest.Wait()
			if e != nil {
				return "", false, e
			}
			if len(vs) != 1 {
				return "", false, fmt.Errorf("%d values", len(vs))
			}
			return string(vs[0].Bytes), vs[0].Exists, nil
		}
		st := map[string]*hstate{}
		state := func(k string) *hstate {
			if st[k] == nil {
				st[k] = &hstate{fresh: true}
			}
			return st[k]
		}
		var results []interface{} // everything read so far, scrambled again and again
		rereads, okGets := 0, 0
		for _, o := range c.Ops {
			mode := f.mode
			calls := f.calls
			switch o.K {
			case "fault":
				f.mode = []string{"before", "after", "short"}[o.V%3]
				r.Logf("the next call of the provider fails: %s", f.mode)
				continue
			case "end":
				switch o.V {
				case 0:
					if e := h.Destroy(bg); e != nil {
						return fail("Session.Destroy: %v", e)
					}
				case 1:
					time.Sleep(11 * time.Second)
				default:
					time.Sleep(21 * time.Second)
				}
				alive = false
				r.Logf("the session ends")
			case "check":
				e := h.Check(bg)
				r.Logf("check -> %v", e)
				if alive != (e == nil) {
					return fail("Session.Check: %v, session live: %v", e, alive)
				}
			case "keys":
				got, e := h.Keys(bg)
				want, we := w.P.Keys(bg, tok)
				r.Logf("keys -> %q %v", got, e)
				if (e == nil) != (we == nil) || len(got) != len(want) {
					return fail("Session.Keys: %q %v, the store says %q %v", got, e, want, we)
				}
				ws := map[string]bool{}
				for _, k := range want {
					ws[k] = true
				}
				for _, k := range got {
					if !ws[k] {
						return fail("Session.Keys: %q, the store says %q", got, want)
					}
				}
			case "put":
				var ps []sessionid.Pair
				var bs []string
				encErr := false
				var vals []interface{}
				for i, k := range o.G {
					v := o.S[i].value()
					vals = append(vals, v)
					ps = append(ps, sessionid.Pair{Key: keyName(k), Value: v})
					b, e := enc(o.S[i])
					if e != nil {
						encErr = true
					}
					bs = append(bs, string(b))
				}
				puts := f.puts
				e := h.Put(bg, ps...)
				for _, v := range vals {
					scramble(reflect.ValueOf(&v))
					scramblePtr(v)
				}
				r.Logf("put %v -> %v", ps0(o), e)
				if encErr {
					f.mode = ""
					if e == nil {
						return fail("put of a value which cannot be encoded succeeded")
					}
					if f.puts != puts {
						return fail("put stored something although encoding failed")
					}
					continue
				}
				if len(ps) == 0 {
					f.mode = ""
					if e != nil && alive && mode == "" {
						return fail("put of nothing: %v", e)
					}
					continue
				}
				failed := mode == "before" || mode == "after" || !alive
				if mode == "short" {
					f.mode = ""
				}
				if failed != (e != nil) {
					return fail("put: %v, want failure: %v", e, failed)
				}
				if e == nil {
					for i, p := range ps {
						st[p.Key] = &hstate{opts: []string{bs[i]}}
					}
				}
			case "xput":
				var ps []sessionid.PairBytes
				for i, k := range o.G {
					if b, e := enc(o.S[i]); e == nil {
						ps = append(ps, sessionid.PairBytes{Key: keyName(k), Value: b})
					}
				}
				e := w.P.Put(bg, tok, ps)
				r.Logf("somebody else puts %v -> %v", ps0(o), e)
			case "xdel":
				e := w.P.Delete(bg, tok, keyNames(o.G))
				r.Logf("somebody else deletes %q -> %v", keyNames(o.G), e)
			case "del":
				t := tok
				if o.V == 5 {
					t = other
				}
				e := h.Delete(bg, t, keyNames(o.G)...)
				r.Logf("delete %s %q -> %v", t, keyNames(o.G), e)
				called := f.calls > calls
				failed := called && (mode == "before" || mode == "after") || !alive && (len(o.G) > 0 || called) && (t == tok || e != nil)
				if mode == "short" || !called {
					f.mode = ""
				}
				if failed != (e != nil) {
					return fail("delete: %v, want failure: %v", e, failed)
				}
				if e == nil && t == tok {
					for _, k := range keyNames(o.G) {
						st[k] = &hstate{none: true, fresh: true}
					}
				}
			case "prepare":
				// what could be read now
				for _, k := range keyNames(o.G) {
					state(k)
				}
				type now struct {
					b   string
					has bool
				}
				cur := map[string]now{}
				for _, k := range keyNames(o.G) {
					if b, has, e := actual(k); e == nil {
						cur[k] = now{b, has}
					}
				}
				e := h.Prepare(bg, keyNames(o.G)...)
				called := f.calls > calls
				r.Logf("prepare %q -> %v", keyNames(o.G), e)
				if !called {
					f.mode = ""
				}
				if called && mode != "" && e == nil && !(mode == "short" && !alive) {
					return fail("prepare succeeded although the provider failed")
				}
				if e != nil && alive && !(called && mode != "") {
					return fail("prepare: %v", e)
				}
				if e == nil && alive {
					for k, n := range cur {
						s := state(k)
						if !s.fresh {
							continue
						}
						if n.has {
							s.opts = append(s.opts, n.b)
							s.fresh = !called
						} else {
							s.none = true
							s.fresh = !called
						}
					}
				}
			case "bad":
				k := keyName(o.I)
				var e error
				x := 7
				px := &x
				var np *int
				name := ""
				switch o.V {
				case 0:
					name, e = "nil", h.Get(bg, k, nil)
				case 1:
					name, e = "int", h.Get(bg, k, 5)
				case 2:
					name, e = "*(*int)", h.Get(bg, k, &px)
				case 3:
					name, e = "(*int)(nil)", h.Get(bg, k, np)
				case 4:
					name, e = "map", h.Get(bg, k, map[string]int{})
				case 5:
					name, e = "slice", h.Get(bg, k, []int{1})
				case 6:
					var pp **int
					name, e = "(**int)(nil)", h.Get(bg, k, pp)
				case 7:
					name, e = "func", h.Get(bg, k, func() {})
				case 8:
					name, e = "struct", h.Get(bg, k, S0{})
				case 9:
					ppx := &px
					name, e = "*(**int)", h.Get(bg, k, &ppx)
				}
				r.Logf("get %q into %s -> %v", k, name, e)
				if e == nil && o.V != 6 {
					return fail("get %q into %s succeeded", k, name)
				}
				if x != 7 {
					return fail("get %q into %s changed the value behind the pointers", k, name)
				}
				if f.calls > calls { // it may have looked the key up
					s := state(k)
					if b, has, e := actual(k); e == nil && s.fresh {
						if has {
							s.opts = append(s.opts, b)
						} else {
							s.none = true
						}
					}
				}
				if mode != "" && f.calls == calls {
					f.mode = ""
				}
			case "get":
				k := keyName(o.I)
				s := state(k)
				b, has, ae := actual(k)
				dst := o.D.dest()
				e := h.Get(bg, k, dst)
				called := f.calls > calls
				if !called {
					f.mode = ""
				}
				r.Logf("get %q into %T (content %d) -> %s %v", k, dst, o.D.N, show(dst), e)
				results = append(results, dst)
				r.Label("get:" + class(e))
				if called && mode != "" && e != nil && (errors.Is(e, errInjected) || mode == "short") {
					break // nothing changed
				}
				if called && (mode == "before" || mode == "after") && e == nil && len(s.opts) == 0 && !s.none {
					return fail("get %q: succeeded although the provider failed and nothing was read before", k)
				}
				var keep []string
				match := false
				for _, x := range s.opts {
					if matches(cd, []byte(x), o.D, dst, e) {
						keep = append(keep, x)
						match = true
					}
				}
				fromStore := false
				if s.fresh {
					switch {
					case ae != nil:
						if e != nil && class(e) == class(ae) {
							match = true
							keep = append([]string{}, s.opts...)
						}
					case !has:
					default:
						if matches(cd, []byte(b), o.D, dst, e) {
							fromStore = true
						}
					}
				}
				none := (s.none || s.fresh && ae == nil && !has) && errors.Is(e, sessionid.ErrKeyNotExists)
				if !alive && e != nil && (class(e) == "expired" || class(e) == "notexist") {
					break // the session has ended
				}
				if !match && !fromStore && !none {
					want := "nothing"
					for _, x := range s.opts {
						y, we := decodeInto(cd, []byte(x), o.D)
						want += fmt.Sprintf(" or %s %v", show(y), we)
					}
					if s.fresh && has {
						y, we := decodeInto(cd, []byte(b), o.D)
						want += fmt.Sprintf(" or %s %v", show(y), we)
					}
					if s.none || s.fresh && !has {
						want += " or no such key"
					}
					return fail("get %q into %T: got %s %v, want %s", k, dst, show(dst), e, want)
				}
				if ae != nil && s.fresh && e != nil {
					break
				}
				if e == nil {
					okGets++
					if match {
						rereads++
					}
				}
				if none && !match && !fromStore {
					s.opts, s.none, s.fresh = nil, true, false
					break
				}
				if fromStore {
					keep = append(keep, b)
				}
				// a failed decoding need not have cached anything
				st[k] = &hstate{opts: keep, fresh: s.fresh && e != nil, none: s.none && none}
			}
			synctest.Wait()
			for _, x := range results {
				scramblePtr(x)
			}
		}
		// what it holds must not have been disturbed by what was done to the results
		if rereads >= 2 && okGets >= 3 {
			r.NT()
		}
		return nil
	})
	return dropLeak(err)
}

func pairs2(p []sessionid.PairBytes) (out []sessionid.PairBytes) {
	for _, x := range p {
		out = append(out, sessionid.PairBytes{Key: x.Key, Value: cloneB(x.Value)})
	}
	return
}

func ps0(o HOp) (out []string) {
	for i, k := range o.G {
		out = append(out, fmt.Sprintf("%q=%s", keyName(k), show(o.S[i].value())))
	}
	return
}

func scramblePtr(x interface{}) {
	v := reflect.ValueOf(x)
	if v.IsValid() {
		scramble(v)
	}
}

func init() {
	reg("C17", "handle", 180000, 6000000, "at least three successful gets, two of them of something the handle already held", genC17, runC17)
}
