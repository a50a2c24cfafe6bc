package props

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"reflect"
	"slices"
	"sync"
	"testing/synctest"

	"github.com/powerpuffpenguin/sessionid"
	"pgregory.net/rapid"
)

// plain is what the named encoding does, without the package under test.
type plain int

func (p plain) Encode(v interface{}) ([]byte, error) {
	switch int(p) % nCoders {
	case 0:
		var b bytes.Buffer
		e := gob.NewEncoder(&b).Encode(v)
		return b.Bytes(), e
	case 1:
		return json.Marshal(v)
	case 2:
		return xml.Marshal(v)
	}
	return userCoder{}.Encode(v)
}

func (p plain) Decode(b []byte, v interface{}) error {
	switch int(p) % nCoders {
	case 0:
		return gob.NewDecoder(bytes.NewReader(b)).Decode(v)
	case 1:
		return json.Unmarshal(b, v)
	case 2:
		return xml.Unmarshal(b, v)
	}
	return userCoder{}.Decode(b, v)
}

// round is the value after encoding and decoding, as a destination.
func (p plain) round(s VSpec) (interface{}, error) {
	b, e := p.Encode(s.value())
	if e != nil {
		return nil, e
	}
	d := VSpec{s.T, 0}.dest()
	return d, p.Decode(b, d)
}

// TPut is one call storing typed values.
type TPut struct {
	Keys []int
	S    []VSpec
}

// C18Case stores typed values and reads them everywhere.
type C18Case struct {
	Cfg   Cfg
	Coder int
	M     int
	Init  TPut
	Ops   []TPut
	After int // 0: nothing, 1: refresh, 2: reopen
}

func genC18(t *rapid.T) C18Case {
	c := C18Case{Cfg: Cfg{Kind: rapid.SampledFrom(all).Draw(t, "kind")}, Coder: rapid.IntRange(0, nCoders-1).Draw(t, "coder"), M: rapid.IntRange(0, 4).Draw(t, "m")}
	put := func(t *rapid.T) (p TPut) {
		lo, hi, keys := 0, 5, []int{0, 1, 2, 3, 5, 7}
		if rapid.IntRange(0, 11).Draw(t, "many") == 11 {
			lo, hi = 10, 140
			for i := 30; i < 180; i++ {
				keys = append(keys, i)
			}
		}
		for i, n := 0, rapid.IntRange(lo, hi).Draw(t, "n"); i < n; i++ {
			s := genVSpec(t, c.Coder)
			if (s.T == 1 || s.T == 5) && rapid.IntRange(0, 3).Draw(t, "long") == 0 {
				s.N = rapid.SampledFrom([]int{1000, 4000, 9000, 40000}).Draw(t, "vlen") + s.N
				if rapid.IntRange(0, 99).Draw(t, "vast") == 99 {
					s.N = rapid.SampledFrom([]int{1 << 16, 1 << 17, 1 << 20, 1 << 21}).Draw(t, "vlen") + s.N%64 - 32
				}
			}
			p.S = append(p.S, s)
			// bolt has no empty keys, redis reserves one
			p.Keys = append(p.Keys, rapid.SampledFrom(keys).Draw(t, "key"))
		}
		return
	}
	c.Init = put(t)
	c.Ops = rapid.SliceOfN(rapid.Custom(put), 0, 4).Draw(t, "ops")
	c.After = rapid.IntRange(0, 2).Draw(t, "after")
	return c
}

func runC18(c C18Case, r *Rec) error {
	err := bubble(func() error {
		w, err := NewWorld(c.Cfg)
		if err != nil {
			return err
		}
		defer w.Done()
		cd := typedCoder(c.Coder)
		std := plain(c.Coder)
		r.Label(fmt.Sprintf("%s %T", c.Cfg.Kind, cd))
		f := &flaky{Provider: w.P}
		mg := sessionid.NewManager(sessionid.WithProvider(f), sessionid.WithCoder(cd), sessionid.WithMethod(method(c.M)), sessionid.WithKey([]byte("key")))
		want := map[string]interface{}{}
		spec := map[string]VSpec{}
		// try says whether all can be encoded, and what is read back
		try := func(p TPut) (ps []sessionid.Pair, ok bool, vals []interface{}) {
			ok = true
			for i, s := range p.S {
				v := s.value()
				vals = append(vals, v)
				ps = append(ps, sessionid.Pair{Key: keyName(p.Keys[i]), Value: v})
				if _, e := std.Encode(s.value()); e != nil {
					ok = false
				}
			}
			return
		}
		apply := func(p TPut) {
			for i, s := range p.S {
				k := keyName(p.Keys[i])
				spec[k] = s
				x, e := std.round(s)
				if e != nil {
					x = nil // the encoding cannot read it back
				}
				want[k] = x
			}
		}
		keys := []int{0, 1, 2, 3, 5, 7}
		for _, p := range append([]TPut{c.Init}, c.Ops...) {
			for _, k := range p.Keys {
				if !slices.Contains(keys, k) {
					keys = append(keys, k)
				}
			}
		}
		failedPut, checked := 0, 0
		init := c.Init
		var h *sessionid.Session
		var ref string
		for {
			ps, ok, vals := try(init)
			var e error
			h, ref, e = mg.Create(bg, "user", ps...)
			synctest.Wait()
			r.Logf("login with %v -> %v", showPut(init), e)
			if ok != (e == nil) {
				return fail("Create with %v: %v", showPut(init), e)
			}
			if ok {
				for _, v := range vals {
					scramblePtr(v)
				}
				apply(init)
				break
			}
			failedPut++
			if f.puts != 0 {
				return fail("Create with %v failed (%v), but created a session", showPut(init), e)
			}
			if h != nil {
				return fail("Create with %v failed, but returned a session", showPut(init))
			}
			init = TPut{} // without values
		}
		tok := h.Token()
		check := func(h *sessionid.Session, name string) error {
			for _, i := range keys {
				k := keyName(i)
				s, has := spec[k]
				if has && want[k] == nil {
					continue
				}
				d := s
				d.N = 0
				dst := d.dest()
				e := h.Get(bg, k, dst)
				synctest.Wait()
				if !has {
					if !errors.Is(e, sessionid.ErrKeyNotExists) {
						return fail("%s: get %q, which was never stored: %v", name, k, e)
					}
					continue
				}
				if e != nil || !sameValue(dst, want[k]) {
					return fail("%s: get %q: %s %v, stored %s", name, k, show(dst), e, show(s.value()))
				}
				checked++
			}
			return nil
		}
		others := func(name string) error {
			h2, e := mg.Get(bg, tok)
			if e != nil {
				return fail("%s: Get: %v", name, e)
			}
			if err := check(h2, name+", handle from Get"); err != nil {
				return err
			}
			h3, e := sessionid.NewSession(tok, w.P, typedCoder(c.Coder))
			if e != nil {
				return fail("NewSession: %v", e)
			}
			return check(h3, name+", new handle")
		}
		// the handle login returned is kept and reads last, another one is used for each put
		if err := others("after login"); err != nil {
			return err
		}
		hp, e := mg.Get(bg, tok)
		if e != nil {
			return fail("Get: %v", e)
		}
		for n, p := range c.Ops {
			ps, ok, vals := try(p)
			puts := f.puts
			e := hp.Put(bg, ps...)
			synctest.Wait()
			r.Logf("put %v -> %v", showPut(p), e)
			if ok != (e == nil) {
				return fail("put %v: %v", showPut(p), e)
			}
			for _, v := range vals {
				scramblePtr(v)
			}
			if ok {
				apply(p)
			} else {
				failedPut++
				if f.puts != puts {
					return fail("put %v failed, but stored something", showPut(p))
				}
			}
			if err := others(fmt.Sprintf("after put %d", n+1)); err != nil {
				return err
			}
			if n%2 == 1 {
				if err := check(hp, "the handle which put"); err != nil {
					return err
				}
			}
		}
		switch {
		case c.After == 1:
			na, _, e := mg.Refresh(bg, tok, ref)
			synctest.Wait()
			if e != nil {
				return fail("Refresh: %v", e)
			}
			tok = na
			r.Logf("refreshed")
			return others("after refresh")
		case c.After == 2 && c.Cfg.Kind != "memory":
			if e := w.P.Close(); e != nil {
				return fail("Close: %v", e)
			}
			w.closeDB()
			synctest.Wait()
			if e := w.Open(); e != nil {
				return fail("reopen: %v", e)
			}
			f.Provider = w.P
			r.Logf("reopened")
			if err := others("after reopening"); err != nil {
				return err
			}
		}
		if err := check(h, "the handle login returned"); err != nil {
			return err
		}
		if checked > 3 {
			r.NT()
		}
		if failedPut > 0 {
			r.Label("encoding failed")
		}
		return nil
	})
	return dropLeak(err)
}

func showPut(p TPut) (out []string) {
	for i, s := range p.S {
		out = append(out, fmt.Sprintf("%q=%s", keyName(p.Keys[i]), show(s.value())))
	}
	return
}

// C18Coder uses a coder directly, from several goroutines.
type C18Coder struct {
	Coder int
	S     [][]VSpec
}

func genC18Coder(t *rapid.T) C18Coder {
	c := C18Coder{Coder: rapid.IntRange(0, 2).Draw(t, "coder")}
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "n"); i < n; i++ {
		c.S = append(c.S, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) VSpec { return genVSpec(t, c.Coder) }), 1, 8).Draw(t, "s"))
	}
	return c
}

func runC18Coder(c C18Coder, r *Rec) error {
	errs := make([]error, len(c.S))
	done := make([]int, len(c.S))
	var wg sync.WaitGroup
	for i, ss := range c.S {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = protect(func() error { return codes(c.Coder, ss, &done[i]) })
		}()
	}
	wg.Wait()
	for i, e := range errs {
		if e != nil {
			return e
		}
		if done[i] > 1 && len(c.S) > 1 {
			r.NT()
		}
	}
	r.Label(fmt.Sprintf("%T", coder(c.Coder)))
	return nil
}

func codes(n int, ss []VSpec, done *int) error {
	cd, std := coder(n), plain(n)
	enc := make([][]byte, len(ss))
	keep := make([]string, len(ss))
	for i, s := range ss {
		b, e := cd.Encode(s.value())
		_, we := std.Encode(s.value())
		if (e == nil) != (we == nil) {
			return fail("%T: Encode(%s): %v, the encoding itself: %v", cd, show(s.value()), e, we)
		}
		if e != nil && len(b) != 0 {
			return fail("%T: Encode(%s): bytes along with %v", cd, show(s.value()), e)
		}
		enc[i], keep[i] = b, string(b)
	}
	for i, s := range ss {
		if string(enc[i]) != keep[i] {
			return fail("%T: encoding later values changed the bytes of %s", cd, show(s.value()))
		}
		want, we := std.round(s)
		if we != nil {
			continue
		}
		for j := 0; j < 2; j++ {
			in := enc[i]
			dst := VSpec{s.T, 0}.dest()
			if e := cd.Decode(in, dst); e != nil || !sameValue(dst, want) {
				return fail("%T: %s is decoded as %s %v", cd, show(s.value()), show(dst), e)
			}
			if string(in) != keep[i] {
				return fail("%T: decoding changed its input", cd)
			}
			scramble(reflect.ValueOf(dst)) // must not reach the bytes
		}
		*done++
	}
	return nil
}

func init() {
	reg("C18", "stored", 48000, 1600000, "more than three stored values were read back equal", genC18, runC18)
	reg("C18", "coder", 30000, 800000, "at least two goroutines each read back two values", genC18Coder, runC18Coder)
	reg("C18", "race", 3000, 80000, "at least two goroutines each read back two values", genC18Coder, runC18Coder).Race = true
}
