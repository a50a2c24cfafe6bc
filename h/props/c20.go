package props

import (
	"crypto"
	"errors"
	"strings"
	"testing/synctest"
	"time"

	"github.com/powerpuffpenguin/sessionid"
	"github.com/powerpuffpenguin/sessionid/cryptoer"
	"pgregory.net/rapid"
)

// RawOp is a call with arbitrary strings.
type RawOp struct {
	K          string
	A, B, C, D []byte // tokens, or id
	T          int    // which issued token to use instead of A (0: none)
	Keys       [][]byte
	Vals       [][]byte
}

// C20Case is a store and calls with arbitrary strings.
type C20Case struct {
	Cfg   Cfg
	M     int
	Coder int
	Ops   []RawOp
}

func genRaw(t *rapid.T) []byte {
	pieces := []string{".", "..", "1", "1.s1", "1.s1.g", ".g", "\x00", "*", "?", "[", "\\", "\xff\xfe", "日本", "\r\n", "$-1\r\n", " ", "a.b.c.d", "%s%n", "=", "AAAA", "k", "metadata", "-", "\"", "<x>", "{", "'"}
	switch rapid.IntRange(0, 5).Draw(t, "rk") {
	case 0:
		return rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "b")
	case 1:
		return []byte(rapid.String().Draw(t, "s"))
	case 2:
		n := rapid.SampledFrom([]int{100, 1000, 32768, 32769, 70000}).Draw(t, "n")
		return []byte(strings.Repeat(rapid.SampledFrom([]string{"a", ".", "a.", "\x00", "*"}).Draw(t, "c"), n))
	}
	return []byte(strings.Join(rapid.SliceOfN(rapid.SampledFrom(pieces), 0, 7).Draw(t, "p"), ""))
}

func genC20(t *rapid.T) C20Case {
	c := C20Case{Cfg: genCfg(t, all...), M: rapid.IntRange(0, 4).Draw(t, "m"), Coder: rapid.IntRange(0, 2).Draw(t, "coder")}
	c.Cfg.JSON = false
	raw := rapid.Custom(genRaw)
	// a token part by part, so that many are well formed
	shaped := rapid.Custom(func(t *rapid.T) []byte {
		if rapid.IntRange(0, 2).Draw(t, "shape") == 0 {
			return raw.Draw(t, "raw")
		}
		return []byte(strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"", "1", "a", "*", "\x00", "日", "s1", "g", "[", "1-web"}), 3, 3).Draw(t, "parts"), "."))
	})
	kinds := []string{"create", "create", "put", "get", "keys", "del", "check", "refresh", "refresh", "destroyTok", "destroyID", "func", "func", "manager", "bytes"}
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) RawOp {
		o := RawOp{K: rapid.SampledFrom(kinds).Draw(t, "k"), A: shaped.Draw(t, "a")}
		o.T = rapid.IntRange(0, 4).Draw(t, "t")
		switch o.K {
		case "create":
			o.B = shaped.Draw(t, "b")
		case "refresh":
			o.B, o.C, o.D = shaped.Draw(t, "b"), shaped.Draw(t, "c"), shaped.Draw(t, "d")
		}
		switch o.K {
		case "create", "put", "get", "del", "bytes":
			n := rapid.IntRange(0, 3).Draw(t, "n")
			for i := 0; i < n; i++ {
				o.Keys = append(o.Keys, raw.Draw(t, "key"))
				o.Vals = append(o.Vals, raw.Draw(t, "val"))
			}
		}
		return o
	}), 3, 30).Draw(t, "ops")
	return c
}

func coder(i int) sessionid.Coder {
	return []sessionid.Coder{sessionid.GOBCoder{}, sessionid.JSONCoder{}, sessionid.XMLCoder{}}[i%3]
}

func runC20(c C20Case, r *Rec) error {
	err := bubble(func() error {
		d, err := NewDriver(c.Cfg, r)
		if err != nil {
			return err
		}
		defer d.W.Done()
		touchy := d.M.Touchy
		d.M.Touchy = func(k string) bool { return len(k) > 32768 || touchy != nil && touchy(k) }
		mg := sessionid.NewManager(sessionid.WithProvider(d.W.P), sessionid.WithMethod(method(c.M)), sessionid.WithCoder(coder(c.Coder)))
		// two sessions which must stay as they are
		base := []COp{
			{K: "create", Tok: "1.s1.g", Ref: "1.s1r.g", Pairs: []PB{{"k", []byte("v")}}},
			{K: "create", Tok: "2.s2.g", Ref: "2.s2r.g", Pairs: []PB{{"k", []byte("w")}}},
		}
		for _, b := range base {
			if _, err := d.Do(b); err != nil {
				return err
			}
		}
		kinds := map[string]bool{}
		for _, o := range c.Ops {
			a, b := string(o.A), string(o.B)
			if o.T > 0 && o.T <= len(base) && (o.K == "put" || o.K == "get" || o.K == "del" || o.K == "refresh") {
				a = base[o.T-1].Tok
				if o.K == "refresh" && o.T == 1 {
					b = base[0].Ref
				}
			}
			var ks []string
			var ps []PB
			for i, k := range o.Keys {
				ks = append(ks, string(k))
				ps = append(ps, PB{string(k), append([]byte{}, o.Vals[i]...)})
			}
			kinds[o.K] = true
			switch o.K {
			case "func":
				if err := checkFuncs(a, c.M); err != nil {
					return err
				}
				continue
			case "bytes":
				if err := checkBytes(d, mg, base[1].Tok, o.Vals, c.Coder); err != nil {
					return err
				}
				continue
			case "manager":
				if err := checkManager(mg, a, string(o.D), c.M, base[0]); err != nil {
					return err
				}
				synctest.Wait()
				if _, err := d.Do(COp{K: "check", Tok: a}); err != nil {
					return err
				}
				continue
			}
			co := COp{K: o.K, Tok: a}
			switch o.K {
			case "create":
				co.Ref, co.Pairs = b, ps
			case "put":
				co.Pairs = ps
			case "get", "del":
				co.Keys = ks
			case "refresh":
				co.Ref, co.NTok, co.NRef = b, string(o.C), string(o.D)
			case "destroyID":
				co = COp{K: "destroyID", ID: a}
			}
			if _, err := d.Do(co); err != nil {
				return err
			}
		}
		if err := d.Observe(); err != nil {
			return err
		}
		if len(kinds) > 3 {
			r.NT()
		}
		for k := range d.Stats {
			r.Label(k)
		}
		return nil
	})
	return dropLeak(err)
}

func checkFuncs(s string, m int) error {
	id, sid, sig, e := sessionid.Split(s)
	_, ok := split(s)
	if ok != (e == nil) {
		return fail("Split(%q): %v", s, e)
	}
	if (sessionid.IsToken(s) == nil) != ok || (sessionid.IsToken("1.s.g", s) == nil) != ok || (sessionid.IsToken(s, "1.s.g") == nil) != ok {
		return fail("IsToken(%q) wrong", s)
	}
	if !ok {
		if class(e) != "invalid" || class(sessionid.IsToken(s)) != "invalid" {
			return fail("Split(%q): %v, want token invalid", s, e)
		}
		if _, e := sessionid.NewSession(s, nil, sessionid.GOBCoder{}); class(e) != "invalid" {
			return fail("NewSession(%q): %v, want token invalid", s, e)
		}
	} else {
		if j := sessionid.Join(id, sid, sig); j != s {
			return fail("Join(Split(%q)) = %q", s, j)
		}
		if strings.Contains(id, ".") || strings.Contains(sig, ".") {
			return fail("Split(%q) = %q %q %q", s, id, sid, sig)
		}
		h, e := sessionid.NewSession(s, nil, sessionid.GOBCoder{})
		if e != nil || h.ID() != id || h.Token() != s {
			return fail("NewSession(%q): %v", s, e)
		}
	}
	_, _, _ = cryptoer.Decode(method(m), []byte("key"), s)
	if b, e := cryptoer.DecodeSegment(s); e == nil {
		if b2, e := cryptoer.DecodeSegment(cryptoer.EncodeSegment(b)); e != nil || string(b2) != string(b) {
			return fail("DecodeSegment(EncodeSegment(%q)) = %q, %v", b, b2, e)
		}
	}
	if b, e := cryptoer.DecodeSegment(cryptoer.EncodeSegment([]byte(s))); e != nil || string(b) != s {
		return fail("DecodeSegment(EncodeSegment(%q)) = %q, %v", s, b, e)
	}
	for _, k := range []interface{}{nil, "key", 1, [3]byte{}, &s} {
		for _, g := range []string{s, oracleSig(m, nil, s), oracleSig(m, []byte("key"), s)} {
			if e := method(m).Verify(s, g, k); e == nil || g != s && !errors.Is(e, cryptoer.ErrInvalidKeyType) {
				return fail("Verify(%q, %q) with a key of type %T: %v", s, g, k, e)
			}
		}
		if g, e := method(m).Sign(s, k); !errors.Is(e, cryptoer.ErrInvalidKeyType) {
			return fail("Sign(%q) with a key of type %T: %q, %v", s, k, g, e)
		}
	}
	for _, h := range []crypto.Hash{0, crypto.MD4, 99} { // none of them is linked in
		no := &cryptoer.SigningMethodHMAC{Name: "no", Hash: h}
		for _, g := range []string{"", s, oracleSig(m, []byte("key"), s)} {
			if e := no.Verify(s, g, []byte("key")); e == nil {
				return fail("Verify(%q, %q) with a hash function that is not there", s, g)
			}
		}
		if g, e := no.Sign(s, []byte("key")); !errors.Is(e, cryptoer.ErrHashUnavailable) {
			return fail("Sign(%q) with a hash function that is not there: %q, %v", s, g, e)
		}
	}
	if x := cryptoer.GetSigningMethod(s); x != nil && x.Alg() != s {
		return fail("GetSigningMethod(%q) = %s", s, x.Alg())
	}
	return nil
}

// checkManager offers a string nobody signed to a manager.
func checkManager(mg *sessionid.LocalManager, s, s2 string, m int, b COp) error {
	if _, ok := split(s); !ok {
		if e := mg.DestroyByToken(bg, s); class(e) != "invalid" {
			return fail("DestroyByToken(%q): %v", s, e)
		}
		if _, e := mg.Get(bg, s); class(e) != "invalid" {
			return fail("Get(%q): %v", s, e)
		}
		if _, _, e := mg.Refresh(bg, s, s2); class(e) != "invalid" {
			return fail("Refresh(%q): %v", s, e)
		}
	}
	if _, e := mg.Get(bg, s); e == nil {
		return fail("Get(%q) accepted", s)
	}
	if _, _, e := mg.Refresh(bg, s, s2); e == nil {
		return fail("Refresh(%q, %q) accepted", s, s2)
	}
	if _, _, e := mg.Refresh(bg, b.Tok, s); e == nil {
		return fail("Refresh(%q, %q) accepted", b.Tok, s)
	}
	if e := mg.Destroy(bg, s+"?"); e != nil {
		return fail("Destroy(%q): %v", s, e)
	}
	return nil
}

// checkBytes stores arbitrary bytes as values and reads them through a typed handle.
func checkBytes(d *Driver, mg *sessionid.LocalManager, tok string, vals [][]byte, c int) error {
	for _, v := range vals {
		if len(v) > 2000 {
			v = v[:2000]
		}
		if _, err := d.Do(COp{K: "put", Tok: tok, Pairs: []PB{{"raw", append([]byte{}, v...)}}}); err != nil {
			return err
		}
		if d.M.Status(tok, time.Now()) != "ok" {
			continue
		}
		for _, dst := range []func() interface{}{
			func() interface{} { return new(int) }, func() interface{} { return new(string) }, func() interface{} { return new([]byte) },
			func() interface{} { return new(map[string]int) }, func() interface{} { return new(struct{ A []string }) },
		} {
			h, e := sessionid.NewSession(tok, d.W.P, coder(c))
			if e != nil {
				return fail("NewSession: %v", e)
			}
			want := coder(c).Decode(v, dst())
			for i := 0; i < 2; i++ {
				if e := h.Get(bg, "raw", dst()); (e == nil) != (want == nil) {
					return fail("Get of %q into %T: %v, decoding gives %v", v, dst(), e, want)
				}
			}
		}
	}
	return nil
}

func init() {
	reg("C20", "arbitrary", 36000, 1000000, "more than three kinds of call got arbitrary strings", genC20, runC20)
}
