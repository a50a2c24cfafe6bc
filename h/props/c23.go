package props

import (
	"encoding/base64"
	"errors"
	"fmt"
	"hash/fnv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/powerpuffpenguin/sessionid"
	"github.com/powerpuffpenguin/sessionid/cryptoer"
	"pgregory.net/rapid"
	"verif.local/h/sched"
)

// C23: any signing method can be used, and is found under its name.

// ownMethod is a signing method of a user.
type ownMethod struct {
	name         string
	style        int
	refuse, fail bool     // next calls
	seen         []string // what it was given
	bad          string
	key          []byte
}

var errRefused = errors.New("refused by the user's method")

func (m *ownMethod) Alg() string { return m.name }

// sig is the signature of a text: any string without a dot.
func (m *ownMethod) sig(text string) string {
	h := fnv.New64a()
	h.Write(m.key)
	h.Write([]byte{0})
	h.Write([]byte(text))
	s := fmt.Sprintf("%x", h.Sum64())
	switch m.style {
	case 1:
		return s + "=+/ \n\x00é"
	case 5:
		return s + "=="
	case 6:
		return " \t" + strings.ToUpper(s) + "\r\n"
	case 7:
		return "=" + s + "+/"
	case 8:
		return "\"<&>%zz" + s + "日本"
	case 2:
		return strings.Repeat(s, 40)
	case 3:
		return s[:1]
	case 4:
		return "" // no signature at all
	}
	return s
}

func (m *ownMethod) given(op, text string, key interface{}) {
	b, ok := key.([]byte)
	if !ok || string(b) != string(m.key) {
		m.bad = fmt.Sprintf("%s of %q got the key %v, want %q", op, text, key, m.key)
	}
	m.seen = append(m.seen, op+" "+text)
}

func (m *ownMethod) Sign(text string, key interface{}) (string, error) {
	m.given("sign", text, key)
	if m.fail {
		return "", errRefused
	}
	return m.sig(text), nil
}

func (m *ownMethod) Verify(text, sig string, key interface{}) error {
	m.given("verify", text, key)
	if m.refuse || sig != m.sig(text) {
		return errRefused
	}
	return nil
}

// SOp is a step with a user's signing method.
type SOp struct {
	K    string
	S, I int
	Mut  Mut
	Ref  bool
	Off  bool // the method refuses or fails meanwhile
}

// C23Own is a history with one or two methods of a user.
type C23Own struct {
	Name  string
	Style int
	Key   []byte
	IDs   [][]byte
	Ops   []SOp
}

var ownNames = []string{"OWN", "", "none", "None", "NONE", "HS256", "RS256", "HMAC", "HMD5", "HMACMD5", "HMACSHA256", "SHA256", "MD5", "plain", "test", "default", "\xff", "日本"}

func genC23Own(t *rapid.T) C23Own {
	c := C23Own{Name: rapid.OneOf(rapid.SampledFrom(ownNames), rapid.String()).Draw(t, "name"), Style: rapid.IntRange(0, 8).Draw(t, "style"), Key: genBytes(80).Draw(t, "key"), IDs: rapid.SliceOfN(genBytes(20), 1, 3).Draw(t, "ids")}
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) SOp {
		return SOp{K: rapid.SampledFrom([]string{"create", "create", "get", "get", "refresh", "refresh", "tokens", "encode"}).Draw(t, "k"),
			S: rapid.IntRange(0, 5).Draw(t, "s"), I: rapid.IntRange(0, 2).Draw(t, "i"), Ref: rapid.Bool().Draw(t, "ref"), Off: rapid.IntRange(0, 4).Draw(t, "off") == 0,
			Mut: Mut{K: rapid.SampledFrom([]int{0, 0, 0, 1, 3, 4, 5, 6, 7, 10, 11, 12, 13, 20, 22, 24}).Draw(t, "mk"), S: rapid.IntRange(0, 5).Draw(t, "ms"), S2: rapid.IntRange(0, 5).Draw(t, "ms2"),
				P: rapid.IntRange(0, 200).Draw(t, "p"), C: rapid.Byte().Draw(t, "c"), Ref: rapid.Bool().Draw(t, "mref")}}
	}), 4, 25).Draw(t, "ops")
	return c
}

func runC23Own(c C23Own, r *Rec) error {
	return dropLeak(bubble(func() error {
		m := &ownMethod{name: c.Name, style: c.Style, key: c.Key}
		p := sessionid.NewProvider(sessionid.WithProviderClear(0))
		defer p.Close()
		mg := sessionid.NewManager(sessionid.WithProvider(p), sessionid.WithMethod(m), sessionid.WithKey(append([]byte{}, c.Key...)), sessionid.WithCoder(sessionid.JSONCoder{}))
		valid := func(s string) bool {
			i := strings.LastIndexByte(s, '.')
			return i >= 0 && strings.IndexByte(s[:i], '.') >= 0 && s[i+1:] == m.sig(s[:i])
		}
		var toks []issuedTok
		refused, accepted := 0, 0
		for n, o := range c.Ops {
			m.refuse, m.fail = false, false
			if len(toks) == 0 && (o.K == "get" || o.K == "refresh") {
				o.K = "create"
			}
			id := string(c.IDs[o.I%len(c.IDs)])
			eid := base64.RawURLEncoding.EncodeToString([]byte(id))
			from := len(m.seen)
			switch o.K {
			case "create":
				m.fail = o.Off
				h, ref, e := mg.Create(bg, id, sessionid.Pair{Key: "n", Value: n})
				r.Logf("create for %q, the method fails: %v -> %v", id, o.Off, e)
				if m.fail {
					if !errors.Is(e, errRefused) {
						return fail("Create: %v, the signing method failed", e)
					}
					refused++
					break
				}
				if e != nil {
					return fail("Create: %v", e)
				}
				for _, t := range []string{h.Token(), ref} {
					if !valid(t) || !strings.HasPrefix(t, eid+".") {
						return fail("Create for %q gives %q", id, t)
					}
				}
				toks = append(toks, issuedTok{h.Token(), ref, id})
				accepted++
			case "tokens":
				m.fail = o.Off
				a, b, e := sessionid.CreateToken(m, c.Key, eid)
				r.Logf("CreateToken, the method fails: %v -> %v", o.Off, e)
				if m.fail {
					if !errors.Is(e, errRefused) {
						return fail("CreateToken: %v, the signing method failed", e)
					}
					break
				}
				if e != nil || !valid(a) || !valid(b) || a == b {
					return fail("CreateToken: %q %q %v", a, b, e)
				}
			case "encode":
				sid := fmt.Sprint("sid", n)
				m.fail = o.Off
				t, e := cryptoer.Encode(m, c.Key, eid, sid)
				if m.fail {
					if !errors.Is(e, errRefused) {
						return fail("Encode: %v, the signing method failed", e)
					}
					break
				}
				if want := eid + "." + sid + "." + m.sig(eid+"."+sid); e != nil || t != want {
					return fail("Encode: %q %v, want %q", t, e, want)
				}
				m.refuse = o.Ref
				a, b, e := cryptoer.Decode(m, c.Key, t)
				if m.refuse {
					if !errors.Is(e, errRefused) {
						return fail("Decode: %v, the signing method refused", e)
					}
				} else if e != nil || a != eid || b != sid {
					return fail("Decode of %q: %q %q %v", t, a, b, e)
				}
			case "get":
				s := o.Mut.apply(C01Case{Key: c.Key, Key2: c.Key}, toks)
				m.refuse = o.Off
				want := valid(s) && !o.Off
				h, e := mg.Get(bg, s)
				r.Logf("get %q, the method refuses: %v -> %v", s, o.Off, e)
				if (e == nil) != want {
					return fail("Get of %q: %v, its signature is right: %v, the method refuses: %v", s, e, valid(s), o.Off)
				}
				if e == nil {
					if h.Token() != s {
						return fail("Get of %q gives a handle of %q", s, h.Token())
					}
					accepted++
				} else {
					refused++
				}
			case "refresh":
				x := &toks[o.S%len(toks)]
				a, b := x.tok, x.ref
				if o.Ref {
					b = o.Mut.apply(C01Case{Key: c.Key, Key2: c.Key}, toks)
				} else if o.Mut.K != 0 {
					a = o.Mut.apply(C01Case{Key: c.Key, Key2: c.Key}, toks)
				}
				m.refuse = o.Off
				want := a == x.tok && b == x.ref && valid(a) && valid(b) && !o.Off
				na, nb, e := mg.Refresh(bg, a, b)
				r.Logf("refresh %q %q, the method refuses: %v -> %v", a, b, o.Off, e)
				if want != (e == nil) {
					other := false // a pair of another session
					for _, y := range toks {
						other = other || y.tok == a && y.ref == b
					}
					if !other || e == nil != !o.Off {
						return fail("Refresh of %q %q: %v, want success: %v", a, b, e, want)
					}
				}
				if e != nil {
					refused++
					break
				}
				if !valid(na) || !valid(nb) {
					return fail("Refresh gives %q %q", na, nb)
				}
				for i := range toks {
					if toks[i].tok == a {
						toks[i].tok, toks[i].ref = na, nb
					}
				}
				accepted++
			}
			m.refuse, m.fail = false, false
			if m.bad != "" {
				return fail("%s: %s", o.K, m.bad)
			}
			if o.K == "create" || o.K == "get" && o.Mut.K == 0 {
				if len(m.seen) == from {
					return fail("%s did without the signing method", o.K)
				}
			}
			// every session is still there
			for _, x := range toks {
				if e := p.Check(bg, x.tok); e != nil {
					return fail("after %s the session %q: %v", o.K, x.tok, e)
				}
			}
		}
		if refused > 0 && accepted > 1 {
			r.NT()
		}
		return nil
	}))
}

// ROp is a step with the registry.
type ROp struct {
	K string
	N int
}

// C23Reg is a concurrent history of the registry of signing methods.
type C23Reg struct {
	Clients [][]ROp
	Sch     Sch
}

func genC23Reg(t *rapid.T) C23Reg {
	var c C23Reg
	n := rapid.IntRange(1, 4).Draw(t, "clients")
	for i := 0; i < n; i++ {
		c.Clients = append(c.Clients, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) ROp {
			return ROp{rapid.SampledFrom([]string{"reg", "reg", "get", "get", "get", "std"}).Draw(t, "k"), rapid.IntRange(0, 4).Draw(t, "n")}
		}), 1, 8).Draw(t, "ops"))
	}
	c.Sch = genSch(t, 12)
	return c
}

var registries atomic.Int64

type regCall struct {
	client    int
	op        ROp
	m         *ownMethod // registered, or found
	call, ret int64
}

// runReg performs the clients' calls and judges what was found: a registration which was not overwritten for certain.
func runReg(c C23Reg, r *Rec, run func([]func()) error) error {
	prefix := fmt.Sprintf("t%d-", registries.Add(1))
	var mu sync.Mutex
	var clock int64
	var all []*regCall
	now := func() int64 { mu.Lock(); defer mu.Unlock(); clock++; return clock }
	var wrong atomic.Pointer[string]
	say := func(f string, a ...any) { s := fmt.Sprintf(f, a...); wrong.Store(&s) }
	do := func(i int, o ROp) {
		x := &regCall{client: i, op: o}
		name := prefix + []string{"a", "A", "a ", "", "a\x00"}[o.N]
		x.call = now()
		switch o.K {
		case "reg":
			x.m = &ownMethod{name: name}
			m := x.m
			cryptoer.RegisterSigningMethod(name, func() cryptoer.SigningMethod { return m })
		case "get":
			g := cryptoer.GetSigningMethod(name)
			if g != nil {
				m, ok := g.(*ownMethod)
				if !ok || m.name != name {
					say("%q gives the method %q", name, g.Alg())
				}
				x.m = m
			}
		case "std":
			want := method(o.N)
			if g := cryptoer.GetSigningMethod(methodNames[o.N]); g != want || g.Alg() != methodNames[o.N] {
				say("%q is not found", methodNames[o.N])
			}
		}
		x.ret = now()
		mu.Lock()
		all = append(all, x)
		mu.Unlock()
	}
	var fs []func()
	for i, ops := range c.Clients {
		fs = append(fs, func() {
			for _, o := range ops {
				do(i, o)
			}
		})
	}
	if err := run(fs); err != nil {
		return err
	}
	for n := 0; n < 5; n++ {
		do(-1, ROp{"get", n})
		do(-1, ROp{"std", n})
	}
	if s := wrong.Load(); s != nil {
		return fail("%s", *s)
	}
	for _, x := range all {
		if x.op.K == "std" {
			continue
		}
		r.Logf("%d: [%d,%d] %s %d %p", x.client, x.call, x.ret, x.op.K, x.op.N, x.m)
	}
	overlap := false
	for _, g := range all {
		if g.op.K != "get" {
			continue
		}
		// g.m must have been registered before g returned, and not certainly replaced before g began
		ok := g.m == nil
		for _, w := range all {
			if w.op.K != "reg" || w.op.N != g.op.N {
				continue
			}
			overlap = overlap || w.client != g.client && w.call < g.ret && g.call < w.ret
			if g.m == nil && w.ret < g.call {
				return fail("name %d is not found after it was registered", g.op.N)
			}
			if w.m != g.m || g.m == nil || w.call > g.ret {
				continue
			}
			ok = true
			for _, v := range all {
				if v.op.K == "reg" && v.op.N == g.op.N && w.ret < v.call && v.ret < g.call {
					return fail("name %d gives a method that was replaced before", g.op.N)
				}
			}
		}
		if !ok {
			return fail("name %d gives a method nobody registered", g.op.N)
		}
	}
	if overlap || len(c.Clients) == 1 {
		r.NT()
	}
	return nil
}

func runC23Reg(c C23Reg, r *Rec) error {
	return dropLeak(bubble(func() error {
		return runReg(c, r, func(fs []func()) error {
			if _, ok := sched.Run(fs, c.Sch.choose(), nil, 4000); !ok {
				return &caseErr{"deadlock", "the clients of the registry never finish"}
			}
			return nil
		})
	}))
}

func runC23Race(c C23Reg, r *Rec) error {
	return runReg(c, r, func(fs []func()) error {
		var wg sync.WaitGroup
		gate := make(chan bool)
		for _, f := range fs {
			wg.Add(1)
			go func() { defer wg.Done(); <-gate; f() }()
		}
		close(gate)
		wg.Wait()
		return nil
	})
}

func init() {
	reg("C23", "own", 60000, 2000000, "the user's method refused or failed at least once and its tokens were accepted twice", genC23Own, runC23Own)
	reg("C23", "registry", 40000, 1000000, "one client, or a registration and a lookup of one name overlapped", genC23Reg, runC23Reg)
	reg("C23", "race", 8000, 200000, "one client, or a registration and a lookup of one name overlapped", genC23Reg, runC23Race).Race = true
}
