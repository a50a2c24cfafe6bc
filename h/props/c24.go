package props

import (
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing/synctest"
	"time"

	"github.com/powerpuffpenguin/sessionid"
	"pgregory.net/rapid"
)

// C24: managers and sessions work over any store.

type c24Key struct{}

// spyCall is a call the store got.
type spyCall struct {
	K     string
	Ctx   context.Context
	Toks  []string
	ID    string
	Pairs []sessionid.PairBytes
	Keys  []string
	Err   error
}

// spy is a store of somebody else: maps, and answers as the case says.
type spy struct {
	mode  string
	err   error
	calls []spyCall
	s     map[string]map[string][]byte
	refs  map[string]string
	keys  []string // what Keys last answered
}

func (p *spy) note(ctx context.Context, c spyCall) (int, error) {
	c.Ctx = ctx
	m := p.mode
	p.mode = ""
	if m == "err" {
		c.Err = p.err
	} else if m == "ctx" {
		c.Err = ctx.Err()
	}
	if m == "odd" || m == "nil" || m == "long" || m == "short" {
		p.mode = m
	}
	p.calls = append(p.calls, c)
	return len(p.calls) - 1, c.Err
}

func (p *spy) put(tok string, ps []sessionid.PairBytes) {
	for _, x := range ps {
		p.s[tok][x.Key] = cloneB(x.Value)
	}
}
func clonePairs(ps []sessionid.PairBytes) []sessionid.PairBytes {
	out := make([]sessionid.PairBytes, len(ps))
	for i, x := range ps {
		out[i] = sessionid.PairBytes{Key: x.Key, Value: cloneB(x.Value)}
	}
	return out
}

func (p *spy) Create(ctx context.Context, a, r string, ps []sessionid.PairBytes) error {
	if _, e := p.note(ctx, spyCall{K: "create", Toks: []string{a, r}, Pairs: clonePairs(ps)}); e != nil {
		return e
	}
	p.s[a], p.refs[a] = map[string][]byte{}, r
	p.put(a, ps)
	return nil
}
func (p *spy) Destroy(ctx context.Context, id string) error {
	if _, e := p.note(ctx, spyCall{K: "destroyID", ID: id}); e != nil {
		return e
	}
	for t := range p.s {
		if strings.HasPrefix(t, id+".") {
			delete(p.s, t)
		}
	}
	return nil
}
func (p *spy) DestroyByToken(ctx context.Context, t string) error {
	if _, e := p.note(ctx, spyCall{K: "destroyTok", Toks: []string{t}}); e != nil {
		return e
	}
	delete(p.s, t)
	return nil
}
func (p *spy) own(i int, t string) error {
	if p.s[t] == nil {
		p.calls[i].Err = sessionid.ErrTokenNotExists
	}
	return p.calls[i].Err
}
func (p *spy) Check(ctx context.Context, t string) error {
	i, e := p.note(ctx, spyCall{K: "check", Toks: []string{t}})
	if e != nil {
		return e
	}
	return p.own(i, t)
}
func (p *spy) Put(ctx context.Context, t string, ps []sessionid.PairBytes) error {
	i, e := p.note(ctx, spyCall{K: "put", Toks: []string{t}, Pairs: clonePairs(ps)})
	if e == nil {
		e = p.own(i, t)
	}
	if e == nil {
		p.put(t, ps)
	}
	return e
}
func (p *spy) Get(ctx context.Context, t string, ks []string) ([]sessionid.Value, error) {
	i, e := p.note(ctx, spyCall{K: "get", Toks: []string{t}, Keys: cloneKeys(ks)})
	if e == nil {
		e = p.own(i, t)
	}
	if e != nil {
		if p.mode == "odd" { // values along with an error
			return make([]sessionid.Value, len(ks)+1), e
		}
		return nil, e
	}
	m := p.mode
	p.mode = ""
	vs := make([]sessionid.Value, 0, len(ks)+1)
	for _, k := range ks {
		v, ok := p.s[t][k]
		vs = append(vs, sessionid.Value{Bytes: cloneB(v), Exists: ok})
	}
	switch m {
	case "nil":
		p.calls[i].Err = errOdd
		return nil, nil
	case "short":
		p.calls[i].Err = errOdd
		if len(vs) > 0 {
			vs = vs[:len(vs)-1]
		}
	case "long":
		p.calls[i].Err = errOdd
		vs = append(vs, sessionid.Value{Bytes: []byte("x"), Exists: true})
	}
	return vs, nil
}

// errOdd stands for an answer of the wrong length.
var errOdd = errors.New("odd answer")

func (p *spy) Keys(ctx context.Context, t string) ([]string, error) {
	i, e := p.note(ctx, spyCall{K: "keys", Toks: []string{t}})
	if e == nil {
		e = p.own(i, t)
	}
	if e != nil {
		return nil, e
	}
	var out []string
	for k := range p.s[t] {
		out = append(out, k)
	}
	sort.Strings(out) // an order of its own
	for i := range out {
		j := len(p.calls) * 7 % len(out)
		out[i], out[j] = out[j], out[i]
	}
	if len(p.calls)%4 == 1 { // what it says is for the caller to judge
		out = append(append(out, out...), "", "odd\x00key")
	}
	p.keys = cloneKeys(out)
	return out, nil
}
func (p *spy) Delete(ctx context.Context, t string, ks []string) error {
	i, e := p.note(ctx, spyCall{K: "del", Toks: []string{t}, Keys: cloneKeys(ks)})
	if e == nil {
		e = p.own(i, t)
	}
	if e != nil {
		return e
	}
	for _, k := range ks {
		delete(p.s[t], k)
	}
	return nil
}
func (p *spy) Refresh(ctx context.Context, a, r, na, nr string) error {
	i, e := p.note(ctx, spyCall{K: "refresh", Toks: []string{a, r, na, nr}})
	if e == nil {
		e = p.own(i, a)
	}
	if e == nil && p.refs[a] != r {
		e = sessionid.ErrRefreshTokenNotMatched
		p.calls[i].Err = e
	}
	if e != nil {
		return e
	}
	d := p.s[a]
	delete(p.s, a)
	p.s[na], p.refs[na] = d, nr
	return nil
}
func (p *spy) Close() error { p.calls = append(p.calls, spyCall{K: "close"}); return nil }

// POp24 is a step.
type POp24 struct {
	K     string
	S, I  int // which session, which id
	Keys  []int
	Vals  []int
	Mode  string
	Err   int
	Ended int // how the context is
	Wide  int // many more keys
}

// C24Case is a history over a store of somebody else.
type C24Case struct {
	IDs   [][]byte
	Coder int
	M     int
	Ops   []POp24
}

func genC24(t *rapid.T) C24Case {
	c := C24Case{IDs: rapid.SliceOfN(genBytes(20), 1, 3).Draw(t, "ids"), Coder: rapid.IntRange(0, 2).Draw(t, "coder"), M: rapid.IntRange(0, 4).Draw(t, "m")}
	bag := strings.Fields("create create create create put put put get get get get prepare prepare prepare keys check del del hdestroy mdestroy mdestroyTok refresh refresh refresh mget newsession")
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) POp24 {
		o := POp24{K: rapid.SampledFrom(bag).Draw(t, "k"), S: rapid.IntRange(0, 5).Draw(t, "s"), I: rapid.IntRange(0, 2).Draw(t, "i"),
			Mode: rapid.SampledFrom([]string{"", "", "", "", "err", "err", "ctx", "nil", "short", "long", "odd"}).Draw(t, "mode"), Err: rapid.IntRange(0, 9).Draw(t, "err"),
			Ended: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 4}).Draw(t, "ended")}
		n := rapid.SampledFrom([]int{0, 1, 1, 2, 3, 4, 40}).Draw(t, "n")
		for i := 0; i < n; i++ {
			k := rapid.IntRange(0, 4).Draw(t, "key")
			if n == 40 {
				k = rapid.IntRange(0, 60).Draw(t, "key2")
			}
			o.Keys = append(o.Keys, k)
			o.Vals = append(o.Vals, rapid.IntRange(-1, 9).Draw(t, "val"))
		}
		if w := rapid.IntRange(0, 30).Draw(t, "wide"); w > 27 {
			o.Wide = rapid.IntRange(30, 250).Draw(t, "w") * (w - 27)
			if rapid.IntRange(0, 39).Draw(t, "huge") == 39 {
				o.Wide = rapid.SampledFrom([]int{1000, 1025, 1500, 2500, 4100}).Draw(t, "ww")
			}
		}
		return o
	}), 4, 30).Draw(t, "ops")
	return c
}

type ownError struct{ n int }

func (e *ownError) Error() string { return fmt.Sprintf("own error %d", e.n) }

func runC24(c C24Case, r *Rec) error {
	return dropLeak(bubble(func() error {
		p := &spy{s: map[string]map[string][]byte{}, refs: map[string]string{}}
		cd := coder(c.Coder)
		mg := sessionid.NewManager(sessionid.WithProvider(p), sessionid.WithCoder(cd), sessionid.WithMethod(method(c.M)))
		type sess struct {
			h        *sessionid.Session
			ref, id  string
			memory   map[string][]string // bytes the handle may remember
			tok, hid string
		}
		var ss []*sess
		val := func(n int) (interface{}, []byte, bool) {
			if n < 0 {
				return func() {}, nil, false // nobody can encode that
			}
			v := strings.Repeat("v", n%4) + fmt.Sprint(n)
			b, e := cd.Encode(v)
			return v, b, e == nil
		}
		reached, failed := 0, 0
		for step, o := range c.Ops {
			ctx, cancel := context.WithCancel(context.WithValue(context.Background(), c24Key{}, step))
			deadline := time.Time{}
			defer cancel()
			switch o.Ended {
			case 1:
				cancel()
			case 2, 3:
				deadline = time.Now().Add(time.Duration(o.Ended-2) * time.Hour)
				var cancel2 func()
				ctx, cancel2 = context.WithDeadline(ctx, deadline)
				defer cancel2()
			}
			p.mode, p.err = o.Mode, []error{&ownError{step}, sessionid.ErrTokenExpired, sessionid.ErrProviderClosed, sessionid.ErrTokenNotExists, fmt.Errorf("wrapped: %w", sessionid.ErrTokenExpired),
				context.Canceled, fmt.Errorf("more: %w", &ownError{step}), sessionid.ErrKeyNotExists, sessionid.ErrTokenInvalid, errInjected}[o.Err%10]
			if p.mode == "ctx" && ctx.Err() == nil {
				p.mode = ""
			}
			from := len(p.calls)
			var x *sess
			if len(ss) > 0 {
				x = ss[o.S%len(ss)]
			} else if o.K != "mdestroy" {
				o.K = "create"
			}
			id := string(c.IDs[o.I%len(c.IDs)])
			eid := base64.RawURLEncoding.EncodeToString([]byte(id))
			var ps []sessionid.Pair
			want := map[string]string{}
			encodable := true
			for i, k := range o.Keys {
				v, b, ok := val(o.Vals[i])
				ps = append(ps, sessionid.Pair{Key: keyName(k), Value: v})
				want[keyName(k)] = string(b)
				encodable = encodable && ok
			}
			var keys []string
			for _, k := range o.Keys {
				keys = append(keys, keyName(k))
			}
			for i := 0; i < o.Wide; i++ { // many more
				v, b, ok := val(i % 7)
				k := fmt.Sprintf("wide%d", i*31%o.Wide)
				ps = append(ps, sessionid.Pair{Key: k, Value: v})
				want[k] = string(b)
				encodable = encodable && ok
				keys = append(keys, k)
			}
			var err error
			kind := "" // the call the store should get
			must := true
			var toks []string
			var after func() error // on success
			free := false          // other errors may be right
			switch o.K {
			case "create":
				kind, must = "create", encodable
				var h *sessionid.Session
				var ref string
				h, ref, err = mg.Create(ctx, id, ps...)
				after = func() error {
					call := p.calls[len(p.calls)-1]
					if h == nil || h.Token() != call.Toks[0] || ref != call.Toks[1] {
						return fail("Create gives other tokens than it stored")
					}
					for _, t := range call.Toks {
						if !oracleValid(c.M, defaultKey, t) || !strings.HasPrefix(t, eid+".") {
							return fail("Create for %q stored the token %q", id, t)
						}
					}
					m := map[string][]string{}
					ss = append(ss, &sess{h, ref, id, m, h.Token(), h.ID()})
					return nil
				}
				free = !encodable
			case "put":
				kind, must, toks = "put", encodable && len(ps) > 0, []string{x.tok}
				err = x.h.Put(ctx, ps...)
				free = !encodable
				after = func() error {
					for k, v := range want {
						x.memory[k] = []string{v}
					}
					return nil
				}
			case "get":
				k := "k"
				if len(keys) > 0 {
					k = keys[0]
				}
				keys = []string{k}
				kind, must, toks = "get", len(x.memory[k]) == 0, []string{x.tok}
				var got string
				err = x.h.Get(ctx, k, &got)
				asked := len(p.calls) > from
				free = true
				may := append([]string{}, x.memory[k]...)
				if asked && p.calls[from].Err == nil {
					if b, ok := p.s[x.tok][k]; ok {
						may = append(may, string(b))
					} else {
						may = append(may, "-")
					}
				}
				out := "?"
				if err == nil {
					b, e := cd.Encode(got)
					if e != nil {
						return e
					}
					out = string(b)
				} else if errors.Is(err, sessionid.ErrKeyNotExists) && (!asked || p.calls[from].Err == nil) {
					out = "-"
				} else if asked && p.calls[from].Err != nil {
					if e := p.calls[from].Err; e != errOdd && !errors.Is(err, e) {
						return fail("Get of %q: %v, the store said %v", k, err, e)
					}
					if p.calls[from].Err == errOdd { // the handle may use the first value of a longer answer
						x.memory[k] = append(x.memory[k], "-")
					}
					failed++
					break
				} else {
					return fail("Get of %q: %v, the store had no complaint", k, err)
				}
				found := false
				for _, m := range may {
					found = found || m == out
				}
				if !found && !(asked && p.calls[from].Err == errOdd) {
					return fail("Get of %q: %q %v, should be one of %q", k, got, err, may)
				}
				if asked && p.calls[from].Err == nil {
					x.memory[k] = append(x.memory[k], out)
				} else if asked && out != "?" {
					x.memory[k] = append(x.memory[k], out) // a longer answer whose first value was used
				}
			case "prepare":
				all := true
				for _, k := range keys {
					all = all && len(x.memory[k]) > 0
				}
				kind, must, toks = "get", !all, []string{x.tok}
				err = x.h.Prepare(ctx, keys...)
				after = func() error {
					for _, k := range keys {
						v := "-"
						if b, ok := p.s[x.tok][k]; ok {
							v = string(b)
						}
						x.memory[k] = append(x.memory[k], v)
					}
					return nil
				}
			case "keys":
				kind, toks = "keys", []string{x.tok}
				var got []string
				got, err = x.h.Keys(ctx)
				after = func() error {
					if len(got) != len(p.keys) {
						return fail("Keys gives %q, the store gave %q", got, p.keys)
					}
					for i := range got {
						if got[i] != p.keys[i] {
							return fail("Keys gives %q, the store gave %q", got, p.keys)
						}
					}
					return nil
				}
			case "check":
				kind, toks = "check", []string{x.tok}
				err = x.h.Check(ctx)
			case "del":
				kind, toks, must = "del", []string{x.tok}, len(keys) > 0
				err = x.h.Delete(ctx, x.tok, keys...)
				after = func() error {
					for _, k := range keys {
						delete(x.memory, k)
					}
					return nil
				}
			case "hdestroy":
				kind, toks = "destroyTok", []string{x.tok}
				err = x.h.Destroy(ctx)
			case "mdestroyTok":
				kind, toks = "destroyTok", []string{x.tok}
				err = mg.DestroyByToken(ctx, x.tok)
			case "mdestroy":
				kind = "destroyID"
				err = mg.Destroy(ctx, id)
			case "refresh":
				kind = "refresh"
				var na, nr string
				na, nr, err = mg.Refresh(ctx, x.tok, x.ref)
				after = func() error {
					call := p.calls[len(p.calls)-1]
					if call.Toks[2] != na || call.Toks[3] != nr {
						return fail("Refresh gives other tokens than it stored")
					}
					for _, t := range []string{na, nr} {
						if !oracleValid(c.M, defaultKey, t) {
							return fail("Refresh stored the token %q", t)
						}
					}
					h, e := mg.Get(ctx, na)
					if e != nil {
						return fail("Get of a refreshed token: %v", e)
					}
					if h.ID() != x.hid {
						return fail("the id of a handle: %q, after refreshing %q", x.hid, h.ID())
					}
					ss = append(ss, &sess{h, nr, x.id, map[string][]string{}, na, h.ID()})
					return nil
				}
			case "mget":
				must = false
				var h *sessionid.Session
				h, err = mg.Get(ctx, x.tok)
				if err == nil {
					if h.Token() != x.tok || h.ID() != x.hid {
						return fail("Get gives a handle of %q %q for %q %q", h.ID(), h.Token(), x.hid, x.tok)
					}
					x.h, x.memory = h, map[string][]string{}
				}
				free = true
				if err != nil && o.Mode == "" && o.Ended == 0 && len(p.calls) == from {
					return fail("Manager.Get of a good token: %v", err)
				}
			case "newsession":
				must = false
				var h *sessionid.Session
				h, err = sessionid.NewSession(x.tok, p, cd)
				if err != nil || h.Token() != x.tok || h.ID() != x.hid {
					return fail("NewSession of %q: %v", x.tok, err)
				}
				x.h, x.memory = h, map[string][]string{}
			}
			got := p.calls[from:]
			r.Logf("%d: %s mode %q -> %v; the store got %d calls", step, o.K, o.Mode, err, len(got))
			if ctx.Err() != nil && len(got) == 0 && errors.Is(err, ctx.Err()) {
				r.Label("ended before")
				continue
			}
			if must && len(got) == 0 {
				return fail("%s: the store was not asked (%v)", o.K, err)
			}
			var theirs error
			for _, g := range got {
				reached++
				if v, ok := g.Ctx.Value(c24Key{}).(int); !ok || v != step {
					return fail("%s: the store got another context than the caller's", o.K)
				}
				if ctx.Err() != nil && g.Ctx.Err() == nil {
					return fail("%s: the caller's context has ended, the store's has not", o.K)
				}
				if d, ok := g.Ctx.Deadline(); !deadline.IsZero() && (!ok || d.After(deadline)) {
					return fail("%s: the caller's deadline did not reach the store", o.K)
				}
				if kind != "" && g.K != kind && g.K != "check" {
					return fail("%s: the store was asked to %s", o.K, g.K)
				}
				for i, t := range toks {
					if i >= len(g.Toks) || g.Toks[i] != t {
						return fail("%s of %q: the store was asked about %q", o.K, toks, g.Toks)
					}
				}
				if g.K == "refresh" && (g.Toks[0] != x.tok || g.Toks[1] != x.ref) {
					return fail("refresh of %q %q: the store was asked about %q", x.tok, x.ref, g.Toks)
				}
				if g.K == "destroyID" && g.ID != eid {
					return fail("destroy of %q (%q): the store was asked about %q", id, eid, g.ID)
				}
				if g.K == "get" || g.K == "del" {
					ok := map[string]bool{}
					for _, k := range keys {
						ok[k] = true
					}
					for _, k := range g.Keys {
						if !ok[k] {
							return fail("%s of %q: the store was asked about %q", o.K, keys, g.Keys)
						}
						if g.K == "del" {
							delete(want, k)
						}
					}
				}
				if g.Err != nil {
					theirs = g.Err
				}
			}
			cancel()
			for _, g := range got {
				if synctest.Wait(); g.Ctx.Err() == nil {
					return fail("%s: cancelling the caller's context does not end the store's", o.K)
				}
			}
			if kind == "put" || kind == "create" {
				stored := map[string]string{}
				writes := 0
				for _, g := range got {
					if g.K == "put" || g.K == "create" {
						writes++
					}
					for _, q := range g.Pairs {
						stored[q.Key] = string(q.Value)
					}
				}
				if writes > 1 {
					return fail("%s: the store got %d calls", o.K, writes)
				}
				if !encodable && len(got) > 0 {
					return fail("%s with a value nobody can encode reached the store", o.K)
				}
				for _, g := range got {
					if g.K == kind && len(g.Pairs) != len(ps) {
						return fail("%s: the store got %d pairs, want %d", o.K, len(g.Pairs), len(ps))
					}
					for i := range g.Pairs {
						if g.K == kind && g.Pairs[i].Key != ps[i].Key {
							return fail("%s: the store got pair %d for %q, want %q", o.K, i, g.Pairs[i].Key, ps[i].Key)
						}
					}
				}
				if theirs == nil && err == nil {
					if len(stored) != len(want) {
						return fail("%s: the store got %d keys, want %d", o.K, len(stored), len(want))
					}
					for k, v := range want {
						if s, ok := stored[k]; !ok || s != v {
							return fail("%s: the store got %q for %q, want %q", o.K, s, k, v)
						}
					}
				}
			}
			if kind == "del" && err == nil && len(want) != 0 {
				return fail("del of %q: the store was not asked to delete all", keys)
			}
			if theirs != nil {
				failed++
			}
			switch {
			case o.K == "get" || o.K == "mget":
			case theirs != nil && err == nil:
				return fail("%s succeeded though the store said %v", o.K, theirs)
			case theirs != nil && theirs != errOdd && !errors.Is(err, theirs):
				return fail("%s: %v, the store said %v", o.K, err, theirs)
			case theirs == nil && err != nil && !free:
				return fail("%s: %v, the store had no complaint", o.K, err)
			case !encodable && err == nil && (kind == "put" || kind == "create"):
				return fail("%s of a value nobody can encode succeeded", o.K)
			}
			if err == nil && theirs == nil && after != nil {
				if e := after(); e != nil {
					return e
				}
			}
		}
		if reached > 3 && failed > 0 {
			r.NT()
		}
		return nil
	}))
}

var defaultKey = []byte(`github.com/powerpuffpenguin/sessionid`)

func init() {
	reg("C24", "plug", 90000, 3000000, "the store was reached more than three times and answered at least once with a failure", genC24, runC24)
}
