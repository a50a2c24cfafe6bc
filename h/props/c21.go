package props

import (
	"encoding/base64"
	"errors"
	"fmt"
	"strings"
	"testing/synctest"
	"time"

	"github.com/powerpuffpenguin/sessionid"
	"pgregory.net/rapid"
)

// MOp is a step at the level of the manager.
type MOp struct {
	K string
	U int   // owner
	S int   // session
	V int   // variant
	D int64 // time
	G []int // keys
}

// C21Case is a history played on several backends at once.
type C21Case struct {
	Kinds  []Cfg
	Coder  int
	M      int
	Owners [][]byte
	Ops    []MOp
}

var ownerPool = []string{"1", "2", "web-1", "a.b", "a", "A", "a*", "日本", "x y", "\x00", "\xff\xfe", "..", "1.2.3", "a/b+c", strings.Repeat("u", 300)}

func genC21(limited bool) func(t *rapid.T) C21Case {
	return func(t *rapid.T) C21Case {
		base := Cfg{Kind: "redis"}
		genTimes(t, &base)
		_, life := base.Durations()
		clear := rapid.SampledFrom([]int64{0, -1, life.Milliseconds()/2 + 3}).Draw(t, "clear")
		kinds := all
		if limited {
			kinds = []string{"memory", "bolt"}
			base.Max = rapid.SampledFrom([]int{1, 2, 3, 4}).Draw(t, "max")
		}
		nobody := rapid.IntRange(0, 7).Draw(t, "nobody") == 0 // bolt has no empty ids
		if nobody && limited {
			kinds = []string{"memory"}
		} else if nobody {
			kinds = []string{"memory", "redis"}
		}
		c := C21Case{Coder: rapid.IntRange(0, nCoders-1).Draw(t, "coder"), M: rapid.IntRange(0, 4).Draw(t, "m")}
		for _, k := range kinds {
			x := base
			x.Kind = k
			if k != "redis" {
				x.Clear = clear
			} else if rapid.IntRange(0, 3).Draw(t, "skewed") == 3 {
				x.Skew = rapid.Int64Range(-3000, 3000).Draw(t, "skew")
			}
			c.Kinds = append(c.Kinds, x)
		}
		for i := 0; i < 3; i++ {
			if rapid.IntRange(0, 3).Draw(t, "own") == 0 {
				c.Owners = append(c.Owners, rapid.SliceOfN(rapid.Byte(), 1, 30).Draw(t, "owner"))
			} else {
				c.Owners = append(c.Owners, []byte(rapid.SampledFrom(ownerPool).Draw(t, "owner")))
			}
		}
		if nobody {
			c.Owners[1] = nil
		}
		bag := strings.Fields("login login login put put put get get get keys del check check refresh refresh refresh logout logoutID adv adv adv reopen")
		first := MOp{K: "login", G: []int{0, 1}}
		c.Ops = append([]MOp{first}, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) MOp {
			o := MOp{K: rapid.SampledFrom(bag).Draw(t, "k")}
			o.U = rapid.IntRange(0, 2).Draw(t, "u")
			o.S = rapid.IntRange(0, 23).Draw(t, "s")
			o.V = rapid.IntRange(0, 15).Draw(t, "v")
			switch o.K {
			case "login", "put", "get", "del":
				o.G = rapid.SliceOfN(rapid.IntRange(0, 3), 0, 4).Draw(t, "g")
			case "adv":
				o.D = rapid.Int64Range(1, 4000).Draw(t, "d")
			}
			return o
		}), 8, 45).Draw(t, "ops")...)
		return c
	}
}

// side is one backend with its manager.
type side struct {
	w     *World
	mg    *sessionid.LocalManager
	m     *Model
	forge *sessionid.LocalManager
	real  map[string]string // what the model calls a token, and the token
	seen  map[string]bool
}

func runC21(c C21Case, r *Rec) error {
	err := bubble(func() error {
		cd := typedCoder(c.Coder)
		var sides []*side
		for _, k := range c.Kinds {
			w, err := NewWorld(k)
			if err != nil {
				return err
			}
			defer w.Done()
			a, rr := k.Durations()
			s := &side{w: w, m: NewModel(a, rr, k.max()), real: map[string]string{}, seen: map[string]bool{}}
			mk := func(key string) *sessionid.LocalManager {
				return sessionid.NewManager(sessionid.WithProvider(w.P), sessionid.WithMethod(method(c.M)), sessionid.WithCoder(cd), sessionid.WithKey([]byte(key)))
			}
			s.mg, s.forge = mk("the key"), mk("another key")
			sides = append(sides, s)
		}
		r.Logf("stores %+v, coder %T, method %s, owners %q", c.Kinds, cd, method(c.M).Alg(), c.Owners)
		d := &Driver{M: sides[0].m, R: r, Stats: map[string]int{}} // only to choose tokens and times
		for i, o := range c.Ops {
			d.opNo = i + 1
			if o.K == "adv" {
				d.Advance(Op{D: o.D, V: o.V % 8, S: o.S})
				continue
			}
			if o.K == "reopen" {
				if o.V%4 != 0 {
					continue
				}
				for _, s := range sides {
					if s.w.Cfg.Kind == "memory" {
						continue
					}
					if e := s.w.P.Close(); e != nil {
						return fail("Close: %v", e)
					}
					s.w.closeDB()
					synctest.Wait()
					if e := s.w.Open(); e != nil {
						return fail("reopen: %v", e)
					}
					for _, m := range []**sessionid.LocalManager{&s.mg, &s.forge} {
						key := "the key"
						if m == &s.forge {
							key = "another key"
						}
						*m = sessionid.NewManager(sessionid.WithProvider(s.w.P), sessionid.WithMethod(method(c.M)), sessionid.WithCoder(cd), sessionid.WithKey([]byte(key)))
					}
				}
				r.Logf("bolt and redis are reopened")
				continue
			}
			owner := string(c.Owners[o.U%len(c.Owners)])
			// the call in terms of the model
			var co COp
			id := base64.RawURLEncoding.EncodeToString([]byte(owner))
			x := d.pick(o.S)
			tok := x.tok
			switch {
			case o.V == 12:
				tok = x.ref
			case o.V == 13 && len(d.Issued) > 0:
				tok = d.Issued[o.S%len(d.Issued)].tok
			}
			forged := o.V == 15
			switch o.K {
			case "login":
				t, rf := d.fresh(id)
				co = COp{K: "create", Tok: t, Ref: rf}
				for j, k := range o.G {
					co.Pairs = append(co.Pairs, PB{keyName(k), []byte(fmt.Sprintf("v%d.%d", d.opNo, j))})
				}
			case "put":
				co = COp{K: "put", Tok: tok}
				for j, k := range o.G {
					co.Pairs = append(co.Pairs, PB{keyName(k), []byte(fmt.Sprintf("v%d.%d", d.opNo, j))})
				}
			case "get":
				co = COp{K: "get", Tok: tok, Keys: keyNames(o.G)}
			case "del":
				co = COp{K: "del", Tok: tok, Keys: keyNames(o.G)}
			case "keys", "check":
				co = COp{K: o.K, Tok: tok}
			case "logout":
				co = COp{K: "destroyTok", Tok: tok}
			case "logoutID":
				co = COp{K: "destroyID", ID: id}
			case "refresh":
				nt, nr := d.fresh(x.id)
				co = COp{K: "refresh", Tok: tok, Ref: x.ref, NTok: nt, NRef: nr}
				switch o.V {
				case 9:
					co.Ref = x.tok
				case 10:
					co.Ref = d.pick(o.S + 2).ref
				case 11:
					co.Ref = d.old(x)
				}
			}
			if x.tok == "1.none.g" && co.Tok == x.tok {
				continue // nobody has logged in yet
			}
			if co.K == "refresh" && sides[0].real[co.Ref] == "" {
				continue // no such token was ever issued
			}
			now := time.Now()
			var res []Res
			for _, s := range sides {
				before := s.m.Evicted
				q, err := s.do(co, forged, o.V, owner)
				synctest.Wait()
				if err != nil {
					return err
				}
				r.Logf("%s %s: %s -> %s", now.Sub(epoch), s.w.Cfg.Kind, co, q)
				res = append(res, q)
				if forged && co.K != "create" && co.K != "destroyID" && co.K != "destroyTok" {
					if q.C == "ok" {
						return fail("%s: a token signed with another key was accepted: %s", s.w.Cfg.Kind, co)
					}
					continue
				}
				if q.C == "signature" {
					return fail("%s: %s: an issued token was refused: %s", s.w.Cfg.Kind, co, q.E)
				}
				if err := s.m.Step(co, q, now); err != nil {
					return fail("%s: %w", s.w.Cfg.Kind, err)
				}
				if s.m.Evicted > before {
					d.Stats["evict"]++
				}
			}
			for i, q := range res {
				if q.C != res[0].C || len(q.Vals) != len(res[0].Vals) || len(q.Keys) != len(res[0].Keys) {
					return fail("%s: %s says %s, %s says %s", co, c.Kinds[0].Kind, res[0], c.Kinds[i].Kind, q)
				}
			}
			if res[0].C == "ok" && (co.K == "create" || co.K == "refresh") {
				y := issuedTok{co.Tok, co.Ref, ""}
				if co.K == "refresh" {
					y = issuedTok{co.NTok, co.NRef, ""}
				}
				y.id, _ = split(y.tok)
				d.Issued = append(d.Issued, y)
			}
			d.Stats[o.K+":"+res[0].C]++
		}
		// every token ever issued, once more, everywhere
		for _, x := range d.Issued {
			for _, t := range []string{x.tok, x.ref} {
				for _, co := range []COp{{K: "check", Tok: t}, {K: "keys", Tok: t}, {K: "get", Tok: t, Keys: keyPool[:4]}} {
					for _, s := range sides {
						q, err := s.do(co, false, 0, "")
						synctest.Wait()
						if err != nil {
							return err
						}
						r.Logf("finally %s: %s -> %s", s.w.Cfg.Kind, co, q)
						if err := s.m.Step(co, q, time.Now()); err != nil {
							return fail("finally %s: %w", s.w.Cfg.Kind, err)
						}
					}
				}
			}
		}
		for k := range d.Stats {
			r.Label(k)
		}
		if d.Stats["refresh:ok"] > 0 && d.Stats["login:ok"] > 1 && d.Stats["get:ok"]+d.Stats["put:ok"] > 1 &&
			(d.Stats["logout:ok"]+d.Stats["logoutID:ok"] > 0 || d.Stats["evict"] > 0 || d.Stats["check:notexist"]+d.Stats["check:expired"] > 0) {
			r.NT()
		}
		return nil
	})
	return dropLeak(err)
}

// do performs the call through the manager and fresh handles.
func (s *side) do(co COp, forged bool, v int, owner string) (q Res, err error) {
	tok := s.real[co.Tok]
	mg := s.mg
	if forged && co.K != "create" && co.K != "destroyID" && co.K != "destroyTok" {
		mg = s.forge // the manager knows another key: the token is forged as far as it can tell
	}
	set := func(e error) {
		q.C = class(e)
		if e != nil {
			q.E = e.Error()
			if strings.Contains(q.E, "signature") {
				q.C = "signature"
			}
		}
	}
	switch co.K {
	case "create":
		var ps []sessionid.Pair
		for _, p := range co.Pairs {
			ps = append(ps, sessionid.Pair{Key: p.K, Value: string(p.V)})
		}
		h, ref, e := mg.Create(bg, owner, ps...)
		set(e)
		if e == nil {
			if h == nil || s.seen[h.Token()] || s.seen[ref] || ref == h.Token() {
				return q, fail("login gives tokens issued before: %v", h)
			}
			id, _ := split(h.Token())
			id2, _ := split(ref)
			want := base64.RawURLEncoding.EncodeToString([]byte(owner))
			if id != want || id2 != want || h.ID() != want {
				return q, fail("login of %q gives tokens of %q, %q", owner, id, id2)
			}
			s.real[co.Tok], s.real[co.Ref] = h.Token(), ref
			s.seen[h.Token()], s.seen[ref] = true, true
			// the handle itself
			if e := h.Check(bg); e != nil {
				return q, fail("Check after login: %v", e)
			}
		}
		return
	case "destroyID":
		set(mg.Destroy(bg, owner))
		return
	case "refresh":
		na, nr, e := mg.Refresh(bg, tok, s.real[co.Ref])
		set(e)
		if e == nil {
			if s.seen[na] || s.seen[nr] || na == nr {
				return q, fail("refresh gives tokens issued before")
			}
			want, _ := split(tok)
			id, _ := split(na)
			id2, _ := split(nr)
			if id != want || id2 != want {
				return q, fail("refresh of a session of %q gives tokens of %q, %q", want, id, id2)
			}
			s.real[co.NTok], s.real[co.NRef] = na, nr
			s.seen[na], s.seen[nr] = true, true
		}
		return
	case "destroyTok":
		if v%2 == 0 {
			set(mg.DestroyByToken(bg, tok))
			return
		}
	}
	h, e := mg.Get(bg, tok)
	if e != nil {
		set(e)
		return
	}
	switch co.K {
	case "destroyTok":
		set(h.Destroy(bg))
	case "check":
		set(h.Check(bg))
	case "keys":
		ks, e := h.Keys(bg)
		q.Keys = ks
		set(e)
	case "del":
		set(h.Delete(bg, tok, co.Keys...))
	case "put":
		var ps []sessionid.Pair
		for _, p := range co.Pairs {
			ps = append(ps, sessionid.Pair{Key: p.K, Value: string(p.V)})
		}
		if len(ps) == 0 { // storing nothing asks nobody
			if e := h.Put(bg); e != nil {
				return q, fail("Put of nothing: %v", e)
			}
			set(h.Check(bg))
			return
		}
		set(h.Put(bg, ps...))
	case "get":
		if len(co.Keys) == 0 {
			set(h.Check(bg))
			return
		}
		if v%2 == 1 {
			if e := h.Prepare(bg, co.Keys...); e != nil {
				set(e)
				return
			}
		}
		for _, k := range co.Keys {
			var x string
			e := h.Get(bg, k, &x)
			switch {
			case e == nil:
				q.Vals = append(q.Vals, Val{true, x})
			case errors.Is(e, sessionid.ErrKeyNotExists):
				q.Vals = append(q.Vals, Val{})
			default:
				q.Vals = nil
				set(e)
				return
			}
		}
		set(nil)
	}
	return
}

func init() {
	reg("C21", "flow", 30000, 800000, "at least two logins, a refresh, data used, and a session ended or refused", genC21(false), runC21)
	reg("C21", "limited", 24000, 640000, "at least two logins, a refresh, data used, and a session ended, evicted or refused", genC21(true), runC21)
}
