package props

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/powerpuffpenguin/sessionid"
)

var bg = context.Background()

// PB is a key and its bytes.
type PB struct {
	K string
	V []byte
}

// COp is a concrete call on a provider.
type COp struct {
	K          string // create put get keys del check refresh destroyTok destroyID clear close
	Tok, Ref   string
	NTok, NRef string
	ID         string
	Pairs      []PB
	Keys       []string
}

func (o COp) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s", o.K)
	if o.Tok != "" || (o.K != "destroyID" && o.K != "clear" && o.K != "close") {
		fmt.Fprintf(&b, " tok=%q", short(o.Tok))
	}
	if o.Ref != "" {
		fmt.Fprintf(&b, " ref=%q", short(o.Ref))
	}
	if o.NTok != "" {
		fmt.Fprintf(&b, " newTok=%q newRef=%q", short(o.NTok), short(o.NRef))
	}
	if o.K == "destroyID" {
		fmt.Fprintf(&b, " id=%q", o.ID)
	}
	if len(o.Pairs) > 0 {
		b.WriteString(" {")
		for i, p := range o.Pairs {
			if i == 6 {
				fmt.Fprintf(&b, "...%d", len(o.Pairs))
				break
			}
			fmt.Fprintf(&b, "%q:%s ", short(p.K), showBytes(p.V))
		}
		b.WriteString("}")
	}
	if len(o.Keys) > 0 {
		ks := o.Keys
		if len(ks) > 8 {
			ks = ks[:8]
		}
		b.WriteString(" [")
		for _, k := range ks {
			fmt.Fprintf(&b, "%q ", short(k))
		}
		b.WriteString("]")
	}
	return b.String()
}

func short(s string) string {
	if len(s) > 60 {
		return s[:50] + fmt.Sprintf("..(%d)", len(s))
	}
	return s
}

func showBytes(b []byte) string {
	if b == nil {
		return "nil"
	}
	if len(b) > 24 {
		return fmt.Sprintf("%q..(%d)", b[:20], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// Val is one value got.
type Val struct {
	Has bool
	B   string
}

// Res is what a call returned.
type Res struct {
	C    string // class of the error
	E    string
	Vals []Val
	Keys []string
}

func (r Res) String() string {
	s := r.C
	if r.C == "other" || r.C == "panic" {
		s += "(" + r.E + ")"
	}
	if len(r.Vals) > 0 {
		s += " vals["
		for i, v := range r.Vals {
			if i == 8 {
				s += fmt.Sprintf("...%d", len(r.Vals))
				break
			}
			if v.Has {
				s += showBytes([]byte(v.B)) + " "
			} else {
				s += "- "
			}
		}
		s += "]"
	}
	if len(r.Keys) > 0 {
		s += " keys["
		for i, k := range r.Keys {
			if i == 10 {
				s += fmt.Sprintf("...%d", len(r.Keys))
				break
			}
			s += fmt.Sprintf("%q ", short(k))
		}
		s += "]"
	}
	return s
}

func class(e error) string {
	switch {
	case errors.Is(e, sessionid.ErrTokenExpired) != sessionid.IsTokenExpired(e):
		return "misjudged by IsTokenExpired"
	case e == nil:
		return "ok"
	case errors.Is(e, sessionid.ErrTokenExpired):
		return "expired"
	case errors.Is(e, sessionid.ErrTokenNotExists):
		return "notexist"
	case errors.Is(e, sessionid.ErrTokenInvalid):
		return "invalid"
	case errors.Is(e, sessionid.ErrTokenIDNotMatched):
		return "idmismatch"
	case errors.Is(e, sessionid.ErrRefreshTokenNotMatched):
		return "refmismatch"
	case errors.Is(e, sessionid.ErrProviderClosed):
		return "closed"
	}
	return "other"
}

type clearer interface{ Clear() error }

// Exec performs the call.
func Exec(p sessionid.Provider, o COp) Res { return ExecCtx(bg, p, o) }

// ExecCtx performs a call under a context.
func ExecCtx(ctx context.Context, p sessionid.Provider, o COp) (r Res) {
	defer func() {
		if x := recover(); x != nil {
			r.C, r.E = "panic", fmt.Sprint(x)
		}
	}()
	var e error
	switch o.K {
	case "create":
		e = p.Create(ctx, o.Tok, o.Ref, pairs(o.Pairs))
	case "put":
		e = p.Put(ctx, o.Tok, pairs(o.Pairs))
	case "get":
		var vs []sessionid.Value
		vs, e = p.Get(ctx, o.Tok, cloneKeys(o.Keys))
		for _, v := range vs {
			r.Vals = append(r.Vals, Val{v.Exists, string(v.Bytes)})
		}
	case "keys":
		var ks []string
		ks, e = p.Keys(ctx, o.Tok)
		r.Keys = append(r.Keys, ks...)
	case "del":
		e = p.Delete(ctx, o.Tok, cloneKeys(o.Keys))
	case "check":
		e = p.Check(ctx, o.Tok)
	case "refresh":
		e = p.Refresh(ctx, o.Tok, o.Ref, o.NTok, o.NRef)
	case "destroyTok":
		e = p.DestroyByToken(ctx, o.Tok)
	case "destroyID":
		e = p.Destroy(ctx, o.ID)
	case "clear":
		e = p.(clearer).Clear()
	case "close":
		e = p.Close()
	default:
		panic("bad op " + o.K)
	}
	r.C = class(e)
	if e != nil {
		r.E = e.Error()
	}
	return
}

func pairs(ps []PB) []sessionid.PairBytes {
	if ps == nil {
		return nil
	}
	out := make([]sessionid.PairBytes, len(ps))
	for i, p := range ps {
		out[i] = sessionid.PairBytes{Key: p.K, Value: cloneB(p.V)}
	}
	return out
}

func cloneB(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

func cloneKeys(k []string) []string {
	if k == nil {
		return nil
	}
	return append([]string{}, k...)
}

// split is the documented shape of a token: id up to the first dot, signature after the last.
func split(tok string) (id string, ok bool) {
	i := strings.IndexByte(tok, '.')
	j := strings.LastIndexByte(tok, '.')
	if i < 0 || i == j {
		return "", false
	}
	return tok[:i], true
}

// Sess is one session of the model.
type Sess struct {
	ID, Tok, Ref string
	ADead, RDead time.Time
	Data         map[string]string
	Seq          int
}

// Model is what the store should hold: the reference every check compares with.
type Model struct {
	S      map[string]*Sess
	A, R   time.Duration
	Max    int
	Seq    int
	Closed bool
	// Touchy says which keys the backend may refuse with an error (without effect).
	Touchy func(key string) bool
	// Evicted counts evictions of live sessions.
	Evicted int
}

// NewModel makes an empty model.
func NewModel(a, r time.Duration, max int) *Model {
	return &Model{S: map[string]*Sess{}, A: a, R: r, Max: max}
}

// Clone copies the model.
func (m *Model) Clone() *Model {
	n := *m
	n.S = make(map[string]*Sess, len(m.S))
	for k, s := range m.S {
		c := *s
		c.Data = make(map[string]string, len(s.Data))
		for k, v := range s.Data {
			c.Data[k] = v
		}
		n.S[k] = &c
	}
	return &n
}

// Status of a well-formed token.
func (m *Model) Status(tok string, now time.Time) string {
	s := m.S[tok]
	switch {
	case s == nil || !now.Before(s.RDead):
		return "notexist"
	case !now.Before(s.ADead):
		return "expired"
	}
	return "ok"
}

// Live returns the sessions not past their refresh time, oldest first.
func (m *Model) Live(now time.Time) []*Sess {
	var out []*Sess
	for _, s := range m.S {
		if now.Before(s.RDead) {
			out = append(out, s)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Seq < out[j].Seq })
	return out
}

// Deadlines lists every deadline.
func (m *Model) Deadlines() []time.Time {
	var ss []*Sess
	for _, s := range m.S {
		ss = append(ss, s)
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i].Seq < ss[j].Seq })
	var out []time.Time
	for _, s := range ss {
		out = append(out, s.ADead, s.RDead)
	}
	return out
}

func (m *Model) touchyPairs(ps []PB) bool {
	for _, p := range ps {
		if m.Touchy != nil && m.Touchy(p.K) {
			return true
		}
	}
	return false
}
func (m *Model) touchyKeys(ks []string) bool {
	for _, k := range ks {
		if m.Touchy != nil && m.Touchy(k) {
			return true
		}
	}
	return false
}

func (m *Model) drop(tok string) { delete(m.S, tok) }

func (m *Model) forgetDead(now time.Time) {
	for k, s := range m.S {
		if !now.Before(s.RDead) {
			delete(m.S, k)
		}
	}
}

// Step checks the outcome of a call against the model and applies its effect.
func (m *Model) Step(o COp, r Res, now time.Time) error {
	bad := func(want string) error {
		return fail("%s: got %s, want %s", o, r, want)
	}
	switch r.C {
	case "panic":
		return &caseErr{"panic", fmt.Sprintf("%s: %s", o, r.E)}
	}
	if r.C != "ok" {
		for _, v := range r.Vals {
			if v.Has {
				return bad("no values along with an error")
			}
		}
		if len(r.Keys) != 0 {
			return bad("no keys along with an error")
		}
	}
	if m.Closed {
		want := "closed"
		switch o.K {
		case "destroyID", "clear", "close":
		case "refresh":
			id, ok := split(o.Tok)
			for _, t := range []string{o.Ref, o.NTok, o.NRef} {
				i2, ok2 := split(t)
				if !ok || !ok2 {
					if r.C == "invalid" {
						return nil
					}
				} else if i2 != id && r.C == "idmismatch" {
					return nil
				}
			}
		case "create":
			id, ok := split(o.Tok)
			i2, ok2 := split(o.Ref)
			if (!ok || !ok2) && r.C == "invalid" {
				return nil
			}
			if ok && ok2 && id != i2 && r.C == "idmismatch" {
				return nil
			}
			if m.touchyPairs(o.Pairs) && r.C == "other" {
				return nil
			}
		default:
			if _, ok := split(o.Tok); !ok && r.C == "invalid" {
				return nil
			}
			if (m.touchyPairs(o.Pairs) || m.touchyKeys(o.Keys)) && r.C == "other" {
				return nil
			}
		}
		if r.C != want {
			return bad("closed (the store is closed)")
		}
		return nil
	}
	switch o.K {
	case "create":
		id, ok := split(o.Tok)
		i2, ok2 := split(o.Ref)
		if !ok || !ok2 {
			if r.C != "invalid" {
				return bad("invalid")
			}
			return nil
		}
		if i2 != id && r.C == "idmismatch" {
			return nil
		}
		if m.touchyPairs(o.Pairs) && r.C == "other" {
			return nil
		}
		if m.touchyKeys([]string{id, o.Tok}) && r.C == "other" {
			return nil
		}
		if r.C != "ok" {
			return bad("ok")
		}
		m.drop(o.Tok)
		m.room(now)
		m.Seq++
		s := &Sess{ID: id, Tok: o.Tok, Ref: o.Ref, ADead: now.Add(m.A), RDead: now.Add(m.R), Data: map[string]string{}, Seq: m.Seq}
		for _, p := range o.Pairs {
			s.Data[p.K] = string(p.V)
		}
		m.S[o.Tok] = s
		return nil
	case "refresh":
		id, ok := split(o.Tok)
		var want []string
		if !ok {
			want = append(want, "invalid")
		}
		for _, t := range []string{o.Ref, o.NTok, o.NRef} {
			i2, ok2 := split(t)
			if !ok2 {
				want = append(want, "invalid")
			} else if ok && i2 != id {
				want = append(want, "idmismatch")
			}
		}
		if len(want) == 0 {
			if m.Status(o.Tok, now) == "notexist" {
				want = append(want, "notexist")
			} else if m.S[o.Tok].Ref != o.Ref {
				want = append(want, "refmismatch")
			}
		}
		if len(want) > 0 {
			for _, w := range want {
				if r.C == w {
					return nil
				}
			}
			return bad(strings.Join(want, " or "))
		}
		if m.touchyKeys([]string{id, o.NTok}) && r.C == "other" {
			return nil
		}
		if r.C != "ok" {
			return bad("ok")
		}
		s := m.S[o.Tok]
		m.drop(o.Tok)
		m.drop(o.NTok)
		m.Seq++
		s.Tok, s.Ref, s.Seq = o.NTok, o.NRef, m.Seq
		s.ADead, s.RDead = now.Add(m.A), now.Add(m.R)
		m.S[o.NTok] = s
		return nil
	case "destroyID":
		if r.C != "ok" {
			return bad("ok")
		}
		for k, s := range m.S {
			if s.ID == o.ID {
				delete(m.S, k)
			}
		}
		return nil
	case "clear":
		if r.C != "ok" {
			return bad("ok")
		}
		m.S = map[string]*Sess{}
		return nil
	case "close":
		if r.C != "ok" {
			return bad("ok")
		}
		m.Closed = true
		return nil
	}
	if _, ok := split(o.Tok); !ok {
		if r.C != "invalid" {
			return bad("invalid")
		}
		return nil
	}
	if o.K == "destroyTok" {
		if r.C != "ok" {
			return bad("ok")
		}
		m.drop(o.Tok)
		return nil
	}
	st := m.Status(o.Tok, now)
	if r.C == "other" && (o.K == "put" && m.touchyPairs(o.Pairs) || (o.K == "del" || o.K == "get") && m.touchyKeys(o.Keys)) {
		return nil
	}
	if r.C != st {
		return bad(st)
	}
	if st != "ok" {
		return nil
	}
	s := m.S[o.Tok]
	switch o.K {
	case "put":
		for _, p := range o.Pairs {
			s.Data[p.K] = string(p.V)
		}
	case "del":
		for _, k := range o.Keys {
			delete(s.Data, k)
		}
	case "get":
		if len(r.Vals) != len(o.Keys) {
			return bad(fmt.Sprintf("%d values", len(o.Keys)))
		}
		for i, k := range o.Keys {
			v, has := s.Data[k]
			if r.Vals[i].Has != has {
				return bad(fmt.Sprintf("key %q present=%v", short(k), has))
			}
			if has && r.Vals[i].B != v {
				return bad(fmt.Sprintf("key %q = %s", short(k), showBytes([]byte(v))))
			}
			if !has && r.Vals[i].B != "" {
				return bad(fmt.Sprintf("key %q without bytes", short(k)))
			}
		}
	case "keys":
		seen := map[string]bool{}
		for _, k := range r.Keys {
			if seen[k] {
				return bad(fmt.Sprintf("key %q only once", short(k)))
			}
			seen[k] = true
			if _, has := s.Data[k]; !has {
				return bad(fmt.Sprintf("no key %q", short(k)))
			}
		}
		for k := range s.Data {
			if !seen[k] {
				return bad(fmt.Sprintf("key %q listed", short(k)))
			}
		}
	}
	return nil
}

// room makes place for one more session.
func (m *Model) room(now time.Time) {
	if m.Max <= 0 {
		return
	}
	for {
		live := m.Live(now)
		if len(live) < m.Max {
			return
		}
		m.Evicted++
		m.drop(live[0].Tok)
	}
}
