package props

import (
	"errors"
	"fmt"
	"testing/synctest"

	"github.com/powerpuffpenguin/sessionid"
	"pgregory.net/rapid"
)

// Throng is an owner of some thousands of sessions, next to others of few.
type Throng struct {
	Kind   string
	N      int
	Every  int // every so many of them are refreshed
	Drop   int // every so many of them are destroyed by token
	Reopen bool
}

func genThrong(t *rapid.T) Throng {
	c := Throng{Kind: rapid.SampledFrom(all).Draw(t, "kind")}
	ns := []int{2100, 4100, 5000, 8200, 10001, 17000}
	if c.Kind == "bolt" {
		ns = []int{1100, 2100, 2600, 4200}
	}
	c.N = rapid.SampledFrom(ns).Draw(t, "n") + rapid.IntRange(0, 30).Draw(t, "more")
	c.Every = rapid.SampledFrom([]int{0, 0, 3, 17, 500}).Draw(t, "refreshed")
	c.Drop = rapid.SampledFrom([]int{0, 0, 2, 7, 300}).Draw(t, "dropped")
	c.Reopen = c.Kind == "bolt" && rapid.Bool().Draw(t, "reopen")
	return c
}

func runThrong(c Throng, r *Rec) error {
	return dropLeak(bubble(func() error {
		w, err := NewWorld(Cfg{Kind: c.Kind, A: 1 << 40, R: 1 << 41})
		if err != nil {
			return err
		}
		defer w.Done()
		r.Label("kind:" + c.Kind)
		check := func(tok string, want error) error {
			e := w.P.Check(bg, tok)
			if e != want && (want == nil || !errors.Is(e, want)) {
				return fail("session %q of %d: %v, want %v", tok, c.N, e, want)
			}
			return nil
		}
		others := []string{"1.o.g", "11.o.g", "1-.o.g", "2.o.g"}
		mine := map[string]bool{} // whether it is there
		var toks []string
		make1 := func(tok string) error {
			if e := w.P.Create(bg, tok, tok+"r", []sessionid.PairBytes{{Key: "k", Value: []byte(tok)}}); e != nil {
				return fail("create: %v", e)
			}
			return nil
		}
		for i := 0; i < c.N; i++ {
			if i < 3 {
				if e := make1(others[1+i]); e != nil {
					return e
				}
			}
			tok := fmt.Sprintf("1.s%d.g", i)
			if e := make1(tok); e != nil {
				return e
			}
			toks = append(toks, tok)
			mine[tok] = true
		}
		for i := 0; i < c.N; i++ {
			tok := toks[i]
			if c.Every > 0 && i%c.Every == 1 {
				n := fmt.Sprintf("1.n%d.g", i)
				if e := w.P.Refresh(bg, tok, tok+"r", n, n+"r"); e != nil {
					return fail("refresh: %v", e)
				}
				toks = append(toks, n)
				mine[tok], mine[n] = false, true
			} else if c.Drop > 0 && i%c.Drop == 1 {
				if e := w.P.DestroyByToken(bg, tok); e != nil {
					return fail("destroy: %v", e)
				}
				mine[tok] = false
			}
		}
		if c.Reopen {
			if e := w.P.Close(); e != nil {
				return fail("close: %v", e)
			}
			w.closeDB()
			if e := w.Open(); e != nil {
				return fail("reopen: %v", e)
			}
		}
		for _, tok := range toks {
			want := sessionid.ErrTokenNotExists
			if mine[tok] {
				want = nil
			}
			if e := check(tok, want); e != nil {
				return e
			}
		}
		synctest.Wait()
		if e := w.P.Destroy(bg, "1"); e != nil {
			return fail("destroy of the owner: %v", e)
		}
		for _, tok := range toks {
			if e := check(tok, sessionid.ErrTokenNotExists); e != nil {
				return e
			}
		}
		for _, tok := range others[1:] {
			if e := check(tok, nil); e != nil {
				return e
			}
		}
		// and the owner may come again
		if e := make1(others[0]); e != nil {
			return e
		}
		if e := check(others[0], nil); e != nil {
			return e
		}
		if e := w.P.Destroy(bg, "1"); e != nil {
			return fail("destroy of the owner: %v", e)
		}
		r.NT()
		return check(others[0], sessionid.ErrTokenNotExists)
	}))
}

func init() {
	reg("C06", "throng", 48, 1000, "an owner of more than a thousand sessions was destroyed", genThrong, runThrong)
}
