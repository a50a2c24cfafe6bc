package props

import (
	"errors"
	"fmt"
	"testing/synctest"

	"github.com/powerpuffpenguin/sessionid"
	"pgregory.net/rapid"
)

// Marathon is a very long history of a store: counters pass 2^16 both of
// sessions ever made and, where Many, of sessions held at once.
type Marathon struct {
	Kind   string
	Many   bool
	Max    int
	Owners int
	N      int
	Mix    int // every so many steps a refresh or a destruction instead
	Reopen int // reopened after so many steps (bolt)
}

func genMarathon(t *rapid.T) Marathon {
	c := Marathon{Kind: rapid.SampledFrom([]string{"memory", "bolt"}).Draw(t, "kind"), Many: rapid.IntRange(0, 3).Draw(t, "many") == 3}
	if c.Kind == "memory" {
		c.Many = c.Many || rapid.Bool().Draw(t, "many2")
	}
	c.Owners = rapid.SampledFrom([]int{1, 3, 50}).Draw(t, "owners")
	c.Max = rapid.IntRange(1, 9).Draw(t, "max")
	c.N = 66000 + rapid.IntRange(0, 900).Draw(t, "n")
	c.Mix = rapid.IntRange(2, 9).Draw(t, "mix")
	if c.Many {
		c.Owners = 2000
		c.Max = 65500 + rapid.IntRange(0, 400).Draw(t, "max2")
		c.N = c.Max + rapid.IntRange(1, 60).Draw(t, "over")
		c.Mix = 1000
	}
	c.Reopen = rapid.IntRange(1, c.N).Draw(t, "reopen")
	return c
}

func runMarathon(c Marathon, r *Rec) error {
	return dropLeak(bubble(func() error {
		w, err := NewWorld(Cfg{Kind: c.Kind, A: 1 << 40, R: 1 << 41, Max: c.Max})
		if err != nil {
			return err
		}
		defer w.Done()
		r.Label("kind:" + c.Kind)
		type sess struct{ tok, ref string }
		var live []sess // oldest first
		serial := 0
		name := func(owner int) sess {
			serial++
			return sess{fmt.Sprintf("u%d.s%d.g", owner, serial), fmt.Sprintf("u%d.r%d.g", owner, serial)}
		}
		gone := func(s sess, why string) error {
			e := w.P.Check(bg, s.tok)
			synctest.Wait()
			if !errors.Is(e, sessionid.ErrTokenNotExists) {
				return fail("session %s %s, and Check says %v (%d sessions were made before, limit %d)", s.tok, why, e, serial, c.Max)
			}
			return nil
		}
		here := func(s sess) error {
			v, e := w.P.Get(bg, s.tok, []string{"n"})
			synctest.Wait()
			if e != nil || len(v) != 1 || string(v[0].Bytes) != s.tok {
				return fail("session %s should be live with its data: %q %v (%d sessions were made, limit %d, %d live)", s.tok, v, e, serial, c.Max, len(live))
			}
			return nil
		}
		ended := 0 // destroyed or replaced
		for i := 0; serial < c.N+ended; i++ {
			if i == c.Reopen && c.Kind == "bolt" {
				if e := w.P.Close(); e != nil {
					return fail("close: %v", e)
				}
				w.closeDB()
				if e := w.Open(); e != nil {
					return fail("reopen: %v", e)
				}
			}
			if i%c.Mix == c.Mix-1 && len(live) > 0 {
				at := i / c.Mix % len(live)
				s := live[at]
				owner := 0
				fmt.Sscanf(s.tok, "u%d.", &owner)
				live = append(live[:at], live[at+1:]...)
				if c.Many {
					ended++
				}
				if i%3 == 0 {
					if e := w.P.DestroyByToken(bg, s.tok); e != nil {
						return fail("destroy: %v", e)
					}
				} else {
					n := name(owner)
					if e := w.P.Refresh(bg, s.tok, s.ref, n.tok, n.ref); e != nil {
						return fail("refresh of %s, %d sessions made, limit %d: %v", s.tok, serial, c.Max, e)
					}
					if e := w.P.Put(bg, n.tok, []sessionid.PairBytes{{Key: "n", Value: []byte(n.tok)}}); e != nil {
						return fail("put: %v", e)
					}
					live = append(live, n)
				}
				if e := gone(s, "was destroyed or replaced"); e != nil {
					return e
				}
				continue
			}
			s := name(i % c.Owners)
			if e := w.P.Create(bg, s.tok, s.ref, []sessionid.PairBytes{{Key: "n", Value: []byte(s.tok)}}); e != nil {
				return fail("create: %v", e)
			}
			live = append(live, s)
			if len(live) > c.Max {
				if e := gone(live[0], "is the oldest of one too many"); e != nil {
					return e
				}
				live = live[1:]
			}
			if i%50 == 0 || serial > c.N+ended-60 {
				if e := here(live[0]); e != nil {
					return e
				}
				if e := here(live[len(live)/2]); e != nil {
					return e
				}
			}
		}
		for i, s := range live {
			if len(live) < 100 || i < 100 || i%97 == 0 {
				if e := here(s); e != nil {
					return e
				}
			}
		}
		r.NT()
		return nil
	}))
}

func init() {
	reg("C07", "marathon", 8, 64, "more than 65536 sessions were made in one store", genMarathon, runMarathon)
}
