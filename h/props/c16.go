package props

import (
	"fmt"
	"strings"

	"github.com/powerpuffpenguin/sessionid"
	"pgregory.net/rapid"
)

// kept is something a store returned, and what it was then.
type kept struct {
	op   string
	vals []sessionid.Value
	keys []string
	was  []Val
	wask []string
}

func (k *kept) changed() string {
	for i, v := range k.vals {
		if v.Exists != k.was[i].Has || string(v.Bytes) != k.was[i].B {
			return fmt.Sprintf("value %d returned by %s was %s, now it is %s", i, k.op, showBytes([]byte(k.was[i].B)), showBytes(v.Bytes))
		}
	}
	for i, s := range k.keys {
		if s != k.wask[i] {
			return fmt.Sprintf("key %d returned by %s was %q, now it is %q", i, k.op, k.wask[i], s)
		}
	}
	return ""
}

// spoil overwrites bytes, also those behind them.
func spoil(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = 0xA5
	}
}

func spoilKeys(k []string) {
	k = k[:cap(k)]
	for i := range k {
		k[i] = "spoiled"
	}
}

type aliaser struct {
	kept    []*kept
	spoils  int
	checked int
	every   int // every how many results are spoiled
	n       int
}

// roomy copies b into a slice with room behind it.
func roomy(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append(make([]byte, 0, len(b)+16), b...)
}

func (a *aliaser) call(p sessionid.Provider, o COp) (r Res) {
	defer func() {
		if x := recover(); x != nil {
			r.C, r.E = "panic", fmt.Sprint(x)
		}
	}()
	var e error
	ps := make([]sessionid.PairBytes, 0, len(o.Pairs)+3)
	for _, x := range o.Pairs {
		ps = append(ps, sessionid.PairBytes{Key: x.K, Value: roomy(x.V)})
	}
	ks := append(make([]string, 0, len(o.Keys)+3), o.Keys...)
	switch o.K {
	case "create":
		e = p.Create(bg, o.Tok, o.Ref, ps)
	case "put":
		e = p.Put(bg, o.Tok, ps)
	case "get":
		var vs []sessionid.Value
		vs, e = p.Get(bg, o.Tok, ks)
		for _, v := range vs {
			r.Vals = append(r.Vals, Val{v.Exists, string(v.Bytes)})
		}
		if e == nil && len(vs) > 0 {
			a.kept = append(a.kept, &kept{op: o.String(), vals: vs, was: append([]Val{}, r.Vals...)})
		}
	case "keys":
		var got []string
		got, e = p.Keys(bg, o.Tok)
		r.Keys = append(r.Keys, got...)
		if e == nil && len(got) > 0 {
			k := &kept{op: o.String(), keys: got}
			for i, s := range got {
				r.Keys[i] = strings.Clone(s)
				k.wask = append(k.wask, r.Keys[i])
			}
			a.kept = append(a.kept, k)
		}
	case "del":
		e = p.Delete(bg, o.Tok, ks)
	default:
		return Exec(p, o)
	}
	r.C = class(e)
	if e != nil {
		r.E = e.Error()
	}
	for i := range ps {
		spoil(ps[i].Value)
	}
	ps = ps[:cap(ps)]
	for i := range ps {
		ps[i] = sessionid.PairBytes{Key: "spoiled", Value: []byte("spoiled")}
	}
	spoilKeys(ks)
	return
}

// verify looks at everything returned so far, and spoils some of it.
func (a *aliaser) verify() error {
	for _, k := range a.kept {
		if s := k.changed(); s != "" {
			return fail("%s", s)
		}
		a.checked++
	}
	for ; a.n < len(a.kept); a.n++ {
		if a.every > 0 && a.n%a.every == 0 {
			k := a.kept[a.n]
			one := -1 // one of the values, or all of them
			if a.n/a.every%2 == 0 && len(k.vals) > 1 {
				one = a.n / a.every / 2 % len(k.vals)
			}
			for i := range k.vals {
				if one >= 0 && i != one {
					continue
				}
				if one >= 0 { // the others may lie behind it
					spoil(k.vals[i].Bytes[:len(k.vals[i].Bytes):len(k.vals[i].Bytes)])
				} else {
					spoil(k.vals[i].Bytes)
				}
				k.was[i].B = string(k.vals[i].Bytes)
				a.spoils++
			}
			spoilKeys(k.keys)
			for i := range k.keys {
				k.wask[i] = strings.Clone(k.keys[i])
				a.spoils++
			}
		}
	}
	// what was spoiled must not have been shared with anything else
	for _, k := range a.kept {
		if s := k.changed(); s != "" {
			return fail("after changing something else which was returned: %s", s)
		}
	}
	return nil
}

// C16Case is a history whose arguments and results are modified.
type C16Case struct {
	Hist
	Every int
}

func init() {
	reg("C16", "alias", 90000, 2000000, "results were kept over later writes, and results and arguments were changed",
		func(t *rapid.T) C16Case {
			c := genCfg(t, "memory", "bolt", "bolt", "redis")
			ws := weights{{"create", 3}, {"put", 9}, {"get", 9}, {"keys", 4}, {"del", 3}, {"bulk", 1}, {"refresh", 2}, {"destroyTok", 1}, {"destroyID", 1}}
			if c.Kind == "bolt" {
				ws = append(ws, weights{{"reopen", 1}, {"clear", 1}}...)
			}
			if rapid.IntRange(0, 3).Draw(t, "timed") == 0 {
				genTimes(t, &c)
				ws = append(ws, weights{{"adv", 2}}...)
			}
			if c.Kind != "redis" && rapid.IntRange(0, 3).Draw(t, "limited") == 0 {
				c.Max = rapid.IntRange(1, 3).Draw(t, "max")
			}
			h := Hist{Cfg: c}
			h.Ops = append([]Op{genOp(t, "create", true)}, genOps(t, ws, 8, 50, true)...)
			return C16Case{h, rapid.IntRange(1, 3).Draw(t, "every")}
		},
		runC16)
	reg("C16", "vast", 400, 10000, "results were kept over later writes, and results and arguments were changed", func(t *rapid.T) C16Case {
		c := genCfg(t, "memory", "bolt", "bolt", "redis")
		return C16Case{genVast(t, c, weights{{"create", 2}, {"put", 5}, {"get", 5}, {"bulk", 1}, {"bulkget", 1}, {"keys", 1}, {"refresh", 2}}), rapid.IntRange(1, 3).Draw(t, "every")}
	}, runC16)
}

func runC16(c C16Case, r *Rec) error {
	return dropLeak(bubble(func() error {
		d, err := NewDriver(c.Cfg, r)
		if err != nil {
			return err
		}
		defer d.W.Done()
		a := &aliaser{every: c.Every}
		d.Call = a.call
		r.Label("kind:" + c.Cfg.Kind)
		for _, o := range c.Ops {
			if err := d.Step(o, c.Cfgs); err != nil {
				return err
			}
			if err := a.verify(); err != nil {
				return err
			}
		}
		if err := d.Observe(); err != nil {
			return err
		}
		if err := a.verify(); err != nil {
			return err
		}
		if _, err := d.Do(COp{K: "close"}); err != nil {
			return err
		}
		d.W.closeDB()
		if err := a.verify(); err != nil {
			return fail("after closing: %w", err)
		}
		for k := range d.Stats {
			r.Label(k)
		}
		if a.spoils > 2 && a.checked > 20 && d.Stats["put:ok"] > 0 {
			r.NT()
		}
		return nil
	}))
}
