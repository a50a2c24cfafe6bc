package props

import (
	"math"
	"time"

	"pgregory.net/rapid"
)

var all = []string{"memory", "bolt", "redis"}

func init() {
	reg("C03", "data", 54000, 1440000, "a value was overwritten or deleted after being read, and read again",
		func(t *rapid.T) Hist {
			c := genCfg(t, all...)
			genLimit(t, &c)
			ws := weights{{"create", 3}, {"put", 8}, {"get", 6}, {"keys", 4}, {"del", 5}, {"bulk", 2}, {"bulkget", 2}, {"bulkdel", 2}, {"check", 1}, {"observe", 1}}
			if c.Kind == "bolt" {
				ws = append(ws, weights{{"reopen", 1}}...)
			}
			h := Hist{Cfg: c}
			h.Ops = append([]Op{genOp(t, "create", true)}, genOps(t, ws, 8, 60, true)...)
			return h
		},
		func(h Hist, r *Rec) error {
			return runHist(h, r, func(d *Driver) bool {
				return d.Stats["put:ok"] >= 2 && has(d, "del:ok", "get:ok", "keys:ok")
			}, nil)
		})

	reg("C04", "expiry", 54000, 1440000, "a session was seen live, expired and gone",
		func(t *rapid.T) Hist {
			c := genCfg(t, all...)
			genLimit(t, &c)
			genTimes(t, &c)
			ws := weights{{"create", 3}, {"put", 2}, {"get", 3}, {"keys", 2}, {"del", 1}, {"check", 4}, {"adv", 10}, {"refresh", 3}, {"observe", 2}}
			return Hist{Cfg: c, Ops: append([]Op{genOp(t, "create", false)}, genOps(t, ws, 12, 60, false)...)}
		},
		func(h Hist, r *Rec) error {
			return runHist(h, r, func(d *Driver) bool {
				return has(d, "check:ok", "check:expired", "check:notexist")
			}, func(d *Driver) error {
				// walk every remaining session over its deadlines
				for i := 0; i < 8 && len(d.M.S) > 0; i++ {
					d.Advance(Op{V: 6 - 2*(i%2), S: 0})
					if err := d.Observe(); err != nil {
						return err
					}
				}
				return nil
			})
		})

	reg("C04", "forever", 12000, 300000, "a session of a life time of more than fifty years was seen live after years",
		func(t *rapid.T) Hist {
			c := genCfg(t, all...)
			const year = 365 * 24 * 3600000
			d := rapid.SampledFrom([]int64{math.MaxInt64 / 1000000, math.MaxInt64/1000000 + 1, math.MaxInt64/1000000 + 1, 291 * year, 250 * year, 69 * year, 50 * year, 25 * 24 * 3600000, 1000})
			c.A, c.R = rapid.SampledFrom([]int64{0, 1}).Draw(t, "a given")*d.Draw(t, "a"), d.Draw(t, "r")
			c.RFirst = rapid.Bool().Draw(t, "rfirst")
			if c.Kind != "redis" {
				c.Clear = rapid.SampledFrom([]int64{0, 30 * year, math.MaxInt64/1000000 + 1}).Draw(t, "clear")
			}
			ws := weights{{"create", 3}, {"put", 2}, {"get", 3}, {"keys", 2}, {"del", 1}, {"check", 4}, {"adv", 3}, {"refresh", 3}, {"destroyTok", 1}}
			h := Hist{Cfg: c, Ops: append([]Op{genOp(t, "create", false)}, genOps(t, ws, 8, 30, false)...)}
			for i := range h.Ops {
				if o := &h.Ops[i]; o.K == "adv" && o.V < 4 {
					o.V, o.D = 0, o.D*rapid.SampledFrom([]int64{1, 86400, 86400 * 1000, 86400 * 9999}).Draw(t, "d")
				}
			}
			return h
		},
		func(h Hist, r *Rec) error {
			var since time.Time
			return runHistFrom(h, r, func(d *Driver) {
				since = time.Now()
				d.Horizon = since.AddDate(120, 0, 0)
			}, func(d *Driver) bool {
				return d.M.R > 50*365*24*time.Hour && time.Since(since) > 365*24*time.Hour && len(d.M.Live(time.Now())) > 0
			}, nil)
		})

	reg("C05", "refresh", 54000, 1440000, "at least two successful refreshes and a refused one",
		func(t *rapid.T) Hist {
			c := genCfg(t, all...)
			genLimit(t, &c)
			genTimes(t, &c)
			ws := weights{{"create", 4}, {"put", 3}, {"get", 1}, {"del", 1}, {"keys", 1}, {"check", 1}, {"adv", 3}, {"refresh", 14}, {"destroyTok", 1}, {"observe", 1}, {"bulk", 1}, {"again", 1}}
			big := rapid.IntRange(0, 3).Draw(t, "big") == 3
			return Hist{Cfg: c, Ops: append([]Op{genOp(t, "create", big)}, genOps(t, ws, 12, 60, big)...)}
		},
		func(h Hist, r *Rec) error {
			return runHist(h, r, func(d *Driver) bool {
				return d.Stats["refresh:ok"] >= 2 && d.Stats["refresh:refmismatch"]+d.Stats["refresh:idmismatch"]+d.Stats["refresh:notexist"] > 0
			}, func(d *Driver) error {
				return d.ObserveRefresh()
			})
		})

	reg("C06", "destroy", 54000, 1440000, "destroyed by token and by an owner id with sessions, other sessions staying",
		func(t *rapid.T) Hist {
			c := genCfg(t, all...)
			genLimit(t, &c)
			if rapid.IntRange(0, 3).Draw(t, "timed") == 0 {
				genTimes(t, &c)
			}
			ws := weights{{"create", 10}, {"put", 2}, {"refresh", 4}, {"destroyTok", 4}, {"destroyID", 6}, {"check", 1}, {"observe", 1}, {"adv", 1}}
			if c.Kind == "bolt" {
				ws = append(ws, weights{{"clear", 1}, {"reopen", 1}}...)
			}
			return Hist{Cfg: c, Ops: append([]Op{genOp(t, "create", false), genOp(t, "create", false)}, genOps(t, ws, 12, 60, false)...)}
		},
		func(h Hist, r *Rec) error {
			return runHist(h, r, func(d *Driver) bool {
				return has(d, "destroyTok:ok", "destroyID:ok") && d.Stats["create:ok"] > 3
			}, func(d *Driver) error {
				return d.ObserveRefresh()
			})
		})

	reg("C07", "limit", 54000, 1440000, "a live session was evicted",
		func(t *rapid.T) Hist {
			c := genCfg(t, "memory", "bolt")
			if rapid.IntRange(0, 2).Draw(t, "timed") == 0 {
				genTimes(t, &c)
			}
			c.Max = rapid.SampledFrom([]int{1, 2, 3, 3, 4, 5, 8, 0, -1, -100}).Draw(t, "max")
			h := Hist{Cfg: c}
			ws := weights{{"create", 12}, {"put", 1}, {"get", 1}, {"refresh", 6}, {"destroyTok", 2}, {"destroyID", 1}, {"check", 1}, {"observe", 2}, {"adv", 2}}
			if c.Kind == "bolt" {
				ws = append(ws, weights{{"clear", 1}, {"reopen", 1}}...)
				c2 := c
				c2.Max = rapid.SampledFrom([]int{1, 2, 3, 5, 0}).Draw(t, "max2")
				h.Cfgs = []Cfg{c, c2}
			}
			h.Ops = genOps(t, ws, 16, 70, false)
			return h
		},
		func(h Hist, r *Rec) error {
			return runHist(h, r, func(d *Driver) bool { return has(d, "evict") || (h.Cfg.Max <= 0 && d.Stats["create:ok"] > 6) }, nil)
		})

	reg("C08", "reopen", 15000, 400000, "reopened at least twice with sessions in it",
		func(t *rapid.T) Hist {
			c := genCfg(t, "bolt")
			genTimes(t, &c)
			h := Hist{}
			limited := rapid.Bool().Draw(t, "limited")
			if limited {
				c.Max = rapid.IntRange(2, 5).Draw(t, "max")
			}
			h.Cfg = c
			for i := 0; i < 3; i++ {
				c2 := c
				c2.OwnDB = rapid.Bool().Draw(t, "own")
				if rapid.IntRange(0, 3).Draw(t, "moved") == 3 {
					c2.Zone = rapid.SampledFrom(append([]string{""}, zones...)).Draw(t, "zone")
				}
				if !limited {
					genTimes(t, &c2)
				} else {
					c2.Max = rapid.IntRange(1, 6).Draw(t, "max2")
					c2.Batch = rapid.SampledFrom([]int{0, -100, 1}).Draw(t, "batch2")
				}
				h.Cfgs = append(h.Cfgs, c2)
			}
			ws := weights{{"create", 6}, {"put", 4}, {"refresh", 4}, {"destroyTok", 1}, {"destroyID", 1}, {"del", 2}, {"get", 1}, {"keys", 1}, {"observe", 1}, {"adv", 2}, {"reopen", 6}, {"bulk", 1}}
			h.Ops = append([]Op{genOp(t, "create", true)}, genOps(t, ws, 12, 60, true)...)
			return h
		},
		func(h Hist, r *Rec) error {
			return runHist(h, r, func(d *Driver) bool { return d.Stats["reopen"] >= 2 && d.Stats["create:ok"] >= 2 }, func(d *Driver) error {
				if err := d.Reopen(d.W.Cfg, 0); err != nil {
					return err
				}
				return d.Observe()
			})
		})
}
