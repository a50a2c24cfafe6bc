package props

import "pgregory.net/rapid"

// genVast makes a short history over sessions with values of up to some megabytes, or many thousands of keys.
func genVast(t *rapid.T, c Cfg, ws weights) Hist {
	h := Hist{Cfg: c}
	h.Ops = append([]Op{genOp(t, "create", false)}, genOps(t, ws, 4, 16, false)...)
	sizes := []int{1 << 16, 1 << 16, 1 << 17, 1 << 18, 1 << 19, 1000000, 1 << 20, 1 << 20, 1 << 21, 1 << 22}
	for i := range h.Ops {
		switch o := &h.Ops[i]; o.K {
		case "create", "put":
			o.V %= 13
			n := rapid.SampledFrom([]int{1, 1, 1, 2, 3, 40}).Draw(t, "n")
			o.P = nil
			for j := 0; j < n; j++ {
				p := POp{K: rapid.IntRange(0, 5).Draw(t, "key"), T: rapid.SampledFrom([]int{4, 6, 6, 7}).Draw(t, "vt")}
				p.N = rapid.SampledFrom(sizes).Draw(t, "size")
				if n == 40 {
					p.K, p.N = j, 1<<16
				}
				p.N += rapid.IntRange(-24, 24).Draw(t, "off")
				o.P = append(o.P, p)
			}
		case "bulk":
			o.D = rapid.SampledFrom([]int64{1500, 2500, 4100, 5000, 9000, 17000}).Draw(t, "d") + rapid.Int64Range(0, 9).Draw(t, "off")
		}
	}
	return h
}

func init() {
	vast := func(d *Driver) bool { return d.Stats["put:ok"] > 0 && d.Stats["get:ok"] > 0 }
	reg("C03", "vast", 800, 20000, "something was put and read", func(t *rapid.T) Hist {
		c := genCfg(t, all...)
		ws := weights{{"create", 1}, {"put", 6}, {"get", 5}, {"keys", 2}, {"del", 2}, {"bulk", 3}, {"bulkget", 2}, {"bulkdel", 2}}
		return genVast(t, c, ws)
	}, func(h Hist, r *Rec) error { return runHist(h, r, vast, nil) })
	reg("C05", "vast", 800, 20000, "a session was refreshed", func(t *rapid.T) Hist {
		c := genCfg(t, all...)
		ws := weights{{"create", 2}, {"put", 4}, {"del", 1}, {"bulk", 3}, {"refresh", 7}}
		return genVast(t, c, ws)
	}, func(h Hist, r *Rec) error {
		return runHist(h, r, func(d *Driver) bool { return d.Stats["refresh:ok"] > 0 }, func(d *Driver) error { return d.ObserveRefresh() })
	})
	reg("C08", "vast", 400, 10000, "the store was reopened with a session in it", func(t *rapid.T) Hist {
		c := genCfg(t, "bolt")
		ws := weights{{"create", 2}, {"put", 4}, {"del", 1}, {"bulk", 3}, {"refresh", 3}, {"reopen", 4}}
		h := genVast(t, c, ws)
		h.Cfgs = []Cfg{c}
		return h
	}, func(h Hist, r *Rec) error {
		return runHist(h, r, func(d *Driver) bool { return d.Stats["reopen"] > 0 && d.Stats["put:ok"] > 0 }, func(d *Driver) error { return d.Reopen(d.W.Cfg, 0) })
	})
}
