package props

import (
	"fmt"
	"sort"
	"strings"
	"testing/synctest"
	"time"
	"unicode/utf8"

	"github.com/powerpuffpenguin/sessionid"
	"pgregory.net/rapid"
)

// POp is an abstract key/value pair: key number, kind and length of the value.
type POp struct {
	K int `json:"k"`
	T int `json:"t"`
	N int `json:"n,omitempty"`
}

// Op is an abstract step of a history.
type Op struct {
	K string `json:"k"`
	S int    `json:"s,omitempty"` // which session
	V int    `json:"v,omitempty"` // variant
	U int    `json:"u,omitempty"` // which owner
	D int64  `json:"d,omitempty"` // milliseconds
	P []POp  `json:"p,omitempty"`
	G []int  `json:"g,omitempty"` // keys
}

// Hist is a configuration and a history.
type Hist struct {
	Cfg  Cfg
	Ops  []Op
	Cfgs []Cfg `json:",omitempty"` // configurations for reopening
}

var idPool = []string{"1", "1-web", "2", "1-we", "12", "a*", "a?", "ab", "a", "a[b]", "*", "\\", "日本", "a b", "", "[", "web", "-1", "k\x00\xff",
	strings.Repeat("x", 300), strings.Repeat("x", 300) + "y", strings.Repeat("日", 23), strings.Repeat("long id ", 150),
	"A", "1 ", "WEB", "Ab"}
var keyPool = []string{"a", "b", "k", "count", "", "metadata", "__private_provider_redis", "日本\xff", "a\x00b", "ab", "data", "ids", "lru", "mk", "K", " ", strings.Repeat("long", 75), "A",
	"mk2", "m", "__private_provider_redis2", "__private_provider", "MK", "a ", " a", "\x00", "k\n"}

func keyName(i int) string {
	if i < 0 {
		i = -i
	}
	if i < len(keyPool) {
		return keyPool[i]
	}
	return fmt.Sprintf("key%04d", i)
}

// genCfg draws a configuration of one of the kinds.
func genCfg(t *rapid.T, kinds ...string) Cfg {
	c := Cfg{Kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
	c.OwnDB = c.Kind == "bolt" && rapid.IntRange(0, 3).Draw(t, "owndb") == 0
	if c.Kind == "redis" {
		if rapid.IntRange(0, 3).Draw(t, "skewed") == 3 { // the server clock is off
			c.Skew = rapid.Int64Range(-3000, 3000).Draw(t, "skew")
		}
		c.Prefix = rapid.SampledFrom([]string{"", "", "", "p*", "s[a].", "日", "a\\b?"}).Draw(t, "prefix")
		c.MetaKey = rapid.SampledFrom([]string{"", "", "mk"}).Draw(t, "metakey")
		c.JSON = rapid.Bool().Draw(t, "json")
	}
	if rapid.IntRange(0, 3).Draw(t, "abroad") == 3 {
		c.Zone = rapid.SampledFrom(zones).Draw(t, "zone")
	}
	return c
}

// genLimit gives some stores a session limit.
func genLimit(t *rapid.T, c *Cfg) {
	if c.Kind != "redis" && rapid.IntRange(0, 3).Draw(t, "limited") == 3 {
		c.Max = rapid.IntRange(1, 6).Draw(t, "max")
	}
}

// genTimes draws life times: short ones of at least a second, not only whole seconds.
func genTimes(t *rapid.T, c *Cfg) {
	d := rapid.SampledFrom([]int64{1000, 1001, 1500, 1999, 2000, 2750, 5000, 10000, 60000, 3600000})
	switch rapid.IntRange(0, 5).Draw(t, "times") {
	case 0:
		c.A = d.Draw(t, "a")
		if c.A > 24*3600000 {
			c.A = 1000
		}
	case 1:
		c.R = d.Draw(t, "r")
	default:
		c.A = d.Draw(t, "a")
		c.R = d.Draw(t, "r")
		if rapid.IntRange(0, 4).Draw(t, "swap") != 0 && c.R < c.A {
			c.A, c.R = c.R, c.A
		}
	}
	c.RFirst = rapid.Bool().Draw(t, "rfirst")
	if c.Kind != "redis" {
		_, r := c.Durations()
		c.Clear = rapid.SampledFrom([]int64{0, 0, 1, 2, 3, -1}).Draw(t, "clear")
		if c.Clear > 0 {
			c.Clear = r.Milliseconds()*c.Clear/3 + 7
		}
	}
	c.Batch = rapid.SampledFrom([]int{0, 0, -100, 1, 2, -1}).Draw(t, "batch")
}

func genPairs(t *rapid.T, most int, big bool) []POp {
	if rapid.IntRange(0, 19).Draw(t, "long") == 19 { // a long list, with repetitions
		n := rapid.IntRange(6, 60).Draw(t, "n")
		if n > 50 {
			n = (n - 50) * 125
		}
		k0, span, vt := rapid.IntRange(0, 40).Draw(t, "k0"), rapid.IntRange(1, max(40, n)).Draw(t, "span"), rapid.SampledFrom([]int{0, 1, 2, 3, 6, 7}).Draw(t, "vt")
		step := rapid.IntRange(1, 9).Draw(t, "step")
		ps := make([]POp, n)
		for i := range ps {
			ps[i] = POp{K: k0 + i*step%span, T: vt * (i % 2), N: 70}
		}
		return ps
	}
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) POp {
		p := POp{K: genKey(t), T: rapid.IntRange(0, 7).Draw(t, "vt")}
		if p.T > 5 {
			p.N = rapid.SampledFrom([]int{0, 8, 24, 56, 64, 120, 200, 300, 1100, 5000}).Draw(t, "same")
		}
		if p.T == 4 {
			n := 200
			if big {
				n = 9000
				if rapid.IntRange(0, 24).Draw(t, "huge") == 24 {
					n = 400000
				}
			}
			p.N = rapid.IntRange(0, n).Draw(t, "vn")
		}
		return p
	}), 0, most).Draw(t, "pairs")
}

func genKey(t *rapid.T) int {
	if rapid.IntRange(0, 2).Draw(t, "anykey") == 0 {
		return rapid.IntRange(0, len(keyPool)-1).Draw(t, "key")
	}
	return rapid.IntRange(0, 3).Draw(t, "key")
}

func genKeys(t *rapid.T, max int) []int {
	return rapid.SliceOfN(rapid.Custom(genKey), 0, max).Draw(t, "keys")
}

// weights of the kinds of step
type weights []struct {
	k string
	w int
}

func genOps(t *rapid.T, ws weights, lo, hi int, big bool) []Op {
	var bag []string
	for _, w := range ws {
		for i := 0; i < w.w; i++ {
			bag = append(bag, w.k)
		}
	}
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op {
		return genOp(t, rapid.SampledFrom(bag).Draw(t, "k"), big)
	}), lo, hi).Draw(t, "ops")
}

func genOp(t *rapid.T, kind string, big bool) Op {
	o := Op{K: kind}
	sel := func() { o.S = rapid.IntRange(0, 23).Draw(t, "s") }
	v := func(n int) { o.V = rapid.IntRange(0, n).Draw(t, "v") }
	switch kind {
	case "create":
		o.U = rapid.IntRange(0, 30).Draw(t, "u")
		v(15)
		sel()
		o.P = genPairs(t, 4, big)
	case "put":
		sel()
		v(15)
		o.P = genPairs(t, 5, big)
	case "bulk":
		sel()
		o.D = rapid.Int64Range(1, 300).Draw(t, "n")
		if o.D > 294 {
			o.D *= 4
		}
	case "again":
		sel()
		o.D = rapid.Int64Range(1, 60).Draw(t, "n")
		if o.D > 57 {
			o.D *= 5
		}
	case "bulkget", "bulkdel":
		sel()
		v(6)
		o.D = rapid.Int64Range(0, 300).Draw(t, "n")
	case "get", "del":
		sel()
		v(15)
		o.G = genKeys(t, 6)
	case "keys", "check":
		sel()
		v(15)
	case "refresh":
		sel()
		v(25)
	case "destroyTok":
		sel()
		v(15)
	case "destroyID":
		o.U = rapid.IntRange(0, 30).Draw(t, "u")
		sel()
		v(14)
	case "adv":
		sel()
		v(7)
		o.D = rapid.Int64Range(1, 4000).Draw(t, "d")
	case "reopen":
		v(3)
		o.D = rapid.Int64Range(0, 3000).Draw(t, "d")
	case "many":
		o.U = rapid.IntRange(0, 30).Draw(t, "u")
		sel()
		v(15)
		o.D = rapid.Int64Range(0, 11).Draw(t, "n")
	case "audit":
		sel()
		v(7)
	case "observe", "clear", "close":
	default:
		panic(kind)
	}
	return o
}

type issuedTok struct{ tok, ref, id string }

// Driver turns abstract steps into calls and keeps the model in step.
type Driver struct {
	W      *World
	M      *Model
	R      *Rec
	Issued []issuedTok
	n      int
	opNo   int
	Wait   bool
	// Horizon, if not zero, is where time ends.
	Horizon time.Time
	Stats   map[string]int
	ids     []string
	Call    func(sessionid.Provider, COp) Res // Exec, or something around it
}

// NewDriver opens a world for the configuration.
func NewDriver(c Cfg, r *Rec) (*Driver, error) {
	w, err := NewWorld(c)
	if err != nil {
		return nil, fail("cannot open the store: %v", err)
	}
	r.Logf("store %+v", c)
	return driverFor(w, r), nil
}

// driverFor drives an open store.
func driverFor(w *World, r *Rec) *Driver {
	c := w.Cfg
	a, rr := c.Durations()
	m := NewModel(a, rr, c.max())
	m.Touchy = c.touchy()
	d := &Driver{W: w, M: m, R: r, Wait: true, Stats: map[string]int{}, Call: Exec}
	for _, id := range idPool {
		if id == "" && c.Kind == "bolt" || c.JSON && !utf8.ValidString(id) {
			continue // bolt has no empty keys, JSON no invalid UTF-8
		}
		d.ids = append(d.ids, id)
	}
	return d
}

func nowT() time.Time { return time.Now() }

func (d *Driver) id(u int) string {
	if u >= len(d.ids) {
		u = (u - len(d.ids)) % 3
	}
	return d.ids[u]
}

func (d *Driver) fresh(id string) (tok, ref string) {
	d.n++
	// some differ from others in the case of a letter or the signature only
	sid, sig := fmt.Sprintf("s%d", d.n), "g"
	switch {
	case d.n%6 == 4:
		sig = "g22"
	case d.n%6 == 5: // the beginning of the last one, if that is of the same owner
		sid, sig = fmt.Sprintf("s%d", d.n-1), "g2"
	case d.n%5 == 3:
		sid += ".x"
	case d.n%7 == 5:
		sid = fmt.Sprintf("S%d", d.n-1)
	case d.n%7 == 2:
		sid, sig = fmt.Sprintf("s%d", d.n-1), "g2"
	}
	return id + "." + sid + "." + sig, id + "." + sid + "r.h" + sig[1:]
}

// pick selects a session: even = a live one, odd = any ever issued.
func (d *Driver) pick(s int) issuedTok {
	if s%2 == 0 {
		live := d.M.Live(time.Now())
		if len(live) > 0 {
			x := live[(s/2)%len(live)]
			return issuedTok{x.Tok, x.Ref, x.ID}
		}
	}
	if len(d.Issued) > 0 {
		return d.Issued[(s/2)%len(d.Issued)]
	}
	return issuedTok{"1.none.g", "1.noner.h", "1"}
}

// near changes a token a little.
func near(tok string, k int) string {
	i := strings.IndexByte(tok, '.')
	j := strings.LastIndexByte(tok, '.')
	if i < 0 || i == j {
		return tok + "x"
	}
	switch k % 9 {
	case 0:
		return tok[:i] + otherCase(tok[i:])
	case 1:
		return otherCase(tok)
	case 2:
		return tok[:len(tok)-1]
	case 3:
		return tok[:j] + ".z" + tok[j+2:]
	case 4:
		return tok[:j] + "x" + tok[j:]
	case 5:
		return tok[:j] + ".y" + tok[j:]
	case 6:
		return tok + " "
	case 7:
		return tok[:i] + ".0" + tok[i+1:]
	}
	return tok + "x"
}

// otherCase swaps the case of every ASCII letter.
func otherCase(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
			b[i] = c ^ 0x20
		}
	}
	return string(b)
}

var malformed = []string{"", "abc", "one.two", ".", "a.", ".b", "\x00", "x y z"}

func (d *Driver) token(s, v int) string {
	x := d.pick(s)
	switch v {
	case 12:
		return x.ref
	case 13:
		return near(x.tok, d.opNo+s)
	case 14:
		return malformed[s%len(malformed)]
	case 15:
		if len(x.tok) > 2 {
			return x.tok[:len(x.tok)-1]
		}
	}
	return x.tok
}

func (d *Driver) value(p POp, i int) []byte {
	tag := fmt.Sprintf("v%d.%d", d.opNo, i)
	switch p.T {
	case 0:
		return []byte(tag)
	case 1:
		return nil
	case 2:
		return []byte{}
	case 3:
		return []byte(tag + "\x00\xff\x80\r\n$-1\r\n")
	case 4:
		b := make([]byte, 0, p.N+len(tag))
		b = append(b, tag...)
		for j := 0; j < p.N; j++ {
			b = append(b, byte(j*7+d.opNo))
		}
		return b
	}
	if p.T > 5 { // as long as others, and different only at one end
		tag = fmt.Sprintf("%04d.%04d", d.opNo, i)
		same := strings.Repeat("s", p.N)
		if p.T == 6 {
			return []byte(same + tag)
		}
		return []byte(tag + same)
	}
	return []byte("x")
}

func (d *Driver) pairs(ps []POp) (out []PB) {
	for i, p := range ps {
		out = append(out, PB{keyName(p.K), d.value(p, i)})
	}
	return
}

func keyNames(g []int) (out []string) {
	for _, k := range g {
		out = append(out, keyName(k))
	}
	return
}

// Concrete turns an abstract call into a concrete one.
func (d *Driver) Concrete(o Op) COp {
	switch o.K {
	case "create":
		id := d.id(o.U)
		if o.V >= 13 { // again with a token issued before
			x := d.pick(o.S)
			_, ref := d.fresh(x.id)
			if o.V == 13 {
				ref = x.ref
			}
			return COp{K: "create", Tok: x.tok, Ref: ref, Pairs: d.pairs(o.P)}
		}
		tok, ref := d.fresh(id)
		return COp{K: "create", Tok: tok, Ref: ref, Pairs: d.pairs(o.P)}
	case "put":
		return COp{K: "put", Tok: d.token(o.S, o.V), Pairs: d.pairs(o.P)}
	case "bulk":
		var ps []PB
		for i := 0; i < int(o.D); i++ {
			ps = append(ps, PB{fmt.Sprintf("bulk%03d", i*7%int(o.D|1)), []byte(fmt.Sprintf("v%d.%d", d.opNo, i))})
		}
		return COp{K: "put", Tok: d.token(o.S, 0), Pairs: ps}
	case "bulkget", "bulkdel": // nearly all the keys of the session, others, and some twice
		tok := d.token(o.S, 0)
		var ks []string
		if x := d.M.S[tok]; x != nil {
			for k := range x.Data {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		if len(ks) > 0 {
			at := int(o.D) % len(ks)
			ks = append(ks[at:len(ks):len(ks)], ks[:at]...)
			switch o.V {
			case 0, 1, 2:
				ks = ks[o.V*len(ks)/9:]
			case 3:
				ks = append(ks[:len(ks)/2:len(ks)/2], ks...)
			case 4:
				ks = append([]string{"absent1", "absent2"}, ks...)
			case 5, 6: // keys that are not there in between
				var some []string
				for i, k := range ks {
					if (i+int(o.D))%(2*o.V-7) == 0 {
						some = append(some, fmt.Sprint("absent", i))
					}
					some = append(some, k)
				}
				ks = some
			}
		}
		return COp{K: o.K[4:], Tok: tok, Keys: ks}
	case "get", "del":
		return COp{K: o.K, Tok: d.token(o.S, o.V), Keys: keyNames(o.G)}
	case "keys", "check", "destroyTok":
		return COp{K: o.K, Tok: d.token(o.S, o.V)}
	case "destroyID":
		id := d.id(o.U)
		switch o.V {
		case 7:
			id = d.pick(o.S).tok
		case 8:
			x := d.pick(o.S).tok
			id = x[:strings.LastIndexByte(x, '.')]
		case 9:
			id = d.pick(o.S).id + "*"
		case 10:
			if x := d.pick(o.S).id; x != "" {
				id = x[:len(x)-1] + "?"
			}
		case 11:
			id = d.pick(o.S).id + "."
		case 12:
			id = otherCase(d.pick(o.S).id)
		case 13:
			id = d.pick(o.S).id + []string{" ", "\x00", "0", "\n"}[d.opNo%4]
		case 14:
			if x := d.pick(o.S).id; x != "" {
				id = x[:len(x)-1]
			}
		}
		return COp{K: "destroyID", ID: id}
	case "refresh":
		x := d.pick(o.S)
		nt, nr := d.fresh(x.id)
		c := COp{K: "refresh", Tok: x.tok, Ref: x.ref, NTok: nt, NRef: nr}
		y := d.pick(o.S + 2)
		switch o.V {
		case 11: // access token as refresh token
			c.Ref = x.tok
		case 12: // halves swapped
			c.Tok, c.Ref = x.ref, x.tok
		case 13, 14: // another session's refresh token
			c.Ref = y.ref
		case 15: // a refresh token used before
			c.Ref = d.old(x)
		case 16: // same access token again
			c.NTok = x.tok
		case 17: // both the same again
			c.NTok, c.NRef = x.tok, x.ref
		case 18: // another session's access token as the new one
			if y.id == x.id {
				c.NTok = y.tok
			}
		case 19: // new tokens of another owner
			c.NTok, c.NRef = d.fresh(d.id(o.S))
		case 20:
			c.Tok = malformed[o.S%len(malformed)]
		case 21:
			c.Ref = malformed[o.S%len(malformed)]
		case 22, 24:
			c.Ref = near(x.ref, d.opNo+o.S)
		case 25:
			c.Tok = near(x.tok, d.opNo+o.S)
		case 23:
			c.NTok = malformed[o.S%len(malformed)]
		}
		return c
	case "clear", "close":
		return COp{K: o.K}
	}
	panic("bad op " + o.K)
}

// old finds a refresh token issued to the same owner earlier.
func (d *Driver) old(x issuedTok) string {
	for i := len(d.Issued) - 1; i >= 0; i-- {
		if y := d.Issued[i]; y.id == x.id && y.ref != x.ref {
			return y.ref
		}
	}
	return x.ref + "0"
}

// Do performs one concrete call and checks it.
func (d *Driver) Do(c COp) (Res, error) {
	now := time.Now()
	before := d.M.Evicted
	r := d.Call(d.W.P, c)
	if d.Wait {
		synctest.Wait()
	}
	d.R.Logf("%s %s -> %s", now.Sub(epoch), c, r)
	if r.C == "ok" && (c.K == "create" || c.K == "refresh") {
		x := issuedTok{c.Tok, c.Ref, ""}
		if c.K == "refresh" {
			x = issuedTok{c.NTok, c.NRef, ""}
		}
		x.id, _ = split(x.tok)
		d.Issued = append(d.Issued, x)
	}
	if err := d.M.Step(c, r, now); err != nil {
		return r, err
	}
	d.Stats[c.K+":"+r.C]++
	if d.M.Evicted > before {
		d.Stats["evict"]++
	}
	return r, nil
}

var epoch = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)

// Advance moves the clock, never stopping exactly on a deadline.
func (d *Driver) Advance(o Op) {
	now := time.Now()
	dl := d.M.Deadlines()
	var future []time.Time
	for _, x := range dl {
		if x.After(now) {
			future = append(future, x)
		}
	}
	by := ms(o.D)
	switch o.V {
	case 0, 1:
	case 2:
		by = ms(o.D % 20)
	case 3:
		by = d.M.R*time.Duration(o.D)/3000 + time.Millisecond
	default:
		if len(future) > 0 {
			by = future[o.S%len(future)].Sub(now)
			if o.V >= 6 {
				by -= time.Millisecond
			} else {
				by += time.Millisecond
			}
		}
	}
	by = by.Round(time.Millisecond)
	if !d.Horizon.IsZero() && now.Add(by).After(d.Horizon) {
		by = 0
	}
	if by <= 0 {
		by = time.Millisecond
	}
	for again := true; again; {
		again = false
		for _, x := range future {
			if x.Equal(now.Add(by)) {
				by += time.Millisecond
				again = true
			}
		}
	}
	d.R.Logf("advance %s", by)
	time.Sleep(by)
	synctest.Wait()
	d.Stats["adv"]++
}

// Observe reads everything through every token ever issued.
func (d *Driver) Observe() error {
	seen := map[string]bool{}
	var toks []string
	for _, x := range d.Issued {
		for _, t := range []string{x.tok, x.ref} {
			if !seen[t] {
				seen[t] = true
				toks = append(toks, t)
			}
		}
	}
	if len(toks) > 40 {
		toks = toks[len(toks)-40:]
	}
	for _, t := range toks {
		if _, err := d.Do(COp{K: "check", Tok: t}); err != nil {
			return err
		}
		s := d.M.S[t]
		if s == nil {
			continue
		}
		if _, err := d.Do(COp{K: "keys", Tok: t}); err != nil {
			return err
		}
		ks := append([]string{}, keyPool[:4]...)
		ks = append(ks, sortedKeys(s.Data)...)
		ks = append(ks, "bulk000", "nokey")
		if _, err := d.Do(COp{K: "get", Tok: t, Keys: ks}); err != nil {
			return err
		}
	}
	return nil
}

// ObserveRefresh refreshes every live session properly and reads it again.
func (d *Driver) ObserveRefresh() error {
	for _, s := range d.M.Live(time.Now()) {
		nt, nr := d.fresh(s.ID)
		if _, err := d.Do(COp{K: "refresh", Tok: s.Tok, Ref: s.Ref, NTok: nt, NRef: nr}); err != nil {
			return err
		}
	}
	return d.Observe()
}

// Reopen closes the store, lets time pass, and opens it again with c.
func (d *Driver) Reopen(c Cfg, pause time.Duration) error {
	r := Exec(d.W.P, COp{K: "close"})
	if r.C != "ok" {
		return fail("close before reopening: %s", r)
	}
	d.W.closeDB()
	synctest.Wait()
	if pause > 0 {
		d.Advance(Op{D: pause.Milliseconds()})
	}
	d.R.Logf("reopen %+v", c)
	if c.Clear > 0 { // not so often that the wait for a deadline of the old times takes forever
		for _, x := range d.M.Deadlines() {
			c.Clear = max(c.Clear, time.Until(x).Milliseconds()/200)
		}
	}
	d.W.Cfg = c
	if err := d.W.Open(); err != nil {
		return fail("cannot reopen the store: %v", err)
	}
	a, rr := c.Durations()
	d.M.A, d.M.R, d.M.Max = a, rr, c.max()
	d.Stats["reopen"]++
	return nil
}

// Step performs one abstract step.
func (d *Driver) Step(o Op, cfgs []Cfg) error {
	d.opNo++
	switch o.K {
	case "adv":
		d.Advance(o)
		return nil
	case "observe":
		return d.Observe()
	case "clear":
		if d.W.Cfg.Kind != "bolt" {
			return nil
		}
	case "reopen":
		if d.W.Cfg.Kind == "memory" {
			return nil
		}
		c := d.W.Cfg
		if len(cfgs) > 0 {
			c = cfgs[o.V%len(cfgs)]
		}
		return d.Reopen(c, ms(o.D))
	}
	if o.K == "again" { // one session is refreshed again and again
		x := d.pick(o.S)
		for i := 0; i < int(o.D); i++ {
			nt, nr := d.fresh(x.id)
			r, err := d.Do(COp{K: "refresh", Tok: x.tok, Ref: x.ref, NTok: nt, NRef: nr})
			if err != nil || r.C != "ok" {
				return err
			}
			x.tok, x.ref = nt, nr
		}
		return nil
	}
	_, err := d.Do(d.Concrete(o))
	return err
}

// runHist runs a history in lockstep with the model.
func runHist(h Hist, r *Rec, nontrivial func(*Driver) bool, final func(*Driver) error) error {
	return runHistFrom(h, r, func(*Driver) {}, nontrivial, final)
}

func runHistFrom(h Hist, r *Rec, first func(*Driver), nontrivial func(*Driver) bool, final func(*Driver) error) error {
	err := bubble(func() error {
		d, err := NewDriver(h.Cfg, r)
		if err != nil {
			return err
		}
		defer d.W.Done()
		first(d)
		r.Label("kind:" + h.Cfg.Kind)
		for _, o := range h.Ops {
			if err := d.Step(o, h.Cfgs); err != nil {
				return err
			}
		}
		if err := d.Observe(); err != nil {
			return err
		}
		if final != nil {
			if err := final(d); err != nil {
				return err
			}
		}
		for k := range d.Stats {
			r.Label(k)
		}
		if nontrivial(d) {
			r.NT()
		}
		return nil
	})
	if errKind(err) == "leak" {
		return nil // decided by C14 only
	}
	return err
}

func has(d *Driver, ks ...string) bool {
	for _, k := range ks {
		if d.Stats[k] == 0 {
			return false
		}
	}
	return true
}
