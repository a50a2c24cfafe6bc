package props

import (
	"bufio"
	"bytes"
	"crypto/hmac"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"github.com/powerpuffpenguin/sessionid"
	"github.com/powerpuffpenguin/sessionid/cryptoer"
	"pgregory.net/rapid"
)

var methodNames = []string{"HMD5", "HS1", "HS256", "HS384", "HS512"}

func method(i int) cryptoer.SigningMethod {
	return []cryptoer.SigningMethod{cryptoer.SigningMethodHMD5, cryptoer.SigningMethodHS1, cryptoer.SigningMethodHS256, cryptoer.SigningMethodHS384, cryptoer.SigningMethodHS512}[i%5]
}

// oracleSig is the signature a text must have, computed without the code under test.
func oracleSig(m int, key []byte, text string) string {
	h := hmac.New([]func() hash.Hash{md5.New, sha1.New, sha256.New, sha512.New384, sha512.New}[m%5], key)
	h.Write([]byte(text))
	return base64.RawURLEncoding.EncodeToString(h.Sum(nil))
}

// oracleValid says whether s is exactly a signed token.
func oracleValid(m int, key []byte, s string) bool {
	i := strings.LastIndexByte(s, '.')
	if i < 0 || strings.IndexByte(s[:i], '.') < 0 {
		return false
	}
	return s[i+1:] == oracleSig(m, key, s[:i])
}

func genBytes(max int) *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		switch rapid.IntRange(0, 3).Draw(t, "bk") {
		case 0:
			return rapid.SliceOfN(rapid.Byte(), 0, max).Draw(t, "b")
		case 1:
			return []byte(rapid.StringN(0, max/4, max).Draw(t, "s"))
		case 2:
			return []byte(rapid.SampledFrom([]string{"", "k", "1", "user@example.com", "a.b", "*", "1-web", "x\x00", "日本語"}).Draw(t, "f"))
		}
		return bytes.Repeat([]byte{rapid.Byte().Draw(t, "c")}, rapid.IntRange(0, max).Draw(t, "n"))
	})
}

// genSecret makes keys, a few of them far longer than any block.
func genSecret(max int) *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		if rapid.IntRange(0, 40).Draw(t, "longkey") == 40 {
			return genLong(70000).Draw(t, "long")
		}
		return genBytes(max).Draw(t, "short")
	})
}

// genLong makes ids around the sizes at which buffers and key lengths change.
func genLong(max int) *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		n := rapid.SampledFrom([]int{256, 512, 760, 1000, 1024, 2048, 4096, 8192, 32768, 65536, 100000}).Draw(t, "size")
		if n > max {
			n = max
		}
		n += rapid.IntRange(-3, 40).Draw(t, "extra")
		b := bytes.Repeat([]byte{rapid.Byte().Draw(t, "fill")}, n)
		b[n-1] = rapid.Byte().Draw(t, "last")
		return b
	})
}

// Mut is one way of making another string out of issued tokens.
type Mut struct {
	K     int // kind
	S, S2 int // which tokens
	P     int // position
	C     byte
	Ref   bool
}

// C01Case: tokens of some owners under one method and key, and mutations of them.
type C01Case struct {
	M    int
	Key  []byte
	M2   int
	Key2 []byte
	IDs  [][]byte
	Ops  []Mut
}

const b64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"

func (m Mut) apply(c C01Case, toks []issuedTok) string {
	pick := func(i int) string {
		x := toks[i%len(toks)]
		if m.Ref {
			return x.ref
		}
		return x.tok
	}
	s := pick(m.S)
	pos := m.P % len(s)
	seg := func(t string) (string, string, string) {
		i, j := strings.IndexByte(t, '.'), strings.LastIndexByte(t, '.')
		if i < 0 || i == j {
			return t, "", ""
		}
		return t[:i], t[i+1 : j], t[j+1:]
	}
	a, b, g := seg(s)
	x := toks[m.S2%len(toks)]
	a2, b2, g2 := seg(x.tok)
	_, b3, g3 := seg(x.ref)
	text := a + "." + b
	switch m.K {
	case 0: // as issued
		return s
	case 1: // one byte changed
		return s[:pos] + string([]byte{m.C}) + s[pos+1:]
	case 2: // one base64 character changed
		return s[:pos] + string(b64[int(m.C)%64]) + s[pos+1:]
	case 3: // removed
		return s[:pos] + s[pos+1:]
	case 4: // inserted
		return s[:pos] + string([]byte{m.C}) + s[pos:]
	case 5: // truncated
		return s[:pos]
	case 6: // extended
		return s + []string{"=", "==", "\n", "\r\n", "A", ".", " ", "\x00", "AAAA", "." + g, "%3D"}[m.P%11]
	case 7: // something before
		return []string{" ", ".", "\n", "A", "\x00", a + ".", "Bearer "}[m.P%7] + s
	case 8: // line break somewhere in the signature
		i := len(text) + 1 + m.P%(len(g)+1)
		return s[:i] + []string{"\n", "\r", "\r\n"}[m.C%3] + s[i:]
	case 9: // other unused bits in the last character of the signature
		if g == "" {
			return s
		}
		i := strings.IndexByte(b64, g[len(g)-1])
		if i < 0 {
			return s
		}
		return s[:len(s)-1] + string(b64[i^(1+int(m.C)%15)])
	case 10: // segments of other tokens
		return a + "." + b2 + "." + g
	case 11:
		return a2 + "." + b + "." + g
	case 12:
		return a + "." + b + "." + g2
	case 13:
		return a + "." + b3 + "." + g3
	case 14: // signed with another key
		return text + "." + oracleSig(c.M, c.Key2, text)
	case 15: // or another method
		return text + "." + oracleSig(c.M2, c.Key, text)
	case 16: // properly signed, but not by this package
		t := a + "." + b + string(b64[int(m.C)%64])
		return t + "." + oracleSig(c.M, c.Key, t)
	case 17: // re-encoded signature
		raw, _ := base64.RawURLEncoding.DecodeString(g)
		return text + "." + []string{base64.URLEncoding.EncodeToString(raw), base64.RawStdEncoding.EncodeToString(raw), base64.StdEncoding.EncodeToString(raw), hex.EncodeToString(raw), string(raw), strings.ToUpper(g), strings.ToLower(g)}[m.P%7]
	case 18: // part of the signature
		raw, _ := base64.RawURLEncoding.DecodeString(g)
		if len(raw) == 0 {
			return s
		}
		return text + "." + base64.RawURLEncoding.EncodeToString(raw[:m.P%len(raw)])
	case 19: // longer signature
		raw, _ := base64.RawURLEncoding.DecodeString(g)
		return text + "." + base64.RawURLEncoding.EncodeToString(append(append([]byte{}, raw...), m.C))
	case 20: // four parts
		return a + "." + b + ".x." + g
	case 21: // signature of a part only
		return text + "." + oracleSig(c.M, c.Key, []string{a, b, b + "." + a, a + b, text + ".", "." + text, ""}[m.P%7])
	case 22: // two parts, well signed
		return a + "." + oracleSig(c.M, c.Key, a)
	case 23: // no key, empty key
		return text + "." + oracleSig(c.M, nil, text)
	case 24:
		return strings.Replace(s, ".", []string{"..", ":", "%2E", ",", ""}[m.P%5], 1+int(m.C)%2)
	case 25: // the other case of a letter
		return s[:pos] + swapCase(s[pos]) + s[pos+1:]
	}
	return s + s
}

func swapCase(b byte) string {
	switch {
	case b >= 'a' && b <= 'z':
		b -= 32
	case b >= 'A' && b <= 'Z':
		b += 32
	case b == '-':
		b = '+'
	case b == '_':
		b = '/'
	}
	return string([]byte{b})
}

func genC01(t *rapid.T) C01Case {
	c := C01Case{
		M: rapid.IntRange(0, 4).Draw(t, "m"), Key: genSecret(150).Draw(t, "key"),
		M2: rapid.IntRange(0, 4).Draw(t, "m2"), Key2: genSecret(150).Draw(t, "key2"),
		IDs: rapid.SliceOfN(genBytes(40), 1, 3).Draw(t, "ids"),
	}
	reach := 200
	if rapid.IntRange(0, 30).Draw(t, "long") == 17 {
		c.IDs[0] = genLong(32768).Draw(t, "longid")
		reach = len(c.IDs[0])*4/3 + 80
	}
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Mut {
		return Mut{K: rapid.IntRange(0, 26).Draw(t, "k"), S: rapid.IntRange(0, 2).Draw(t, "s"), S2: rapid.IntRange(0, 2).Draw(t, "s2"),
			P: rapid.IntRange(0, reach).Draw(t, "p"), C: rapid.Byte().Draw(t, "c"), Ref: rapid.Bool().Draw(t, "ref")}
	}), 4, 40).Draw(t, "ops")
	return c
}

func runC01(c C01Case, r *Rec) error {
	err := bubble(func() error {
		p := sessionid.NewProvider()
		defer p.Close()
		opts := []sessionid.Option{sessionid.WithProvider(p), sessionid.WithMethod(method(c.M)), sessionid.WithKey(c.Key)}
		mg := sessionid.NewManager(opts...)
		var toks []issuedTok
		for i, id := range c.IDs {
			s, ref, e := mg.Create(bg, string(id), sessionid.Pair{Key: "k", Value: i})
			if e != nil {
				return fail("create for %q: %v", id, e)
			}
			toks = append(toks, issuedTok{s.Token(), ref, string(id)})
		}
		refused, accepted := 0, 0
		for _, m := range c.Ops {
			s := m.apply(c, toks)
			want := oracleValid(c.M, c.Key, s)
			r.Logf("mutation %d -> %q valid=%v", m.K, s, want)
			if want {
				accepted++
			} else {
				refused++
				r.Label(fmt.Sprintf("refused:%d", m.K))
			}
			h, e := mg.Get(bg, s)
			if (e == nil) != want {
				return fail("Manager.Get(%q) = %v, properly signed: %v", s, e, want)
			}
			if e == nil && (h == nil || h.Token() != s) {
				return fail("Manager.Get(%q) gives another token", s)
			}
			if e != nil && h != nil {
				return fail("Manager.Get(%q) refuses with %v but hands out a session", s, e)
			}
			if i := strings.LastIndexByte(s, '.'); i >= 0 {
				sigOK := s[i+1:] == oracleSig(c.M, c.Key, s[:i])
				if e := method(c.M).Verify(s[:i], s[i+1:], c.Key); (e == nil) != sigOK {
					return fail("Verify(%q, %q) = %v, properly signed: %v", s[:i], s[i+1:], e, sigOK)
				}
			}
			if _, _, e := cryptoer.Decode(method(c.M), c.Key, s); (e == nil) != want {
				return fail("Decode(%q) = %v, properly signed: %v", s, e, want)
			}
			if want {
				continue
			}
			x := toks[m.S%len(toks)]
			if _, _, e := mg.Refresh(bg, s, x.ref); e == nil {
				return fail("Refresh accepted the access token %q", s)
			}
			if _, _, e := mg.Refresh(bg, x.tok, s); e == nil {
				return fail("Refresh accepted the refresh token %q", s)
			}
			// the same with a store which holds sessions under such tokens, of another manager for instance
			q := sessionid.NewProvider(sessionid.WithProviderClear(0))
			mq := sessionid.NewManager(sessionid.WithProvider(q), sessionid.WithMethod(method(c.M)), sessionid.WithKey(c.Key))
			e1, e2 := q.Create(bg, s, x.ref, nil), q.Create(bg, x.tok, s, nil)
			if e1 == nil {
				if h, e := mq.Get(bg, s); e == nil || h != nil {
					return fail("Manager.Get accepted the token %q, of which the store has a session", s)
				}
				if _, _, e := mq.Refresh(bg, s, x.ref); e == nil {
					return fail("Refresh accepted the access token %q, of which the store has a session", s)
				}
			}
			if e2 == nil {
				if _, _, e := mq.Refresh(bg, x.tok, s); e == nil {
					return fail("Refresh accepted the refresh token %q, of which the store has a session", s)
				}
				r.Label("refused by signature only")
			}
			q.Close()
		}
		for i, x := range toks {
			h, e := mg.Get(bg, x.tok)
			if e != nil {
				return fail("token %q of %q refused: %v", x.tok, x.id, e)
			}
			var v int
			if e := h.Get(bg, "k", &v); e != nil || v != i {
				return fail("session of %q changed: %v, value %d want %d", x.tok, e, v, i)
			}
			if _, _, e := mg.Refresh(bg, x.tok, x.ref); e != nil {
				return fail("refresh after the refused attempts: %v", e)
			}
		}
		if refused > 0 {
			r.NT()
		}
		return nil
	})
	return dropLeak(err)
}

func dropLeak(err error) error {
	if errKind(err) == "leak" {
		return nil // decided by C14 only
	}
	return err
}

// C02Case: issue tokens for some owners, also concurrently.
type C02Case struct {
	M     int
	Key   []byte
	IDs   [][]byte
	N, Gs int
	Kind  string
}

func runC02(c C02Case, r *Rec) error {
	p := sessionid.NewProvider(sessionid.WithProviderClear(0))
	defer p.Close()
	a := sessionid.NewManager(sessionid.WithProvider(p), sessionid.WithMethod(method(c.M)), sessionid.WithKey(c.Key))
	b := sessionid.NewManager(sessionid.WithProvider(p), sessionid.WithMethod(method(c.M)), sessionid.WithKey(append([]byte{}, c.Key...)))
	var mu sync.Mutex
	seen := map[string]bool{}
	var first error
	note := func(err error) {
		mu.Lock()
		if err != nil && first == nil {
			first = err
		}
		mu.Unlock()
	}
	one := func(tok, owner string, mgr bool) error {
		mu.Lock()
		dup := seen[tok]
		seen[tok] = true
		mu.Unlock()
		if dup {
			return fail("token %q issued twice", tok)
		}
		i, j := strings.IndexByte(tok, '.'), strings.LastIndexByte(tok, '.')
		if i < 0 || i == j {
			return fail("token %q of %q lacks separators", tok, owner)
		}
		if want := oracleSig(c.M, c.Key, tok[:j]); tok[j+1:] != want {
			return fail("signature of %q is not %q", tok, want)
		}
		id, _, sig, e := sessionid.Split(tok)
		if e != nil || id != tok[:i] || sig != tok[j+1:] {
			return fail("Split(%q) = %q, %q, %v", tok, id, sig, e)
		}
		name := owner
		if mgr {
			raw, e := base64.RawURLEncoding.DecodeString(id)
			if e != nil {
				return fail("owner part of %q: %v", tok, e)
			}
			id, name = string(raw), owner
		}
		if id != name {
			return fail("token %q of owner %q names %q", tok, name, id)
		}
		h, e := b.Get(bg, tok)
		if e != nil {
			return fail("another manager refuses %q: %v", tok, e)
		}
		if h.ID() != tok[:i] || h.Token() != tok {
			return fail("handle of %q has id %q token %q", tok, h.ID(), h.Token())
		}
		return nil
	}
	issue := func(id string) error {
		s, ref, e := a.Create(bg, id)
		if e != nil {
			return fail("Create(%q): %v", id, e)
		}
		if s.ID() != base64.RawURLEncoding.EncodeToString([]byte(id)) {
			return fail("session of %q has id %q", id, s.ID())
		}
		if e := one(s.Token(), id, true); e != nil {
			return e
		}
		if e := one(ref, id, true); e != nil {
			return e
		}
		na, nr, e := a.Refresh(bg, s.Token(), ref)
		if e != nil {
			return fail("Refresh of %q: %v", s.Token(), e)
		}
		if e := one(na, id, true); e != nil {
			return e
		}
		if e := one(nr, id, true); e != nil {
			return e
		}
		if !strings.Contains(id, ".") {
			x, y, e := sessionid.CreateToken(method(c.M), c.Key, id)
			if e != nil {
				return fail("CreateToken(%q): %v", id, e)
			}
			if e := one(x, id, false); e != nil {
				return e
			}
			if e := one(y, id, false); e != nil {
				return e
			}
		}
		sid, e := cryptoer.SessionID()
		if e != nil || strings.Contains(sid, ".") {
			return fail("SessionID() = %q, %v", sid, e)
		}
		tok, e := cryptoer.Encode(method(c.M), c.Key, id, sid)
		if e != nil {
			return fail("Encode: %v", e)
		}
		mu.Lock()
		dup := seen[sid]
		seen[sid] = true
		mu.Unlock()
		if dup {
			return fail("session id %q made twice", sid)
		}
		j := strings.LastIndexByte(tok, '.')
		if j < 0 || tok[j+1:] != oracleSig(c.M, c.Key, id+"."+sid) || tok[:j] != id+"."+sid {
			return fail("Encode(%q, %q) = %q", id, sid, tok)
		}
		id2, sid2, e := cryptoer.Decode(method(c.M), c.Key, tok)
		if e != nil || id2 != id || sid2 != sid {
			return fail("Decode(%q) = %q, %q, %v", tok, id2, sid2, e)
		}
		return nil
	}
	var wg sync.WaitGroup
	for g := 0; g < c.Gs; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			note(protect(func() error {
				for i := 0; i < c.N; i++ {
					if e := issue(string(c.IDs[(i+g)%len(c.IDs)])); e != nil {
						return e
					}
				}
				return nil
			}))
		}()
	}
	wg.Wait()
	if c.Gs > 1 {
		r.Label("concurrent")
	}
	r.NT()
	return first
}

// C02Prog: requests for a program which imports nothing but the package.
type C02Prog struct{ Ops []C02Req }

// C02Req is one signature to make.
type C02Req struct {
	M         int
	Key, Text []byte
}

func runC02Prog(c C02Prog, r *Rec) error {
	bin := os.Getenv("VERIF_MINIMAL")
	if bin == "" {
		return fail("VERIF_MINIMAL not set")
	}
	var in bytes.Buffer
	for _, q := range c.Ops {
		fmt.Fprintf(&in, "%s xx%x xx%x\n", methodNames[q.M%5], q.Key, q.Text)
	}
	cmd := exec.Command(bin)
	cmd.Stdin = &in
	out, err := cmd.Output()
	if err != nil {
		return fail("program failed: %v", err)
	}
	sc := bufio.NewScanner(bytes.NewReader(out))
	for _, q := range c.Ops {
		if !sc.Scan() {
			return fail("program stopped early")
		}
		want := oracleSig(q.M, q.Key, string(q.Text))
		r.Logf("%s %q -> %s", methodNames[q.M%5], q.Text, sc.Text())
		if sc.Text() != want {
			return fail("in a program importing only the package, %s gives %q, want %q", methodNames[q.M%5], sc.Text(), want)
		}
	}
	r.NT()
	return nil
}

// C02Procs: programs started at the same time issue tokens for the same owner.
type C02Procs struct {
	Procs, N, M int
	Key, ID     []byte
}

// tokenProcess issues tokens as told, and prints them.
func tokenProcess(c C02Procs) {
	m := sessionid.NewManager(sessionid.WithProvider(sessionid.NewProvider()), sessionid.WithMethod(method(c.M)), sessionid.WithKey(c.Key))
	for i := 0; i < c.N; i++ {
		s, ref, e := m.Create(bg, string(c.ID))
		if e != nil {
			fmt.Println("error", e)
			return
		}
		na, nr, e := m.Refresh(bg, s.Token(), ref)
		if e != nil {
			fmt.Println("error", e)
			return
		}
		fmt.Println(s.Token(), ref, na, nr)
	}
}

func runC02Procs(c C02Procs, r *Rec) error {
	spec, _ := json.Marshal(c)
	outs := make([]bytes.Buffer, c.Procs)
	var ps []*exec.Cmd
	for i := range outs {
		p := exec.Command(os.Args[0], "-test.run=TestMainEntry")
		p.Env = append(os.Environ(), "VERIF_TOKENS="+string(spec))
		p.Stdout = &outs[i]
		if e := p.Start(); e != nil {
			panic(e)
		}
		ps = append(ps, p)
	}
	seen := map[string]int{}
	var err error
	for i, p := range ps {
		if e := p.Wait(); e != nil && err == nil {
			err = fail("program %d failed: %v", i, e)
		}
		n := 0
		for _, tok := range strings.Fields(outs[i].String()) {
			if j, dup := seen[tok]; dup && err == nil {
				err = fail("token %q was issued by program %d and again by program %d", tok, j, i)
			}
			seen[tok] = i
			n++
			if err == nil && !oracleValid(c.M, c.Key, tok) {
				err = fail("%q is not a signed token", tok)
			}
		}
		if n != 4*c.N && err == nil {
			err = fail("program %d issued %d tokens, want %d: %.300s", i, n, 4*c.N, outs[i].String())
		}
	}
	r.Logf("%d programs, %d tokens", c.Procs, len(seen))
	r.NT()
	return err
}

// C02Many: a great many tokens for one owner.
type C02Many struct {
	IDs, Toks, Gs, M int
	Key, ID          []byte
	Still            bool `json:",omitempty"` // the clock stands still meanwhile
}

func runC02Many(c C02Many, r *Rec) error {
	if c.Still {
		r.Label("at one instant")
		return dropLeak(bubble(func() error { return c02Many(c, r) }))
	}
	return c02Many(c, r)
}

func c02Many(c C02Many, r *Rec) error {
	m := sessionid.NewManager(sessionid.WithProvider(sessionid.NewProvider(sessionid.WithProviderMaxSize(0))), sessionid.WithMethod(method(c.M)), sessionid.WithKey(c.Key))
	seen := make([]map[string]bool, c.Gs)
	var mu sync.Mutex
	var first error
	var wg sync.WaitGroup
	for g := range seen {
		got := make(map[string]bool, c.IDs)
		seen[g] = got
		wg.Add(1)
		go func() {
			defer wg.Done()
			err := protect(func() error {
				add := func(ss ...string) error {
					for _, s := range ss {
						if got[s] {
							return fail("%q was made twice", s)
						}
						got[s] = true
					}
					return nil
				}
				for i := 0; i < c.IDs; i++ {
					s, e := cryptoer.SessionID()
					if e == nil {
						e = add(s)
					}
					if e != nil {
						return fail("SessionID: %w", e)
					}
				}
				for i := 0; i < c.Toks; i++ {
					s, ref, e := m.Create(bg, string(c.ID))
					if e != nil {
						return fail("Create: %w", e)
					}
					if e := add(s.Token(), ref); e != nil {
						return e
					}
				}
				return nil
			})
			if err != nil {
				mu.Lock()
				first = err
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	all := map[string]bool{}
	for _, x := range seen {
		for s := range x {
			if all[s] && first == nil {
				first = fail("%q was made by two goroutines", s)
			}
			all[s] = true
		}
	}
	r.Logf("%d ids and tokens", len(all))
	r.NT()
	return first
}

func init() {
	reg("C02", "many", 40, 800, "more than ten thousand session ids and tokens were compared",
		func(t *rapid.T) C02Many {
			c := C02Many{IDs: rapid.SampledFrom([]int{10000, 60000, 150000}).Draw(t, "ids"), Toks: rapid.IntRange(100, 3000).Draw(t, "toks"), Gs: rapid.IntRange(1, 4).Draw(t, "gs"), M: rapid.IntRange(0, 4).Draw(t, "m"), Key: genBytes(60).Draw(t, "key"), ID: genBytes(40).Draw(t, "id")}
			if rapid.Bool().Draw(t, "still") {
				c.Still = true
				c.IDs, c.Toks = 2000/c.Gs, 5500/c.Gs
			}
			return c
		}, runC02Many)
	reg("C02", "processes", 24, 800, "tokens of programs started at the same time were compared",
		func(t *rapid.T) C02Procs {
			return C02Procs{rapid.IntRange(2, 4).Draw(t, "procs"), rapid.IntRange(1, 50).Draw(t, "n"), rapid.IntRange(0, 4).Draw(t, "m"), genBytes(60).Draw(t, "key"), genBytes(40).Draw(t, "id")}
		}, runC02Procs)
	reg("C01", "forgeries", 180000, 6000000, "at least one string that is not a properly signed token was offered to every entry point", genC01, runC01)
	reg("C02", "issue", 48000, 1200000, "tokens were issued (create, refresh, CreateToken, Encode) and checked against an independent HMAC and for repetition",
		func(t *rapid.T) C02Case {
			c := C02Case{M: rapid.IntRange(0, 4).Draw(t, "m"), Key: genSecret(200).Draw(t, "key"), IDs: rapid.SliceOfN(genBytes(60), 1, 4).Draw(t, "ids")}
			c.Gs = rapid.SampledFrom([]int{1, 1, 2, 4, 8}).Draw(t, "gs")
			c.N = rapid.IntRange(1, 30).Draw(t, "n")
			if rapid.IntRange(0, 15).Draw(t, "long") == 9 {
				c.IDs[0] = genLong(100000).Draw(t, "longid")
				c.Gs, c.N = min(c.Gs, 2), min(c.N, 4)
			}
			return c
		}, runC02)
	reg("C02", "race", 1800, 80000, "two or more goroutines issued and verified tokens", func(t *rapid.T) C02Case {
		return C02Case{M: rapid.IntRange(0, 4).Draw(t, "m"), Key: genSecret(200).Draw(t, "key"), IDs: rapid.SliceOfN(genBytes(60), 1, 4).Draw(t, "ids"),
			Gs: rapid.IntRange(2, 6).Draw(t, "gs"), N: rapid.IntRange(1, 8).Draw(t, "n")}
	}, runC02).Race = true
	reg("C02", "program", 24, 800, "signatures made by a separate program which imports only the package",
		func(t *rapid.T) C02Prog {
			return C02Prog{Ops: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) C02Req {
				return C02Req{M: rapid.IntRange(0, 4).Draw(t, "m"), Key: genBytes(100).Draw(t, "key"), Text: genBytes(100).Draw(t, "text")}
			}), 5, 40).Draw(t, "ops")}
		}, runC02Prog)
	_ = time.Now
}
