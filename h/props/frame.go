// Package props holds the generators, oracles and runners of every property check.
package props

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// Rec collects what one case did.
type Rec struct {
	Labels map[string]int
	nt     bool
	trace  []string
}

// Label counts a class of case.
func (r *Rec) Label(s string) { r.Labels[s]++ }

// NT marks the case as non-trivial.
func (r *Rec) NT() { r.nt = true }

// Logf adds a line to the concrete history of the case.
func (r *Rec) Logf(f string, a ...any) {
	if len(r.trace) < 400 {
		r.trace = append(r.trace, fmt.Sprintf(f, a...))
	}
}

// Sub is one generated check which belongs to a property.
type Sub struct {
	Prop, Name      string
	Rule            string // what makes a case non-trivial
	Quick, Thorough int    // cases over all shards
	Race            bool   // only in the race-detector binary
	gen             func(*rapid.T) any
	run             func(any, *Rec) error
	dec             func([]byte) (any, error)
}

var subs []*Sub

func reg[C any](prop, name string, quick, thorough int, rule string, gen func(*rapid.T) C, run func(C, *Rec) error) *Sub {
	s := &Sub{Prop: prop, Name: name, Rule: rule, Quick: quick, Thorough: thorough}
	s.gen = func(t *rapid.T) any { return gen(t) }
	s.run = func(c any, r *Rec) error {
		err := run(c.(C), r)
		if errKind(err) == "undecided" {
			r.Label("undecided")
			return nil
		}
		return err
	}
	s.dec = func(b []byte) (any, error) {
		var c C
		err := json.Unmarshal(b, &c)
		return c, err
	}
	subs = append(subs, s)
	return s
}

// bubble runs f with a virtual clock; a deadlock, a panic, or goroutines left
// behind are reported as errors with the prefixes "deadlock", "panic", "leak".
func bubble(f func() error) (err error) {
	t := curT
	defer func() {
		if x := recover(); x != nil {
			msg := fmt.Sprint(x)
			switch {
			case strings.Contains(msg, "blocked goroutines remain"):
				if err == nil {
					err = &caseErr{"leak", msg + leakStacks()}
				}
			case strings.Contains(msg, "deadlock"):
				err = &caseErr{"deadlock", msg + leakStacks()}
			default:
				err = &caseErr{"panic", msg + "\n" + string(debug.Stack())}
			}
		}
	}()
	synctest.Test(t, func(*testing.T) {
		err = protect(f)
	})
	return
}

func leakStacks() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "synctest") && strings.Contains(g, "sessionid") && !strings.Contains(g, "props.(*Sub)") {
			if len(g) > 1500 {
				g = g[:1500]
			}
			out = append(out, g)
		}
		if len(out) == 4 {
			break
		}
	}
	return "\n" + strings.Join(out, "\n")
}

type caseErr struct{ kind, msg string }

func (e *caseErr) Error() string { return e.kind + ": " + e.msg }

func errKind(err error) string {
	if e, ok := err.(*caseErr); ok {
		return e.kind
	}
	return ""
}

// protect runs f on this goroutine, turning panics (and faults on unmapped memory) into errors.
func protect(f func() error) (err error) {
	old := debug.SetPanicOnFault(true)
	defer debug.SetPanicOnFault(old)
	defer func() {
		if x := recover(); x != nil {
			err = &caseErr{"panic", fmt.Sprintf("%v\n%s", x, trimStack(debug.Stack()))}
		}
	}()
	return f()
}

func trimStack(b []byte) string {
	s := string(b)
	if i := strings.Index(s, "panic("); i >= 0 {
		s = s[i:]
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func fail(f string, a ...any) error { return fmt.Errorf(f, a...) }

var (
	curT      *testing.T
	caseStart atomic.Int64 // unix nanoseconds, 0 = no case running
	liveFile  *os.File
)

type failure struct {
	Sub   string          `json:"sub"`
	Kind  string          `json:"kind"`
	Error string          `json:"error"`
	Trace []string        `json:"trace"`
	Case  json.RawMessage `json:"case"`
}

type subResult struct {
	Sub     string            `json:"sub"`
	Rule    string            `json:"rule"`
	Evals   int               `json:"evals"`
	Skipped int               `json:"skipped"` // for lack of time
	NT      int               `json:"nt"`
	Hashes  string            `json:"hashes"` // of distinct non-trivial cases
	Samples []json.RawMessage `json:"samples"`
	Labels  map[string]int    `json:"labels"`
	Secs    float64           `json:"secs"`
	Slowest float64           `json:"slowest"` // seconds of one case
}

type shardResult struct {
	Subs    []*subResult `json:"subs"`
	Failure *failure     `json:"failure,omitempty"`
	Error   string       `json:"error,omitempty"`
	Done    bool         `json:"done"`
}

// one executes a case.
func (s *Sub) one(c any, raw []byte) (r *Rec, err error) {
	r = &Rec{Labels: map[string]int{}}
	if liveFile != nil {
		hdr := []byte(s.Name + "\n")
		b := append(hdr, raw...)
		liveFile.Truncate(0)
		liveFile.WriteAt(b, 0)
	}
	caseStart.Store(time.Now().UnixNano())
	moveTo("")
	err = protect(func() error { return s.run(c, r) })
	caseStart.Store(0)
	sweepFiles()
	return
}

var caseLimit = 30 * time.Second

func watchdog(out string) {
	for {
		time.Sleep(500 * time.Millisecond)
		if st := caseStart.Load(); st != 0 && time.Since(time.Unix(0, st)) > caseLimit {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			os.WriteFile(out+".hang", buf, 0o644)
			os.Exit(77)
		}
	}
}

func seedFor(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	v := h.Sum64()
	if v == 0 {
		v = 1
	}
	return v &^ (1 << 63)
}

func hash64(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// search generates up to n cases, none after the given time.
func (s *Sub) search(t *testing.T, n int, seed uint64, until time.Time) (res *subResult, f *failure) {
	res = &subResult{Sub: s.Name, Rule: s.Rule, Labels: map[string]int{}}
	seen := map[uint64]bool{}
	start := time.Now()
	var last *failure
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", envStr("VERIF_SHRINK", "15s"))
	tb := &quietTB{T: t}
	func() {
		defer func() {
			if x := recover(); x != nil && x != any(tb) {
				panic(x)
			}
		}()
		rapid.Check(tb, func(rt *rapid.T) {
			if last == nil && !until.IsZero() && time.Now().After(until) {
				res.Skipped++
				return
			}
			c := s.gen(rt)
			raw, err := json.Marshal(c)
			if err != nil {
				panic("case not serialisable: " + err.Error())
			}
			// run exactly what a replay would run
			c, err = s.dec(raw)
			if err != nil {
				panic("case not decodable: " + err.Error())
			}
			began := time.Now()
			r, err := s.one(c, raw)
			res.Slowest = max(res.Slowest, time.Since(began).Seconds())
			if last == nil { // count only the search, not shrinking
				res.Evals++
				for k, v := range r.Labels {
					res.Labels[k] += v
				}
				if r.nt {
					res.NT++
					seen[hash64(raw)] = true
					if len(res.Samples) < 2 && (res.NT == 3 || res.NT == 40) {
						b := raw
						if len(b) > 3000 {
							b, _ = json.Marshal(string(b[:3000]) + "...")
						}
						res.Samples = append(res.Samples, b)
					}
				}
			}
			if err != nil {
				last = &failure{Sub: s.Name, Kind: errKind(err), Error: err.Error(), Trace: r.trace, Case: raw}
				rt.Fatalf("%s", errKind(err))
			}
		})
	}()
	if last != nil {
		last = s.minimise(last)
	}
	if last == nil && tb.failed {
		panic("rapid: " + tb.log.String())
	}
	hs := make([]uint64, 0, len(seen))
	for h := range seen {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	b := make([]byte, 8*len(hs))
	for i, h := range hs {
		binary.LittleEndian.PutUint64(b[i*8:], h)
	}
	res.Hashes = base64.StdEncoding.EncodeToString(b)
	res.Secs = time.Since(start).Seconds()
	return res, last
}

// minimise removes elements of the case's Ops slices while the failure stays.
func (s *Sub) minimise(f *failure) *failure {
	limit := time.Now().Add(20 * time.Second)
	try := func(c any) bool {
		raw, err := json.Marshal(c)
		if err != nil {
			return false
		}
		c2, err := s.dec(raw)
		if err != nil {
			return false
		}
		r, err := s.one(c2, raw)
		if err == nil || errKind(err) != f.Kind {
			return false
		}
		f = &failure{Sub: s.Name, Kind: errKind(err), Error: err.Error(), Trace: r.trace, Case: raw}
		return true
	}
	c, err := s.dec(f.Case)
	if err != nil || !try(c) {
		return f
	}
	v := reflect.New(reflect.TypeOf(c)).Elem()
	v.Set(reflect.ValueOf(c))
	for _, name := range []string{"Ops", "Setup", "Tail"} {
		fl := v
		if fl.Kind() != reflect.Struct {
			return f
		}
		fl = fl.FieldByName(name)
		if !fl.IsValid() || fl.Kind() != reflect.Slice {
			continue
		}
		for chunk := fl.Len() / 2; chunk >= 1; chunk /= 2 {
			for i := 0; i+chunk <= fl.Len() && time.Now().Before(limit); {
				old := reflect.ValueOf(fl.Interface())
				n := reflect.MakeSlice(fl.Type(), 0, fl.Len())
				n = reflect.AppendSlice(n, old.Slice(0, i))
				n = reflect.AppendSlice(n, old.Slice(i+chunk, old.Len()))
				fl.Set(n)
				if !try(v.Interface()) {
					fl.Set(old)
					i += chunk
				}
			}
		}
	}
	return f
}

// quietTB keeps rapid's verdict away from the test binary.
type quietTB struct {
	*testing.T
	failed bool
	log    strings.Builder
}

func (q *quietTB) Helper()                   {}
func (q *quietTB) Errorf(f string, a ...any) { q.failed = true; fmt.Fprintf(&q.log, f+"\n", a...) }
func (q *quietTB) Fatalf(f string, a ...any) {
	q.failed = true
	fmt.Fprintf(&q.log, f+"\n", a...)
	panic(q)
}
func (q *quietTB) Error(a ...any)          { q.failed = true; fmt.Fprintln(&q.log, a...) }
func (q *quietTB) Fatal(a ...any)          { q.failed = true; fmt.Fprintln(&q.log, a...); panic(q) }
func (q *quietTB) Log(a ...any)            { fmt.Fprintln(&q.log, a...) }
func (q *quietTB) Logf(f string, a ...any) { fmt.Fprintf(&q.log, f+"\n", a...) }
func (q *quietTB) Fail()                   { q.failed = true }
func (q *quietTB) FailNow()                { q.failed = true; panic(q) }
func (q *quietTB) Failed() bool            { return q.failed }
func (q *quietTB) Name() string            { return "check" }
func (q *quietTB) Skip(a ...any)           { panic(q) }
func (q *quietTB) SkipNow()                { panic(q) }
func (q *quietTB) Skipf(string, ...any)    { panic(q) }

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}
func envStr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Main runs one shard (or one replay), as the environment says.
func Main(t *testing.T) {
	curT = t
	if x := os.Getenv("VERIF_TOKENS"); x != "" { // started by runC02Procs
		var c C02Procs
		if e := json.Unmarshal([]byte(x), &c); e != nil {
			panic(e)
		}
		tokenProcess(c)
		os.Exit(0)
	}
	prop := os.Getenv("VERIF_PROP")
	out := os.Getenv("VERIF_OUT")
	if prop == "" || out == "" {
		t.Skip("VERIF_PROP and VERIF_OUT not set")
	}
	res := &shardResult{}
	save := func() {
		b, err := json.Marshal(res)
		if err == nil {
			err = os.WriteFile(out, b, 0o644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		caseLimit = 100 * time.Second // beyond doubt, on a busy machine as well
		go watchdog(out)
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		var fl failure
		if err := json.Unmarshal(b, &fl); err != nil {
			t.Fatal(err)
		}
		for _, s := range subs {
			if s.Prop == prop && s.Name == fl.Sub {
				c, err := s.dec(fl.Case)
				if err != nil {
					t.Fatal(err)
				}
				for i := 0; i < envInt("VERIF_REPEAT", 1); i++ {
					r, err := s.one(c, fl.Case)
					if err != nil {
						res.Failure = &failure{Sub: s.Name, Kind: errKind(err), Error: err.Error(), Trace: r.trace, Case: fl.Case}
						break
					}
				}
				res.Done = true
				save()
				return
			}
		}
		t.Fatalf("no sub-check %s/%s", prop, fl.Sub)
	}
	go watchdog(out)
	liveFile, _ = os.Create(out + ".live")
	shard, shards := envInt("VERIF_SHARD", 0), envInt("VERIF_SHARDS", 1)
	seed := envInt("VERIF_SEED", 1)
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	scale := envInt("VERIF_SCALE", 100)
	only := os.Getenv("VERIF_SUB")
	race := os.Getenv("VERIF_RACE") == "1"
	var todo []*Sub
	for _, s := range subs {
		if s.Prop == prop && s.Race == race && (only == "" || only == s.Name) {
			todo = append(todo, s)
		}
	}
	end := time.Now().Add(time.Duration(envInt("VERIF_BUDGET", 300)) * time.Second)
	for i, s := range todo {
		n := s.Quick
		if thorough {
			n = s.Thorough
		}
		n = n * scale / 100
		until := time.Now().Add(time.Until(end) / time.Duration(len(todo)-i))
		k := n/shards + b2i(shard < n%shards)
		if k <= 0 {
			continue
		}
		r, f := s.search(t, k, seedFor(seed, "/", prop, "/", s.Name, "/", shard), until)
		res.Subs = append(res.Subs, r)
		if f != nil {
			res.Failure = f
			break
		}
	}
	res.Done = true
	save()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
