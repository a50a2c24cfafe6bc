package props

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"net"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/boltdb/bolt"
	"github.com/go-redis/redis/v8"
	"github.com/powerpuffpenguin/sessionid"
	pbolt "github.com/powerpuffpenguin/sessionid/provider/bolt"
	predis "github.com/powerpuffpenguin/sessionid/provider/redis"

	"verif.local/h/fakeredis"
)

// Cfg is how a store is configured. Durations are in milliseconds.
type Cfg struct {
	Kind    string // memory, bolt, redis
	A, R    int64  // 0: option not given
	RFirst  bool   // refresh option before the access option
	Max     int    // 0: option not given; -100: given as 0
	Batch   int    // 0: option not given; -100: given as 0
	Clear   int64  // 0: periodic cleaning off; -1: option not given
	OwnDB   bool   // bolt: the provider opens the file itself
	Skew    int64  // redis: server clock minus client clock
	Prefix  string // redis key prefix ("": default)
	MetaKey string // redis metadata key ("": default)
	JSON    bool   // redis: metadata coder is JSON
	Bucket  string // bolt bucket ("": default)
	Zone    string `json:",omitempty"` // time zone of the process
}

func ms(n int64) time.Duration {
	if n > math.MaxInt64/int64(time.Millisecond) {
		return math.MaxInt64
	}
	return time.Duration(n) * time.Millisecond
}

// Durations are the life times this configuration asks for.
func (c Cfg) Durations() (a, r time.Duration) {
	a, r = time.Hour, 24*time.Hour
	setA := func() {
		if c.A > 0 {
			a = ms(c.A)
			if r < a {
				r = a
			}
		}
	}
	setR := func() {
		if c.R > 0 {
			r = ms(c.R)
			if a > r {
				a = r
			}
		}
	}
	if c.RFirst {
		setR()
		setA()
	} else {
		setA()
		setR()
	}
	return
}

func (c Cfg) max() int {
	if c.Max <= 0 || c.Kind == "redis" {
		return 0
	}
	return c.Max
}

func (c Cfg) metaKey() string {
	if c.MetaKey != "" {
		return c.MetaKey
	}
	return "__private_provider_redis"
}

func (c Cfg) prefix() string {
	if c.Prefix != "" {
		return c.Prefix
	}
	return "sessionid.provider.redis."
}

// touchy says which data keys the backend may refuse.
func (c Cfg) touchy() func(string) bool {
	switch c.Kind {
	case "bolt":
		return func(k string) bool { return k == "" || len(k) > bolt.MaxKeySize }
	case "redis":
		mk := c.metaKey()
		return func(k string) bool { return k == mk }
	}
	return nil
}

// World is a store and what is below it.
type World struct {
	Cfg  Cfg
	Srv  *fakeredis.Server
	Path string
	DB   *bolt.DB
	P    sessionid.Provider
	// DBFor is the database given to the provider when it does not open its own.
	keepDB bool
}

var scratchDir string
var fileNo int

func scratch() string {
	if scratchDir == "" {
		scratchDir = os.Getenv("VERIF_SCRATCH")
		if scratchDir == "" {
			base := "/dev/shm"
			if _, err := os.Stat(base); err != nil {
				base = os.TempDir()
			}
			d, err := os.MkdirTemp(base, "verif-")
			if err != nil {
				panic(err)
			}
			scratchDir = d
		}
	}
	return scratchDir
}

// newFile names a database file nobody uses.
func newFile() string {
	fileNo++
	p := filepath.Join(scratch(), fmt.Sprintf("db%d-%d", os.Getpid(), fileNo))
	files = append(files, p)
	return p
}

// files are those of the running case.
var files []string

func sweepFiles() {
	for _, p := range files {
		os.Remove(p)
		os.Remove(p + ".lock")
	}
	files = files[:0]
}

type jsonCoder struct{}

func (jsonCoder) Encode(v interface{}) ([]byte, error) { return json.Marshal(v) }
func (jsonCoder) Decode(b []byte, v interface{}) error { return json.Unmarshal(b, v) }

// NewClient connects to the fake server.
func NewClient(s *fakeredis.Server) *redis.Client {
	return redis.NewClient(&redis.Options{
		Addr:               "fake:6379",
		Dialer:             func(context.Context, string, string) (net.Conn, error) { return s.Dial() },
		PoolSize:           64,
		IdleCheckFrequency: -1,
		MinRetryBackoff:    -1,
		MaxRetryBackoff:    -1,
		MaxRetries:         3,
		PoolTimeout:        time.Second,
		ReadTimeout:        -1,
		WriteTimeout:       -1,
		IdleTimeout:        -1,
	})
}

// NewWorld prepares what is below the store and opens the store.
func NewWorld(c Cfg) (*World, error) {
	w := &World{Cfg: c}
	switch c.Kind {
	case "bolt":
		w.Path = newFile()
	case "redis":
		w.Srv = fakeredis.New()
		w.Srv.Skew = ms(c.Skew)
	}
	return w, w.Open()
}

// Open opens (or reopens) the store with the configuration w.Cfg.
func (w *World) Open() (err error) {
	moveTo(w.Cfg.Zone)
	w.P, err = w.open(w.Cfg)
	return
}

func (w *World) openDB() (err error) {
	if w.DB == nil {
		w.DB, err = bolt.Open(w.Path, 0o600, &bolt.Options{Timeout: time.Second})
	}
	return
}

func (w *World) open(c Cfg) (p sessionid.Provider, err error) {
	switch c.Kind {
	case "memory":
		return sessionid.NewProvider(memOpts(c)...), nil
	case "bolt":
		if !c.OwnDB {
			if err = w.openDB(); err != nil {
				return
			}
		}
		pp, e := pbolt.New(boltOpts(c, w.Path, w.DB)...)
		if e != nil {
			return nil, e
		}
		return pp, nil
	case "redis":
		pp, e := predis.New(redisOpts(c, NewClient(w.Srv))...)
		if e != nil {
			return nil, e
		}
		return pp, nil
	}
	return nil, errors.New("bad kind " + c.Kind)
}

func order[T any](rFirst bool, a, r []T) []T {
	if rFirst {
		return append(append([]T{}, r...), a...)
	}
	return append(append([]T{}, a...), r...)
}

func memOpts(c Cfg) (o []sessionid.ProviderOption) {
	var a, r []sessionid.ProviderOption
	if c.A > 0 {
		a = append(a, sessionid.WithProviderAccess(ms(c.A)))
	}
	if c.R > 0 {
		r = append(r, sessionid.WithProviderRefresh(ms(c.R)))
	}
	o = order(c.RFirst, a, r)
	if c.Max != 0 {
		o = append(o, sessionid.WithProviderMaxSize(unspec(c.Max)))
	}
	if c.Batch != 0 {
		o = append(o, sessionid.WithProviderCheckBatch(unspec(c.Batch)))
	}
	if c.Clear >= 0 {
		o = append(o, sessionid.WithProviderClear(ms(c.Clear)))
	}
	return
}

func unspec(n int) int {
	if n == -100 {
		return 0
	}
	return n
}

func boltOpts(c Cfg, path string, db *bolt.DB) (o []pbolt.Option) {
	var a, r []pbolt.Option
	if c.A > 0 {
		a = append(a, pbolt.WithAccess(ms(c.A)))
	}
	if c.R > 0 {
		r = append(r, pbolt.WithRefresh(ms(c.R)))
	}
	o = order(c.RFirst, a, r)
	if c.Max != 0 {
		o = append(o, pbolt.WithMaxSize(unspec(c.Max)))
	}
	if c.Batch != 0 {
		o = append(o, pbolt.WithCheckBatch(unspec(c.Batch)))
	}
	if c.Clear >= 0 {
		o = append(o, pbolt.WithClear(ms(c.Clear)))
	}
	if c.Bucket != "" {
		o = append(o, pbolt.WithBucket([]byte(c.Bucket)))
	}
	if c.OwnDB {
		o = append(o, pbolt.WithFilename(path), pbolt.WithTimeout(time.Second))
	} else {
		o = append(o, pbolt.WithDB(db))
	}
	return
}

func redisOpts(c Cfg, cl *redis.Client) (o []predis.Option) {
	var a, r []predis.Option
	if c.A > 0 {
		a = append(a, predis.WithAccess(ms(c.A)))
	}
	if c.R > 0 {
		r = append(r, predis.WithRefresh(ms(c.R)))
	}
	o = order(c.RFirst, a, r)
	if c.Batch != 0 {
		o = append(o, predis.WithCheckBatch(unspec(c.Batch)))
	}
	if c.Prefix != "" {
		o = append(o, predis.WithKeyPrefix(c.Prefix))
	}
	if c.MetaKey != "" {
		o = append(o, predis.WithMetadataKey(c.MetaKey))
	}
	if c.JSON {
		o = append(o, predis.WithCoder(jsonCoder{}))
	}
	o = append(o, predis.WithClient(cl))
	return
}

// Done closes everything and removes the files.
func (w *World) Done() {
	if w.P != nil {
		func() {
			defer func() { recover() }()
			w.P.Close()
		}()
	}
	w.closeDB()
	if w.Path != "" && strings.HasPrefix(w.Path, scratch()) {
		os.Remove(w.Path)
		os.Remove(w.Path + ".lock")
	}
}

func (w *World) closeDB() {
	if w.DB != nil {
		w.DB.Close()
		w.DB = nil
	}
}
