package props

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/boltdb/bolt"
	"github.com/powerpuffpenguin/sessionid"
	pbolt "github.com/powerpuffpenguin/sessionid/provider/bolt"
	predis "github.com/powerpuffpenguin/sessionid/provider/redis"
	"pgregory.net/rapid"
	"verif.local/h/fakeredis"
)

// FOpt is one option of a bolt store, in the order given.
type FOpt struct {
	K string // name mode timeout db bucket
	N int
}

// C22File is a bolt store opened at some place.
type C22File struct {
	Opts   []FOpt
	Before string // what is there: "", empty, store, garbage, dir
	Lock   int    // ms the file is locked by somebody; 0 = not
}

var fileNames = []string{"a.db", "b c", "日本", "x"}
var fileModes = []os.FileMode{0o600, 0o640, 0o644, 0o660, 0o666, 0o700}
var fileTimeouts = []int{-1, 0, 1, 100, 1000, 29000, 31000, 100000}

func genC22File(t *rapid.T) C22File {
	var c C22File
	c.Opts = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) FOpt {
		o := FOpt{K: rapid.SampledFrom([]string{"name", "name", "name", "mode", "mode", "timeout", "timeout", "bucket", "db"}).Draw(t, "k"), N: rapid.IntRange(0, 7).Draw(t, "n")}
		if o.K == "db" && o.N > 1 {
			o.K = "name"
		}
		return o
	}), 0, 6).Draw(t, "opts")
	c.Before = rapid.SampledFrom([]string{"", "", "", "", "store", "store", "empty", "garbage", "dir"}).Draw(t, "before")
	if (c.Before == "" || c.Before == "store") && rapid.IntRange(0, 2).Draw(t, "locked") == 0 {
		c.Lock = rapid.SampledFrom([]int{50, 500, 2000, 28000, 33000, 90000, 1000000}).Draw(t, "lock")
	}
	return c
}

var umask = func() os.FileMode { m := syscall.Umask(0); syscall.Umask(m); return os.FileMode(m) }()

func runC22File(c C22File, r *Rec) error {
	return bubble(func() error {
		dir, err := os.MkdirTemp(scratch(), "place")
		if err != nil {
			return err
		}
		defer os.RemoveAll(dir)
		old, err := os.Getwd()
		if err != nil {
			return err
		}
		if err = os.Chdir(dir); err != nil { // for the default name
			return err
		}
		defer os.Chdir(old)

		name, mode, timeout, bucket := "sessionid.db", os.FileMode(0o600), 30000, ""
		var db *bolt.DB
		var opts []pbolt.Option
		for _, o := range c.Opts {
			switch o.K {
			case "name":
				name = filepath.Join(dir, fileNames[o.N%len(fileNames)])
				opts = append(opts, pbolt.WithFilename(name))
			case "mode":
				mode = fileModes[o.N%len(fileModes)]
				opts = append(opts, pbolt.WithFileMode(mode))
			case "timeout":
				timeout = fileTimeouts[o.N%len(fileTimeouts)]
				opts = append(opts, pbolt.WithTimeout(ms(int64(timeout))))
			case "bucket":
				bucket = fmt.Sprint("bucket", o.N%3)
				opts = append(opts, pbolt.WithBucket([]byte(bucket)))
			case "db":
				if db == nil {
					if db, err = bolt.Open(filepath.Join(dir, "given"), 0o600, nil); err != nil {
						return err
					}
				}
				opts = append(opts, pbolt.WithDB(db))
			}
		}
		if db != nil {
			defer db.Close()
		}
		full := name
		if !filepath.IsAbs(full) {
			full = filepath.Join(dir, name)
		}
		again := []pbolt.Option{pbolt.WithFilename(full), pbolt.WithTimeout(time.Second)}
		if bucket != "" {
			again = append(again, pbolt.WithBucket([]byte(bucket)))
		}
		garbage := bytes.Repeat([]byte("not a database "), 2000)
		switch c.Before {
		case "empty":
			err = os.WriteFile(full, nil, 0o600)
		case "garbage":
			err = os.WriteFile(full, garbage, 0o600)
		case "dir":
			err = os.Mkdir(full, 0o700)
		case "store":
			p, e := pbolt.New(again...)
			if e != nil {
				return fail("opening %q: %v", full, e)
			}
			if e := p.Create(bg, "0.old.g", "0.oldr.g", nil); e != nil {
				return fail("create: %v", e)
			}
			err = p.Close()
			if err == nil {
				err = os.Chmod(full, 0o600)
			}
		}
		if err != nil {
			return err
		}
		synctest.Wait()
		if timeout <= 0 && c.Lock == 1000000 {
			c.Lock = 5000
		}
		if c.Lock > 0 {
			holder, e := bolt.Open(full, 0o600, nil)
			if e != nil {
				return e
			}
			go func() {
				time.Sleep(ms(int64(c.Lock)))
				holder.Close()
			}()
			if c.Before == "" {
				c.Before = "made by the holder"
			}
		}
		// what should happen
		want := "ok"
		switch {
		case db != nil:
		case c.Before == "garbage" || c.Before == "dir":
			want = "error"
		case c.Lock > 0 && timeout > 0 && c.Lock > timeout+300:
			want = "error"
		case c.Lock > 0 && timeout > 0 && c.Lock > timeout-300:
			want = "any"
		}
		begin := time.Now()
		p, e := pbolt.New(opts...)
		took := time.Since(begin)
		r.Logf("options %v, before %q, locked for %d ms -> %v after %v", c.Opts, c.Before, c.Lock, e, took)
		r.Label("want " + want)
		if e == nil && p == nil {
			return fail("New gives neither a store nor an error")
		}
		if want == "ok" && e != nil || want == "error" && e == nil {
			return fail("New: %v, want %s", e, want)
		}
		if c.Lock == 0 || db != nil {
			if took > time.Second {
				return fail("New took %v", took)
			}
		} else if e != nil && took > ms(int64(timeout))+time.Second {
			return fail("New failed after %v, the timeout was %d ms", took, timeout)
		}
		if want == "error" || c.Lock > 0 || db != nil || len(c.Opts) > 1 {
			r.NT()
		}
		names := func() (out []string) {
			es, _ := os.ReadDir(dir)
			for _, x := range es {
				if !strings.HasSuffix(x.Name(), ".lock") {
					out = append(out, x.Name())
				}
			}
			return
		}
		for _, n := range names() {
			if n != filepath.Base(full) && !(n == "given" && db != nil) {
				return fail("New made a file %q, the store's is %q", n, filepath.Base(full))
			}
			if n == filepath.Base(full) && db != nil && c.Before == "" {
				return fail("New made a file although a database was given")
			}
		}
		if e != nil {
			if c.Before == "garbage" {
				if b, _ := os.ReadFile(full); !bytes.Equal(b, garbage) {
					return fail("New changed a file which is not a database")
				}
			}
		} else {
			if db == nil && c.Before == "" {
				st, e := os.Stat(full)
				if e != nil {
					return fail("the file %q: %v", full, e)
				}
				if st.Mode().Perm() != mode&^umask {
					return fail("the file's mode is %v, want %v", st.Mode().Perm(), mode&^umask)
				}
			}
			if e := p.Create(bg, "1.new.g", "1.newr.g", nil); e != nil {
				return fail("create: %v", e)
			}
			if e := p.Close(); e != nil {
				return fail("close: %v", e)
			}
		}
		synctest.Wait()
		if db != nil { // still the caller's
			if e := db.View(func(*bolt.Tx) error { return nil }); e != nil {
				return fail("the given database after Close: %v", e)
			}
			if c.Lock == 0 && c.Before == "" {
				return nil
			}
		}
		if c.Before == "garbage" || c.Before == "dir" {
			return nil
		}
		time.Sleep(ms(int64(c.Lock)) + time.Second) // the holder has gone
		q, e2 := pbolt.New(again...)
		if e2 != nil {
			return fail("opening the file again: %v", e2)
		}
		defer func() { q.Close(); synctest.Wait() }()
		status := func(tok string) error { return q.Check(bg, tok) }
		if c.Before == "store" {
			if e := status("0.old.g"); e != nil {
				return fail("a session stored before: %v", e)
			}
		}
		wantNew := error(nil)
		if e != nil || db != nil {
			wantNew = sessionid.ErrTokenNotExists
		}
		if got := status("1.new.g"); !errors.Is(got, wantNew) {
			return fail("the new session is looked for in the file: %v, want %v", got, wantNew)
		}
		return nil
	})
}

// C22URL is a redis store found by its address.
type C22URL struct {
	DB     int
	Pass   string
	Wrong  string // "", pass, port, scheme, text
	Client bool   // a client is given too
	Prefix string
	Ops    int
	First  bool // the client before the address
	Twin   int  // another store at the same address: 1 closed early, 2 closed late, 3 first and last
}

func genC22URL(t *rapid.T) C22URL {
	return C22URL{DB: rapid.IntRange(0, 3).Draw(t, "db"), Pass: rapid.SampledFrom([]string{"", "", "secret", "p%40:x"}).Draw(t, "pass"),
		Wrong:  rapid.SampledFrom([]string{"", "", "", "", "pass", "port", "scheme", "text"}).Draw(t, "wrong"),
		Client: rapid.IntRange(0, 4).Draw(t, "client") == 0, Prefix: rapid.SampledFrom([]string{"", "p."}).Draw(t, "prefix"), Ops: rapid.IntRange(1, 4).Draw(t, "ops"), First: rapid.Bool().Draw(t, "first"),
		Twin: rapid.IntRange(0, 3).Draw(t, "twin")}
}

func runC22URL(c C22URL, r *Rec) error {
	srv := fakeredis.New()
	addr, stop, err := srv.Listen()
	if err != nil {
		return err
	}
	defer stop()
	srv.Pass = strings.ReplaceAll(c.Pass, "%40", "@")
	cred := ""
	if c.Pass != "" {
		cred = ":" + c.Pass + "@"
	}
	url := fmt.Sprintf("redis://%s%s/%d", cred, addr, c.DB)
	switch c.Wrong {
	case "pass":
		srv.Pass = "another"
	case "port":
		stop()
	case "scheme":
		url = "http" + url[5:]
	case "text":
		url = "::" + url
	}
	opts := []predis.Option{predis.WithURL(url)}
	other := fakeredis.New()
	if c.Client {
		cl := NewClient(other)
		defer cl.Close()
		opts = append(opts, predis.WithClient(cl))
		if c.First {
			opts[0], opts[1] = opts[1], opts[0]
		}
	}
	if c.Prefix != "" {
		opts = append(opts, predis.WithKeyPrefix(c.Prefix))
	}
	twin := c.Wrong == "" && c.Twin > 0
	var q *predis.Provider
	another := func() (err error) {
		q, err = predis.New(predis.WithURL(url), predis.WithKeyPrefix("twin."))
		return
	}
	if twin && c.Twin != 2 {
		if e := another(); e != nil {
			return fail("another store at %q: %v", url, e)
		}
		defer func() { q.Close() }()
		if e := q.Create(bg, "0.t.g", "0.tr.g", nil); e != nil {
			return fail("Create of another store at %q: %v", url, e)
		}
	}
	p, e := predis.New(opts...)
	r.Logf("%s -> %v", url, e)
	r.Label("wrong:" + c.Wrong)
	if c.Wrong != "" || c.DB != 0 || c.Pass != "" || c.Client {
		r.NT()
	}
	if !c.Client && (c.Wrong == "scheme" || c.Wrong == "text") {
		if e == nil {
			p.Close()
			return fail("New with the address %q succeeded", url)
		}
		return nil
	}
	if e != nil {
		if !c.Client && (c.Wrong == "port" || c.Wrong == "pass") {
			return nil
		}
		return fail("New with the address %q: %v", url, e)
	}
	closed := false
	defer func() {
		if !closed {
			p.Close()
		}
	}()
	works := c.Client || c.Wrong == ""
	if twin && c.Twin == 2 {
		if e := another(); e != nil {
			return fail("another store at %q: %v", url, e)
		}
		defer func() { q.Close() }()
	}
	useTwin := func(when string) error {
		if !twin {
			return nil
		}
		r.Label(fmt.Sprintf("twin:%d", c.Twin))
		for _, o := range []COp{{K: "create", Tok: "0.t.g", Ref: "0.tr.g"}, {K: "check", Tok: "0.t.g"}, {K: "destroyID", ID: "0"}} {
			if res := Exec(q, o); res.C != "ok" {
				return fail("another store at the address %q, %s: %s -> %s", url, when, o, res)
			}
		}
		return nil
	}
	if err := useTwin("beside the first"); err != nil {
		return err
	}
	if twin && c.Twin == 1 {
		if e := q.Close(); e != nil {
			return fail("Close of another store: %v", e)
		}
		twin = false
	}
	prefix := c.Prefix
	if prefix == "" {
		prefix = "sessionid.provider.redis."
	}
	for i := 0; i < c.Ops; i++ {
		tok := fmt.Sprintf("%d.s.g", i)
		e := p.Create(bg, tok, tok+"r", []sessionid.PairBytes{{Key: "k", Value: []byte("v")}})
		if works != (e == nil) {
			return fail("Create at %q: %v", url, e)
		}
		if !works {
			break
		}
		vs, e := p.Get(bg, tok, []string{"k"})
		if e != nil || len(vs) != 1 || string(vs[0].Bytes) != "v" {
			return fail("Get at %q: %v %v", url, vs, e)
		}
		at, db, none := srv, c.DB, other
		if c.Client {
			at, db, none = other, 0, srv
		}
		if n := at.Count(db); n != i+1 {
			return fail("database %d of the server has %d keys after creating %d sessions at %q", db, n, i+1, url)
		}
		if n := none.Commands; n != 0 && c.Twin == 0 {
			return fail("the other server got %d commands", n)
		}
		if c.Prefix != "" && !at.HasPrefix(db, prefix) {
			return fail("keys without the prefix %q", prefix)
		}
	}
	closed = true
	if e := p.Close(); e != nil {
		return fail("Close: %v", e)
	}
	if e := p.Check(bg, "0.s.g"); !errors.Is(e, sessionid.ErrProviderClosed) {
		return fail("Check after Close: %v", e)
	}
	if err := useTwin("after the first was closed"); err != nil {
		return err
	}
	if twin {
		if e := q.Close(); e != nil {
			return fail("Close of another store: %v", e)
		}
	}
	if !c.Client && c.Wrong == "" {
		for i := 0; srv.OpenConns() > 0; i++ {
			if i > 1000 {
				return fail("%d connections to the server are open after Close", srv.OpenConns())
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	return nil
}

func init() {
	reg("C22", "file", 6000, 200000, "two options, a given database, a lock, or a file which cannot be used", genC22File, runC22File)
	reg("C22", "address", 800, 20000, "a database, a password, a client, or an address which does not work", genC22URL, runC22URL)
}
