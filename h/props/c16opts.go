package props

import (
	"bytes"
	"encoding/base64"

	"github.com/powerpuffpenguin/sessionid"
	"github.com/powerpuffpenguin/sessionid/cryptoer"
	pbolt "github.com/powerpuffpenguin/sessionid/provider/bolt"
	"pgregory.net/rapid"
)

// C16Opts is a store and a manager made with byte slices which change afterwards.
type C16Opts struct {
	Kind        string
	Key, Bucket []byte
	Other       []byte // what the slices are overwritten with
	M           int
	When        int // 0: before the options are used, 1: after
	Ids         [][]byte
	Again       bool // the options are used a second time
}

func genC16Opts(t *rapid.T) C16Opts {
	c := C16Opts{Kind: rapid.SampledFrom([]string{"memory", "bolt", "bolt"}).Draw(t, "kind")}
	c.Key = rapid.SliceOfN(rapid.Byte(), 1, 80).Draw(t, "key")
	c.Bucket = rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "bucket")
	c.Other = rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "other")
	c.M = rapid.IntRange(0, 4).Draw(t, "m")
	c.When = rapid.IntRange(0, 1).Draw(t, "when")
	c.Ids = rapid.SliceOfN(rapid.SliceOfN(rapid.Byte(), 1, 8), 1, 4).Draw(t, "ids")
	c.Again = rapid.Bool().Draw(t, "again")
	return c
}

func overwrite(b, with []byte) {
	for i := range b {
		b[i] = with[i%len(with)] ^ byte(i/len(with))
	}
}

func runC16Opts(c C16Opts, r *Rec) error {
	return dropLeak(bubble(func() error {
		key, bucket := bytes.Clone(c.Key), bytes.Clone(c.Bucket)
		w := &World{Cfg: Cfg{Kind: c.Kind}}
		defer w.Done()
		changed := func() {
			overwrite(key, c.Other)
			overwrite(bucket, c.Other)
		}
		withKey := sessionid.WithKey(key)
		var opts []pbolt.Option
		if c.Kind == "bolt" {
			w.Path = newFile()
			if err := w.openDB(); err != nil {
				return err
			}
			opts = []pbolt.Option{pbolt.WithDB(w.DB), pbolt.WithBucket(bucket), pbolt.WithClear(0)}
		}
		if c.When == 0 {
			changed()
		}
		open := func() (p sessionid.Provider, err error) {
			if c.Kind == "bolt" {
				return pbolt.New(opts...)
			}
			return sessionid.NewProvider(sessionid.WithProviderClear(0)), nil
		}
		p, err := open()
		if err != nil {
			return fail("cannot open the store: %v", err)
		}
		w.P = p
		mg := sessionid.NewManager(withKey, sessionid.WithProvider(p), sessionid.WithMethod(method(c.M)))
		type made struct{ tok, ref, id string }
		var toks []made
		create := func(id string) error {
			s, ref, e := mg.Create(bg, id, sessionid.Pair{Key: "k", Value: id})
			if e != nil {
				return fail("create: %v", e)
			}
			toks = append(toks, made{s.Token(), ref, id})
			return nil
		}
		for _, id := range c.Ids {
			if err := create(string(id)); err != nil {
				return err
			}
		}
		if c.When == 1 {
			changed()
		}
		for _, id := range c.Ids {
			if err := create(string(id)); err != nil {
				return err
			}
		}
		if c.Again {
			if c.Kind == "bolt" {
				if e := p.Close(); e != nil {
					return fail("close: %v", e)
				}
				if w.P, err = open(); err != nil {
					return fail("cannot open the store again: %v", err)
				}
			}
			mg = sessionid.NewManager(withKey, sessionid.WithProvider(w.P), sessionid.WithMethod(method(c.M)))
		}
		for i, x := range toks {
			if id, _, e := cryptoer.Decode(method(c.M), bytes.Clone(c.Key), x.tok); e != nil || id != base64.RawURLEncoding.EncodeToString([]byte(x.id)) {
				return fail("the token %q of %q is not signed with the key given to the manager: %q, %v", x.tok, x.id, id, e)
			}
			s, e := mg.Get(bg, x.tok)
			if e != nil {
				return fail("the manager refuses %q: %v", x.tok, e)
			}
			var got string
			if e := s.Get(bg, "k", &got); e != nil || got != x.id {
				return fail("data of %q: %q, %v", x.tok, got, e)
			}
			if i%2 == 0 {
				if _, _, e := mg.Refresh(bg, x.tok, x.ref); e != nil {
					return fail("refresh of %q: %v", x.tok, e)
				}
			}
		}
		r.Label("kind:" + c.Kind)
		if !bytes.Equal(key, c.Key) {
			r.NT()
		}
		return nil
	}))
}

func init() {
	reg("C16", "options", 6000, 120000, "the key's bytes really changed", genC16Opts, runC16Opts)
}
