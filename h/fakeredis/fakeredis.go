// Package fakeredis is an in-process redis server reached through net.Conn
// values. Commands are executed synchronously by the goroutine which writes
// them, each one (or each EXEC) atomically, so the harness decides how
// commands of several clients interleave and which replies get lost.
package fakeredis

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/h/sched"
)

type entry struct {
	hash   map[string]string
	set    map[string]bool
	str    string
	kind   byte // 'h', 's' (set), 'k' (string)
	expire time.Time
}

// Fault is what happens to one request.
type Fault int

const (
	None       Fault = iota
	DropBefore       // the connection breaks, the request never arrives
	DropAfter        // the request is executed, the connection breaks before the reply
	Timeout          // the request is executed, the reply never comes in time
	Refuse           // (dial) connection refused
	Reject           // the server answers with an error, without executing
)

// Server is one redis server.
type Server struct {
	mu       sync.Mutex
	dbs      map[int]map[string]*entry
	versions map[string]uint64 // per "db/key"
	ver      uint64
	conns    map[*Conn]bool

	Skew time.Duration // server clock minus client clock

	// OnRequest is asked before every request (a command, or a whole
	// MULTI..EXEC block) and every dial (cmd "dial").
	OnRequest func(cmd string, args []string) Fault

	Pass string // clients have to authenticate with it

	Commands int
	Broke    int    // how often a broken connection was used
	OnBroke  func() // is told
	Log      []string
	KeepLog  bool
	Unknown  map[string]int
}

// New makes an empty server.
func New() *Server {
	return &Server{dbs: map[int]map[string]*entry{}, versions: map[string]uint64{}, conns: map[*Conn]bool{}, Unknown: map[string]int{}}
}

func (s *Server) now() time.Time { return time.Now().Add(s.Skew) }

// Dial opens a connection.
func (s *Server) Dial() (net.Conn, error) {
	if s.OnRequest != nil {
		if f := s.OnRequest("dial", nil); f != None {
			return nil, &net.OpError{Op: "dial", Net: "tcp", Err: errors.New("connection refused (injected)")}
		}
	}
	c := &Conn{s: s, watch: map[string]uint64{}}
	s.mu.Lock()
	s.conns[c] = true
	s.mu.Unlock()
	return c, nil
}

// Conn is the client's end of a connection.
type Conn struct {
	s      *Server
	mu     sync.Mutex
	in     bytes.Buffer
	out    bytes.Buffer
	closed bool
	broken error // what Read returns once out is empty

	db    int
	auth  bool
	multi bool
	bad   bool
	queue [][]string
	watch map[string]uint64
}

func (c *Conn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.out.Len() > 0 {
		return c.out.Read(b)
	}
	if c.broken != nil {
		c.s.broke()
		return 0, c.broken
	}
	return 0, timeoutErr{}
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout (injected)" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

func (c *Conn) Write(b []byte) (int, error) {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return 0, net.ErrClosed
	}
	if c.broken != nil {
		c.mu.Unlock()
		c.s.broke()
		return 0, c.broken
	}
	c.in.Write(b)
	c.mu.Unlock()
	for {
		c.mu.Lock()
		args, n := parse(c.in.Bytes())
		if n > 0 {
			c.in.Next(n)
		}
		broken := c.broken
		c.mu.Unlock()
		if n == 0 || broken != nil {
			return len(b), nil
		}
		c.handle(args)
	}
}

func (c *Conn) Close() error {
	c.mu.Lock()
	already := c.closed
	c.closed = true
	c.mu.Unlock()
	c.s.mu.Lock()
	delete(c.s.conns, c)
	c.s.mu.Unlock()
	if already {
		return net.ErrClosed
	}
	return nil
}

type addr struct{}

func (addr) Network() string { return "tcp" }
func (addr) String() string  { return "fake:6379" }

func (c *Conn) LocalAddr() net.Addr                { return addr{} }
func (c *Conn) RemoteAddr() net.Addr               { return addr{} }
func (c *Conn) SetDeadline(t time.Time) error      { return nil }
func (c *Conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { return nil }

func (s *Server) broke() {
	s.mu.Lock()
	s.Broke++
	if s.OnBroke != nil {
		s.OnBroke()
	}
	s.mu.Unlock()
}

// BreakAll breaks every connection, as a restart of the server does.
func (s *Server) BreakAll() {
	s.mu.Lock()
	var cs []*Conn
	for c := range s.conns {
		cs = append(cs, c)
	}
	s.mu.Unlock()
	for _, c := range cs {
		c.resetTx()
		c.discardReplies()
		c.fail(io.EOF)
	}
}

// Undying lists the keys which have no expiry.
func (s *Server) Undying() (out []string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for k, e := range s.dbs[0] {
		if e.expire.IsZero() {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return
}

// OpenConns is the number of connections not closed by the client.
func (s *Server) OpenConns() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.conns)
}

// parse takes one RESP array of bulk strings off b; n == 0 if incomplete.
func parse(b []byte) (args []string, n int) {
	line := func(p int) (string, int) {
		i := bytes.Index(b[p:], []byte("\r\n"))
		if i < 0 {
			return "", -1
		}
		return string(b[p : p+i]), p + i + 2
	}
	if len(b) == 0 {
		return nil, 0
	}
	l, p := line(0)
	if p < 0 || l == "" || l[0] != '*' {
		return nil, 0
	}
	cnt, _ := strconv.Atoi(l[1:])
	for i := 0; i < cnt; i++ {
		l, q := line(p)
		if q < 0 {
			return nil, 0
		}
		sz, _ := strconv.Atoi(l[1:])
		if len(b) < q+sz+2 {
			return nil, 0
		}
		args = append(args, string(b[q:q+sz]))
		p = q + sz + 2
	}
	return args, p
}

func (c *Conn) reply(s string) {
	c.mu.Lock()
	c.out.WriteString(s)
	c.mu.Unlock()
}

func (c *Conn) fail(e error) {
	c.mu.Lock()
	c.broken = e
	c.in.Reset()
	c.mu.Unlock()
}

func (c *Conn) handle(args []string) {
	if len(args) == 0 {
		c.reply("-ERR empty\r\n")
		return
	}
	cmd := strings.ToLower(args[0])
	if cmd == "auth" {
		if c.s.Pass == "" || args[len(args)-1] != c.s.Pass {
			c.reply("-WRONGPASS invalid username-password pair or user is disabled.\r\n")
			return
		}
		c.auth = true
		c.reply("+OK\r\n")
		return
	}
	if c.s.Pass != "" && !c.auth {
		c.reply("-NOAUTH Authentication required.\r\n")
		return
	}
	if c.multi && cmd != "exec" && cmd != "discard" && cmd != "watch" && cmd != "multi" {
		if !known(cmd) {
			c.bad = true
			c.reply("-ERR unknown command\r\n")
			return
		}
		c.queue = append(c.queue, args)
		c.reply("+QUEUED\r\n")
		return
	}
	if cmd == "multi" {
		if c.multi {
			c.reply("-ERR MULTI calls can not be nested\r\n")
			return
		}
		c.multi, c.bad, c.queue = true, false, nil
		c.reply("+OK\r\n")
		return
	}
	f := None
	sched.Point("redis " + cmd)
	c.s.mu.Lock()
	c.s.Commands++
	if c.s.KeepLog {
		c.s.Log = append(c.s.Log, fmt.Sprintf("%q", args))
	}
	hook := c.s.OnRequest
	c.s.mu.Unlock()
	if hook != nil {
		f = hook(cmd, args)
	}
	switch f {
	case DropBefore:
		c.resetTx()
		c.discardReplies()
		c.fail(io.EOF)
		return
	case Reject:
		c.resetTx()
		c.reply("-OOM command not allowed when used memory > 'maxmemory'.\r\n")
		return
	}
	var out string
	c.s.mu.Lock()
	switch cmd {
	case "exec":
		out = c.exec()
	case "discard":
		if !c.multi {
			out = "-ERR DISCARD without MULTI\r\n"
		} else {
			c.resetTx()
			out = "+OK\r\n"
		}
	case "watch":
		if c.multi {
			out = "-ERR WATCH inside MULTI is not allowed\r\n"
			break
		}
		for _, k := range args[1:] {
			c.s.get(c.db, k) // lazy expiry first
			vk := c.s.vkey(c.db, k)
			if _, ok := c.watch[vk]; !ok {
				c.watch[vk] = c.s.versions[vk]
			}
		}
		out = "+OK\r\n"
	case "unwatch":
		c.watch = map[string]uint64{}
		out = "+OK\r\n"
	case "select":
		c.db, _ = strconv.Atoi(args[1])
		out = "+OK\r\n"
	default:
		out = c.s.do(c.db, cmd, args[1:])
	}
	c.s.mu.Unlock()
	switch f {
	case DropAfter:
		c.discardReplies()
		c.resetTx()
		c.fail(io.EOF)
	case Timeout:
		c.discardReplies()
		c.resetTx()
		c.fail(timeoutErr{})
	default:
		c.reply(out)
	}
	if hook != nil && f == None {
		_ = hook
	}
}

func (c *Conn) discardReplies() {
	c.mu.Lock()
	c.out.Reset()
	c.mu.Unlock()
}

func (c *Conn) resetTx() {
	c.multi, c.bad, c.queue = false, false, nil
	c.watch = map[string]uint64{}
}

func (c *Conn) exec() string {
	if !c.multi {
		return "-ERR EXEC without MULTI\r\n"
	}
	q, bad, watch := c.queue, c.bad, c.watch
	c.resetTx()
	if bad {
		return "-EXECABORT Transaction discarded because of previous errors.\r\n"
	}
	for vk, v := range watch {
		i := strings.IndexByte(vk, '/')
		db, _ := strconv.Atoi(vk[:i])
		c.s.get(db, vk[i+1:])
		if c.s.versions[vk] != v {
			return "*-1\r\n"
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "*%d\r\n", len(q))
	for _, a := range q {
		b.WriteString(c.s.do(c.db, strings.ToLower(a[0]), a[1:]))
	}
	return b.String()
}

func (s *Server) vkey(db int, k string) string { return strconv.Itoa(db) + "/" + k }

func (s *Server) touch(db int, k string) {
	s.ver++
	s.versions[s.vkey(db, k)] = s.ver
}

func (s *Server) get(db int, k string) *entry {
	m := s.dbs[db]
	e := m[k]
	if e == nil {
		return nil
	}
	if !e.expire.IsZero() && s.now().After(e.expire) {
		delete(m, k)
		s.touch(db, k)
		return nil
	}
	return e
}

func (s *Server) put(db int, k string, e *entry) {
	if s.dbs[db] == nil {
		s.dbs[db] = map[string]*entry{}
	}
	s.dbs[db][k] = e
	s.touch(db, k)
}

func (s *Server) del(db int, k string) bool {
	if s.get(db, k) == nil {
		return false
	}
	delete(s.dbs[db], k)
	s.touch(db, k)
	return true
}

func bulk(s string) string { return "$" + strconv.Itoa(len(s)) + "\r\n" + s + "\r\n" }
func num(n int) string     { return ":" + strconv.Itoa(n) + "\r\n" }
func arr(v []string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "*%d\r\n", len(v))
	for _, x := range v {
		b.WriteString(bulk(x))
	}
	return b.String()
}

const (
	nilBulk   = "$-1\r\n"
	wrongType = "-WRONGTYPE Operation against a key holding the wrong kind of value\r\n"
	wrongArgs = "-ERR wrong number of arguments\r\n"
)

func known(cmd string) bool {
	switch cmd {
	case "ping", "echo", "auth", "client", "hset", "hmset", "hsetnx", "hget", "hmget", "hgetall", "hkeys", "hvals", "hdel", "hexists", "hlen", "hstrlen",
		"del", "unlink", "exists", "keys", "scan", "hscan", "expire", "pexpire", "expireat", "pexpireat", "persist", "ttl", "pttl", "rename", "renamenx",
		"type", "set", "setnx", "get", "setex", "psetex", "getset", "mget", "incr", "sadd", "srem", "smembers", "scard", "sismember", "dbsize", "flushdb", "flushall", "time", "select", "touch":
		return true
	}
	return false
}

func (s *Server) do(db int, cmd string, a []string) string {
	need := func(n int) bool { return len(a) >= n }
	hash := func(k string) (*entry, bool) {
		e := s.get(db, k)
		if e != nil && e.kind != 'h' {
			return nil, false
		}
		return e, true
	}
	switch cmd {
	case "ping":
		if len(a) > 0 {
			return bulk(a[0])
		}
		return "+PONG\r\n"
	case "echo":
		return bulk(a[0])
	case "auth", "client":
		return "+OK\r\n"
	case "time":
		n := s.now()
		return arr([]string{strconv.FormatInt(n.Unix(), 10), strconv.Itoa(n.Nanosecond() / 1000)})
	case "hset", "hmset":
		if len(a) < 3 || len(a)%2 == 0 {
			return wrongArgs
		}
		e, ok := hash(a[0])
		if !ok {
			return wrongType
		}
		if e == nil {
			e = &entry{kind: 'h', hash: map[string]string{}}
		}
		n := 0
		for i := 1; i < len(a); i += 2 {
			if _, ok := e.hash[a[i]]; !ok {
				n++
			}
			e.hash[a[i]] = a[i+1]
		}
		s.put(db, a[0], e)
		if cmd == "hmset" {
			return "+OK\r\n"
		}
		return num(n)
	case "hsetnx":
		if !need(3) {
			return wrongArgs
		}
		e, ok := hash(a[0])
		if !ok {
			return wrongType
		}
		if e == nil {
			e = &entry{kind: 'h', hash: map[string]string{}}
		}
		if _, ok := e.hash[a[1]]; ok {
			return num(0)
		}
		e.hash[a[1]] = a[2]
		s.put(db, a[0], e)
		return num(1)
	case "hget":
		if !need(2) {
			return wrongArgs
		}
		e, ok := hash(a[0])
		if !ok {
			return wrongType
		}
		if e == nil {
			return nilBulk
		}
		v, ok := e.hash[a[1]]
		if !ok {
			return nilBulk
		}
		return bulk(v)
	case "hmget":
		if !need(2) {
			return wrongArgs
		}
		e, ok := hash(a[0])
		if !ok {
			return wrongType
		}
		var b strings.Builder
		fmt.Fprintf(&b, "*%d\r\n", len(a)-1)
		for _, f := range a[1:] {
			if e != nil {
				if v, ok := e.hash[f]; ok {
					b.WriteString(bulk(v))
					continue
				}
			}
			b.WriteString(nilBulk)
		}
		return b.String()
	case "hgetall", "hkeys", "hvals", "hscan":
		if !need(1) {
			return wrongArgs
		}
		e, ok := hash(a[0])
		if !ok {
			return wrongType
		}
		var out []string
		if e != nil {
			ks := make([]string, 0, len(e.hash))
			for k := range e.hash {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if cmd != "hvals" {
					out = append(out, k)
				}
				if cmd != "hkeys" {
					out = append(out, e.hash[k])
				}
			}
		}
		if cmd == "hscan" {
			if !need(2) {
				return wrongArgs
			}
			cur, count, pat, bad := scanArgs(a[1:])
			if bad != "" {
				return bad
			}
			if len(out)/2 <= 128 { // small hashes come at once
				count = 128
			}
			var ks []string
			for i := 0; i < len(out); i += 2 {
				ks = append(ks, out[i])
			}
			next, ks := scanPage(ks, cur, count)
			out = []string{}
			for _, k := range ks {
				if Glob(pat, k) {
					out = append(out, k, e.hash[k])
				}
			}
			return "*2\r\n" + bulk(strconv.FormatUint(next, 10)) + arr(out)
		}
		return arr(out)
	case "hdel":
		if !need(2) {
			return wrongArgs
		}
		e, ok := hash(a[0])
		if !ok {
			return wrongType
		}
		n := 0
		if e != nil {
			for _, f := range a[1:] {
				if _, ok := e.hash[f]; ok {
					delete(e.hash, f)
					n++
				}
			}
			if n > 0 {
				if len(e.hash) == 0 {
					s.del(db, a[0])
				} else {
					s.touch(db, a[0])
				}
			}
		}
		return num(n)
	case "hexists":
		e, ok := hash(a[0])
		if !ok {
			return wrongType
		}
		if e != nil {
			if _, ok := e.hash[a[1]]; ok {
				return num(1)
			}
		}
		return num(0)
	case "hlen":
		e, ok := hash(a[0])
		if !ok {
			return wrongType
		}
		if e == nil {
			return num(0)
		}
		return num(len(e.hash))
	case "hstrlen":
		e, ok := hash(a[0])
		if !ok {
			return wrongType
		}
		if e == nil {
			return num(0)
		}
		return num(len(e.hash[a[1]]))
	case "del", "unlink":
		if !need(1) {
			return wrongArgs
		}
		n := 0
		for _, k := range a {
			if s.del(db, k) {
				n++
			}
		}
		return num(n)
	case "exists", "touch":
		n := 0
		for _, k := range a {
			if s.get(db, k) != nil {
				n++
			}
		}
		return num(n)
	case "keys":
		if !need(1) {
			return wrongArgs
		}
		return arr(s.keys(db, a[0]))
	case "scan":
		if !need(1) {
			return wrongArgs
		}
		cur, count, pat, bad := scanArgs(a)
		if bad != "" {
			return bad
		}
		next, ks := scanPage(s.keys(db, "*"), cur, count)
		out := []string{}
		for _, k := range ks {
			if Glob(pat, k) {
				out = append(out, k)
			}
		}
		return "*2\r\n" + bulk(strconv.FormatUint(next, 10)) + arr(out)
	case "expire", "pexpire", "expireat", "pexpireat":
		if !need(2) {
			return wrongArgs
		}
		e := s.get(db, a[0])
		if e == nil {
			return num(0)
		}
		n, err := strconv.ParseInt(a[1], 10, 64)
		if err != nil {
			return "-ERR value is not an integer or out of range\r\n"
		}
		var at time.Time
		switch cmd {
		case "expire":
			at = later(s.now(), n, time.Second)
		case "pexpire":
			at = later(s.now(), n, time.Millisecond)
		case "expireat":
			at = time.Unix(n, 0)
		case "pexpireat":
			at = time.UnixMilli(n)
		}
		if !at.After(s.now()) {
			s.del(db, a[0])
			return num(1)
		}
		e.expire = at
		s.touch(db, a[0])
		return num(1)
	case "persist":
		e := s.get(db, a[0])
		if e == nil || e.expire.IsZero() {
			return num(0)
		}
		e.expire = time.Time{}
		s.touch(db, a[0])
		return num(1)
	case "ttl", "pttl":
		e := s.get(db, a[0])
		if e == nil {
			return num(-2)
		}
		if e.expire.IsZero() {
			return num(-1)
		}
		d := e.expire.Sub(s.now())
		if cmd == "ttl" {
			return num(int((d + 500*time.Millisecond) / time.Second))
		}
		return num(int(d / time.Millisecond))
	case "rename", "renamenx":
		if !need(2) {
			return wrongArgs
		}
		e := s.get(db, a[0])
		if e == nil {
			return "-ERR no such key\r\n"
		}
		if cmd == "renamenx" && s.get(db, a[1]) != nil {
			return num(0)
		}
		if a[0] != a[1] {
			delete(s.dbs[db], a[0])
			s.touch(db, a[0])
			s.put(db, a[1], e)
		}
		if cmd == "renamenx" {
			return num(1)
		}
		return "+OK\r\n"
	case "type":
		e := s.get(db, a[0])
		if e == nil {
			return "+none\r\n"
		}
		return map[byte]string{'h': "+hash\r\n", 's': "+set\r\n", 'k': "+string\r\n"}[e.kind]
	case "set", "setnx", "setex", "psetex", "getset":
		if !need(2) {
			return wrongArgs
		}
		e := &entry{kind: 'k', str: a[1]}
		old := s.get(db, a[0])
		switch cmd {
		case "setnx":
			if old != nil {
				return num(0)
			}
		case "setex", "psetex":
			n, _ := strconv.ParseInt(a[1], 10, 64)
			e.str = a[2]
			u := time.Second
			if cmd == "psetex" {
				u = time.Millisecond
			}
			e.expire = later(s.now(), n, u)
		case "set":
			for i := 2; i < len(a); i++ {
				switch strings.ToLower(a[i]) {
				case "nx":
					if old != nil {
						return nilBulk
					}
				case "xx":
					if old == nil {
						return nilBulk
					}
				case "ex", "px":
					if i+1 < len(a) {
						n, _ := strconv.ParseInt(a[i+1], 10, 64)
						u := time.Second
						if strings.ToLower(a[i]) == "px" {
							u = time.Millisecond
						}
						e.expire = later(s.now(), n, u)
						i++
					}
				case "keepttl":
					if old != nil {
						e.expire = old.expire
					}
				}
			}
		}
		s.put(db, a[0], e)
		switch cmd {
		case "setnx":
			return num(1)
		case "getset":
			if old == nil {
				return nilBulk
			}
			return bulk(old.str)
		}
		return "+OK\r\n"
	case "get":
		e := s.get(db, a[0])
		if e == nil {
			return nilBulk
		}
		if e.kind != 'k' {
			return wrongType
		}
		return bulk(e.str)
	case "mget":
		var b strings.Builder
		fmt.Fprintf(&b, "*%d\r\n", len(a))
		for _, k := range a {
			if e := s.get(db, k); e != nil && e.kind == 'k' {
				b.WriteString(bulk(e.str))
			} else {
				b.WriteString(nilBulk)
			}
		}
		return b.String()
	case "incr":
		e := s.get(db, a[0])
		if e == nil {
			e = &entry{kind: 'k', str: "0"}
		}
		n, _ := strconv.Atoi(e.str)
		e.str = strconv.Itoa(n + 1)
		s.put(db, a[0], e)
		return num(n + 1)
	case "sadd", "srem", "smembers", "scard", "sismember":
		if !need(1) {
			return wrongArgs
		}
		e := s.get(db, a[0])
		if e != nil && e.kind != 's' {
			return wrongType
		}
		switch cmd {
		case "sadd":
			if e == nil {
				e = &entry{kind: 's', set: map[string]bool{}}
			}
			n := 0
			for _, x := range a[1:] {
				if !e.set[x] {
					e.set[x] = true
					n++
				}
			}
			s.put(db, a[0], e)
			return num(n)
		case "srem":
			n := 0
			if e != nil {
				for _, x := range a[1:] {
					if e.set[x] {
						delete(e.set, x)
						n++
					}
				}
				if len(e.set) == 0 {
					s.del(db, a[0])
				} else if n > 0 {
					s.touch(db, a[0])
				}
			}
			return num(n)
		case "smembers":
			var out []string
			if e != nil {
				for x := range e.set {
					out = append(out, x)
				}
			}
			sort.Strings(out)
			return arr(out)
		case "scard":
			if e == nil {
				return num(0)
			}
			return num(len(e.set))
		default:
			if e != nil && e.set[a[1]] {
				return num(1)
			}
			return num(0)
		}
	case "dbsize":
		return num(len(s.keys(db, "*")))
	case "flushdb", "flushall":
		for _, k := range s.keys(db, "*") {
			s.del(db, k)
		}
		return "+OK\r\n"
	case "select":
		return "+OK\r\n"
	}
	s.Unknown[cmd]++
	return "-ERR unknown command '" + cmd + "'\r\n"
}

func (s *Server) keys(db int, pat string) []string {
	var out []string
	for k := range s.dbs[db] {
		if s.get(db, k) != nil && Glob(pat, k) {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// AllKeys lists the unexpired keys of database 0.
func (s *Server) AllKeys() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.keys(0, "*")
}

// Size is the number of keys and their elements, and their bytes, not past their expiry.
func (s *Server) Size() (entries, bytes int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, k := range s.keys(0, "*") {
		e := s.dbs[0][k]
		entries++
		bytes += len(k) + len(e.str)
		for f, v := range e.hash {
			entries++
			bytes += len(f) + len(v)
		}
		for f := range e.set {
			entries++
			bytes += len(f)
		}
	}
	return
}

// RawKeys lists the keys of database 0, whether or not past their expiry, with a flag for keys which never expire.
func (s *Server) RawKeys() map[string]bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := map[string]bool{}
	for k, e := range s.dbs[0] {
		out[k] = e.expire.IsZero()
	}
	return out
}

// SetString stores an unrelated string key (for bystander data).
func (s *Server) SetString(k, v string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.put(0, k, &entry{kind: 'k', str: v})
}

// GetString reads a string key.
func (s *Server) GetString(k string) (string, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	e := s.get(0, k)
	if e == nil {
		return "", false
	}
	return e.str, true
}

// Glob is redis' stringmatchlen.
func Glob(p, s string) bool {
	for len(p) > 0 {
		switch p[0] {
		case '*':
			for len(p) > 1 && p[1] == '*' {
				p = p[1:]
			}
			if len(p) == 1 {
				return true
			}
			for i := 0; i <= len(s); i++ {
				if Glob(p[1:], s[i:]) {
					return true
				}
			}
			return false
		case '?':
			if len(s) == 0 {
				return false
			}
			s = s[1:]
		case '[':
			if len(s) == 0 {
				return false
			}
			p = p[1:]
			not := len(p) > 0 && p[0] == '^'
			if not {
				p = p[1:]
			}
			match := false
			for {
				if len(p) == 0 {
					break
				}
				if p[0] == '\\' && len(p) >= 2 {
					p = p[1:]
					if p[0] == s[0] {
						match = true
					}
				} else if p[0] == ']' {
					break
				} else if len(p) >= 3 && p[1] == '-' {
					lo, hi := p[0], p[2]
					if lo > hi {
						lo, hi = hi, lo
					}
					p = p[2:]
					if s[0] >= lo && s[0] <= hi {
						match = true
					}
				} else if p[0] == s[0] {
					match = true
				}
				p = p[1:]
			}
			if not {
				match = !match
			}
			if !match {
				return false
			}
			s = s[1:]
			if len(p) == 0 {
				return len(s) == 0
			}
		case '\\':
			if len(p) >= 2 {
				p = p[1:]
			}
			fallthrough
		default:
			if len(s) == 0 || p[0] != s[0] {
				return false
			}
			s = s[1:]
		}
		p = p[1:]
	}
	return len(s) == 0
}

// later is n units after a time, also where a Duration is too short for it.
func later(at time.Time, n int64, u time.Duration) time.Time {
	if max := int64(math.MaxInt64 / u); n <= max && n >= -max {
		return at.Add(time.Duration(n) * u)
	}
	if u == time.Second {
		return time.Unix(at.Unix()+n, 0)
	}
	return time.UnixMilli(at.UnixMilli() + n)
}

func scanArgs(a []string) (cur uint64, count int, pat, bad string) {
	count, pat = 10, "*"
	cur, e := strconv.ParseUint(a[0], 10, 64)
	if e != nil {
		return 0, 0, "", "-ERR invalid cursor\r\n"
	}
	for i := 1; i < len(a); i += 2 {
		if i+1 == len(a) {
			return 0, 0, "", "-ERR syntax error\r\n"
		}
		switch strings.ToLower(a[i]) {
		case "match":
			pat = a[i+1]
		case "count":
			if count, e = strconv.Atoi(a[i+1]); e != nil || count < 1 {
				return 0, 0, "", "-ERR syntax error\r\n"
			}
		case "type":
		default:
			return 0, 0, "", "-ERR syntax error\r\n"
		}
	}
	return
}

// scanPage returns at most about count of the names from the cursor on, in the order of their hashes. Nothing is guaranteed about
// how many elements a page has.
func scanPage(names []string, cur uint64, count int) (next uint64, page []string) {
	if n := 1 + int(cur%13)*count/10; n < count && len(names) > 12 {
		count = n
	}
	pos := func(k string) uint64 {
		h := fnv.New64a()
		h.Write([]byte(k))
		return h.Sum64()>>16 + 1
	}
	sort.Slice(names, func(i, j int) bool { return pos(names[i]) < pos(names[j]) })
	for i, k := range names {
		if pos(k) < cur {
			continue
		}
		if len(page) >= count && pos(k) != pos(names[i-1]) {
			return pos(k), page
		}
		page = append(page, k)
	}
	return 0, page
}

// TouchAll is another client which writes to every key what it holds already.
func (s *Server) TouchAll() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for db, m := range s.dbs {
		for k := range m {
			s.touch(db, k)
		}
	}
}
