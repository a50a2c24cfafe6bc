package fakeredis

import (
	"net"
	"strings"
)

// Listen serves on a loopback port until stop is called.
func (s *Server) Listen() (addr string, stop func(), err error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return
	}
	go func() {
		for {
			n, err := l.Accept()
			if err != nil {
				return
			}
			go s.bridge(n)
		}
	}()
	return l.Addr().String(), func() { l.Close() }, nil
}

func (s *Server) bridge(n net.Conn) {
	defer n.Close()
	x, err := s.Dial()
	if err != nil {
		return
	}
	c := x.(*Conn)
	defer c.Close()
	buf := make([]byte, 64<<10)
	for {
		k, err := n.Read(buf)
		if err != nil {
			return
		}
		if _, err = c.Write(buf[:k]); err != nil {
			return
		}
		c.mu.Lock()
		out := append([]byte(nil), c.out.Bytes()...)
		c.out.Reset()
		broken := c.broken
		c.mu.Unlock()
		if _, err = n.Write(out); err != nil || broken != nil {
			return
		}
	}
}

// Count is the number of keys in a database.
func (s *Server) Count(db int) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.dbs[db])
}

// HasPrefix says whether all keys of a database begin with it.
func (s *Server) HasPrefix(db int, prefix string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	for k := range s.dbs[db] {
		if !strings.HasPrefix(k, prefix) {
			return false
		}
	}
	return true
}
