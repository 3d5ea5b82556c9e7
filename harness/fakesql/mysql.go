// Package fakesql holds in-process servers that speak enough of the MySQL,
// PostgreSQL and Oracle protocols to see what a client presents.
package fakesql

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sync"
	"time"
)

// Session is what one connection presented.
type Session struct {
	Addr     string // local address the client connected to
	User     string
	Database string
	Caps     uint32
	Charset  byte
	Queries  []string
	Params   map[string]string // PostgreSQL startup parameters, Oracle connect data
	Password string            // PostgreSQL and Oracle: as received or decrypted
	Auth     func(password string) bool
	Connect  string // Oracle: connect descriptor
	Closed   bool
	Failed   string // protocol trouble on our side of the wire
	TLS      bool
	Logged   bool // credentials accepted
	Pings    int  // answered
	conn     net.Conn
}

// Server is a listener with the sessions it saw.
type Server struct {
	Host string
	Port int
	ln   net.Listener

	mu       sync.Mutex
	sessions []*Session
	stall    bool
	hang     bool
	conns    map[net.Conn]bool
	serve    func(s *Server, c net.Conn, x *Session)
	options  map[string]string
	tls      func(net.Conn) net.Conn
	gone     chan struct{}
	rcvbuf   int
}

func listen(host string, serve func(*Server, net.Conn, *Session)) *Server {
	var ln net.Listener
	var err error
	for i := 0; i < 50; i++ {
		if ln, err = net.Listen("tcp", net.JoinHostPort(host, "0")); err == nil {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if err != nil {
		panic(err)
	}
	s := &Server{Host: host, Port: ln.Addr().(*net.TCPAddr).Port, ln: ln, conns: map[net.Conn]bool{}, serve: serve, options: map[string]string{}, gone: make(chan struct{})}
	go s.accept()
	return s
}

func (s *Server) accept() {
	for {
		c, err := s.ln.Accept()
		if err != nil {
			return
		}
		x := &Session{Addr: c.LocalAddr().String(), conn: c, Params: map[string]string{}}
		s.mu.Lock()
		if s.rcvbuf > 0 {
			c.(*net.TCPConn).SetReadBuffer(s.rcvbuf)
		}
		s.conns[c] = true
		s.sessions = append(s.sessions, x)
		s.mu.Unlock()
		go func() {
			defer func() {
				if p := recover(); p != nil {
					s.mu.Lock()
					x.Failed = fmt.Sprint(p)
					s.mu.Unlock()
				}
				c.Close()
				s.mu.Lock()
				x.Closed = true
				delete(s.conns, c)
				s.mu.Unlock()
			}()
			s.mu.Lock()
			hang := s.hang
			s.mu.Unlock()
			if hang {
				<-s.gone
				return
			}
			if s.Opt("fail") == "close" {
				return
			}
			s.serve(s, c, x)
		}()
	}
}

// Close ends everything.
func (s *Server) Close() {
	s.ln.Close()
	close(s.gone)
	s.mu.Lock()
	for c := range s.conns {
		c.Close()
	}
	s.mu.Unlock()
}

// Sessions returns copies of what was seen.
func (s *Server) Sessions() []Session {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := []Session{}
	for _, x := range s.sessions {
		y := *x
		y.Queries = append([]string(nil), x.Queries...)
		y.Params = map[string]string{}
		for k, v := range x.Params {
			y.Params[k] = v
		}
		r = append(r, y)
	}
	return r
}

// Open counts live connections.
func (s *Server) Open() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.conns)
}

// Stall makes queries go unanswered, Hang whole connections.
func (s *Server) Stall(v bool)     { s.mu.Lock(); s.stall = v; s.mu.Unlock() }
func (s *Server) Hang(v bool)      { s.mu.Lock(); s.hang = v; s.mu.Unlock() }
func (s *Server) ReadBuffer(n int) { s.mu.Lock(); s.rcvbuf = n; s.mu.Unlock() }
func (s *Server) stalled() bool    { s.mu.Lock(); defer s.mu.Unlock(); return s.stall }
func (s *Server) TLS(f func(net.Conn) net.Conn) {
	s.mu.Lock()
	s.tls = f
	s.mu.Unlock()
}

// SetOpt changes how the server behaves: "auth" (PostgreSQL: trust, cleartext,
// md5) and "fail" (close, auth, ping: where clients are turned away).
func (s *Server) SetOpt(k, v string) { s.mu.Lock(); s.options[k] = v; s.mu.Unlock() }

// Opt is such an option.
func (s *Server) Opt(k string) string { s.mu.Lock(); defer s.mu.Unlock(); return s.options[k] }

func (s *Server) set(f func()) { s.mu.Lock(); f(); s.mu.Unlock() }

// ---- MySQL

// DateText is the value of the only column a MySQL query returns.
const DateText = "2021-02-03 04:05:06"

func MySQL(host string) *Server { return listen(host, serveMySQL) }

func readPacket(r io.Reader) (byte, []byte, error) {
	h := make([]byte, 4)
	if _, err := io.ReadFull(r, h); err != nil {
		return 0, nil, err
	}
	n := int(h[0]) | int(h[1])<<8 | int(h[2])<<16
	b := make([]byte, n)
	_, err := io.ReadFull(r, b)
	return h[3], b, err
}

func writePacket(w io.Writer, seq byte, b []byte) {
	w.Write(append([]byte{byte(len(b)), byte(len(b) >> 8), byte(len(b) >> 16), seq}, b...))
}

func lenenc(b []byte, s string) []byte { return append(append(b, byte(len(s))), s...) }

func serveMySQL(s *Server, c net.Conn, x *Session) {
	salt := []byte("abcdefgh12345678WXYZ")
	g := append([]byte{10}, "5.7.99-fake\x00"...)
	g = append(g, 1, 0, 0, 0)
	g = append(g, salt[:8]...)
	g = append(g, 0)
	caps := uint32(1 | 2 | 4 | 8 | 0x80 | 0x200 | 0x2000 | 0x8000 | 0x10000 | 0x20000 | 0x80000)
	g = append(g, byte(caps), byte(caps>>8), 33, 2, 0, byte(caps>>16), byte(caps>>24), 21)
	g = append(g, make([]byte, 10)...)
	g = append(g, salt[8:]...)
	g = append(g, 0)
	g = append(g, "mysql_native_password\x00"...)
	writePacket(c, 0, g)
	br := bufio.NewReaderSize(c, 64)
	seq, p, err := readPacket(br)
	if err != nil {
		return
	}
	if len(p) < 33 {
		panic("short handshake response")
	}
	cl := binary.LittleEndian.Uint32(p)
	charset := p[8]
	rest := p[32:]
	nul := func() string {
		i := bytes.IndexByte(rest, 0)
		if i < 0 {
			panic("unterminated string in handshake response")
		}
		v := string(rest[:i])
		rest = rest[i+1:]
		return v
	}
	user := nul()
	n := int(rest[0])
	resp := append([]byte(nil), rest[1:1+n]...)
	rest = rest[1+n:]
	db := ""
	if cl&8 != 0 {
		db = nul()
	}
	s.set(func() {
		x.User, x.Database, x.Caps, x.Charset = user, db, cl, charset
		x.Auth = func(pw string) bool {
			if pw == "" {
				return len(resp) == 0
			}
			h1 := sha1.Sum([]byte(pw))
			h2 := sha1.Sum(h1[:])
			h3 := sha1.Sum(append(append([]byte(nil), salt...), h2[:]...))
			for i := range h3 {
				h3[i] ^= h1[i]
			}
			return bytes.Equal(h3[:], resp)
		}
	})
	ok := []byte{0, 0, 0, 2, 0, 0, 0}
	if s.Opt("fail") == "auth" {
		writePacket(c, seq+1, append([]byte{0xff, 0x15, 0x04}, "#28000Access denied"...))
		return
	}
	s.set(func() { x.Logged = true })
	writePacket(c, seq+1, ok)
	for {
		seq, p, err = readPacket(br)
		if err != nil || len(p) == 0 || p[0] == 1 {
			return
		}
		q := string(p[1:])
		if p[0] == 3 {
			if len(q) > 1000 {
				q = q[:1000]
			}
			s.set(func() { x.Queries = append(x.Queries, q) })
		}
		if s.stalled() {
			// nothing is read or written until the client gives up
			<-s.gone
			return
		}
		if p[0] == 14 {
			if s.Opt("fail") == "ping" {
				writePacket(c, seq+1, append([]byte{0xff, 0x1d, 0x04}, "#08S01Server shutdown in progress"...))
				continue
			}
			s.set(func() { x.Pings++ })
		}
		if p[0] == 3 && len(q) > 6 && q[:6] == "SELECT" {
			writePacket(c, seq+1, []byte{1})
			d := lenenc(nil, "def")
			for _, v := range []string{"", "", "", "d", ""} {
				d = lenenc(d, v)
			}
			d = append(d, 0x0c, 63, 0, 19, 0, 0, 0, 0x0c, 0x80, 0, 0, 0, 0)
			writePacket(c, seq+2, d)
			writePacket(c, seq+3, []byte{0xfe, 0, 0, 2, 0})
			writePacket(c, seq+4, lenenc(nil, DateText))
			writePacket(c, seq+5, []byte{0xfe, 0, 0, 2, 0})
			continue
		}
		writePacket(c, seq+1, ok)
	}
}
