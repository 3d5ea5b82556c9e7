package fakesql

import (
	"bytes"
	"crypto/md5"
	"encoding/binary"
	"encoding/hex"
	"io"
	"net"
)

// PG is a PostgreSQL server; Opt("auth") is trust, cleartext or md5.
func PG(host string) *Server { return listen(host, servePG) }

func pgMsg(t byte, b []byte) []byte {
	r := make([]byte, 5, 5+len(b))
	r[0] = t
	binary.BigEndian.PutUint32(r[1:], uint32(len(b)+4))
	return append(r, b...)
}

func readStartup(c net.Conn) (uint32, []byte, error) {
	h := make([]byte, 4)
	if _, err := io.ReadFull(c, h); err != nil {
		return 0, nil, err
	}
	b := make([]byte, int(binary.BigEndian.Uint32(h))-4)
	if _, err := io.ReadFull(c, b); err != nil {
		return 0, nil, err
	}
	return binary.BigEndian.Uint32(b), b[4:], nil
}

func readMsg(c net.Conn) (byte, []byte, error) {
	h := make([]byte, 5)
	if _, err := io.ReadFull(c, h); err != nil {
		return 0, nil, err
	}
	b := make([]byte, int(binary.BigEndian.Uint32(h[1:]))-4)
	_, err := io.ReadFull(c, b)
	return h[0], b, err
}

func servePG(s *Server, c net.Conn, x *Session) {
	code, b, err := readStartup(c)
	if err != nil {
		return
	}
	if code == 80877103 {
		s.mu.Lock()
		f := s.tls
		s.mu.Unlock()
		if f == nil {
			c.Write([]byte{'N'})
		} else {
			c.Write([]byte{'S'})
			c = f(c)
			s.set(func() { x.TLS = true })
		}
		if code, b, err = readStartup(c); err != nil {
			return
		}
	}
	if code != 196608 {
		return
	}
	parts := bytes.Split(b, []byte{0})
	params := map[string]string{}
	for i := 0; i+1 < len(parts); i += 2 {
		if len(parts[i]) == 0 {
			break
		}
		if _, ok := params[string(parts[i])]; ok {
			panic("parameter sent twice: " + string(parts[i]))
		}
		params[string(parts[i])] = string(parts[i+1])
	}
	s.set(func() { x.Params = params; x.User = params["user"]; x.Database = params["database"] })
	salt := []byte{1, 2, 3, 250}
	auth := s.Opt("auth")
	switch auth {
	case "cleartext":
		c.Write(pgMsg('R', []byte{0, 0, 0, 3}))
	case "md5":
		c.Write(pgMsg('R', append([]byte{0, 0, 0, 5}, salt...)))
	default:
		s.set(func() { x.Auth = func(string) bool { return true } })
	}
	if auth == "cleartext" || auth == "md5" {
		t, m, err := readMsg(c)
		if err != nil {
			return
		}
		if t != 'p' {
			panic("no password message")
		}
		got := string(bytes.TrimSuffix(m, []byte{0}))
		s.set(func() {
			x.Auth = func(pw string) bool {
				if auth == "cleartext" {
					return got == pw
				}
				a := md5.Sum([]byte(pw + params["user"]))
				d := md5.Sum(append([]byte(hex.EncodeToString(a[:])), salt...))
				return got == "md5"+hex.EncodeToString(d[:])
			}
		})
	}
	refuse := func(code, text string) {
		c.Write(pgMsg('E', []byte("SFATAL\x00C"+code+"\x00M"+text+"\x00\x00")))
	}
	if s.Opt("fail") == "auth" {
		refuse("28P01", "password authentication failed")
		return
	}
	s.set(func() { x.Logged = true })
	c.Write(pgMsg('R', []byte{0, 0, 0, 0}))
	c.Write(pgMsg('K', []byte{0, 0, 0, 1, 0, 0, 0, 2}))
	c.Write(pgMsg('Z', []byte{'I'}))
	for {
		t, m, err := readMsg(c)
		if err != nil || t == 'X' {
			return
		}
		if s.stalled() {
			<-s.gone
			return
		}
		if t == 'Q' {
			if s.Opt("fail") == "ping" {
				refuse("57P03", "the database system is starting up")
				return
			}
			s.set(func() { x.Pings++; x.Queries = append(x.Queries, string(bytes.TrimSuffix(m, []byte{0}))) })
			c.Write(pgMsg('I', nil))
			c.Write(pgMsg('Z', []byte{'I'}))
		}
	}
}
