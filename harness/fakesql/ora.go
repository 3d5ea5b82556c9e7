package fakesql

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	"crypto/sha1"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"net"
	"strings"
)

// Oracle is a listener that accepts every login (verifier type 6949).
func Oracle(host string) *Server { return listen(host, serveOra) }

func readTNS(c net.Conn) (byte, []byte, error) {
	h := make([]byte, 8)
	if _, err := io.ReadFull(c, h); err != nil {
		return 0, nil, err
	}
	n := int(binary.BigEndian.Uint16(h))
	if n < 8 {
		return 0, nil, io.ErrUnexpectedEOF
	}
	b := make([]byte, n-8)
	_, err := io.ReadFull(c, b)
	return h[4], append(h, b...), err
}

func oraData(b ...byte) []byte {
	r := make([]byte, 10, 10+len(b))
	binary.BigEndian.PutUint16(r, uint16(10+len(b)))
	r[4] = 6
	return append(r, b...)
}

// cint is a compressed integer.
func cint(n int) []byte {
	if n == 0 {
		return []byte{0}
	}
	t := make([]byte, 8)
	binary.BigEndian.PutUint64(t, uint64(n))
	t = bytes.TrimLeft(t, "\x00")
	return append([]byte{byte(len(t))}, t...)
}

func clr(s string) []byte {
	if len(s) > 250 {
		panic("long string")
	}
	return append([]byte{byte(len(s))}, s...)
}

func kv(k, v string, n int) []byte {
	b := append(cint(len(k)), clr(k)...)
	if v == "" {
		b = append(b, 0)
	} else {
		b = append(append(b, cint(len(v))...), clr(v)...)
	}
	return append(b, cint(n)...)
}

type oraReader struct{ b []byte }

func (r *oraReader) byte() byte {
	v := r.b[0]
	r.b = r.b[1:]
	return v
}

func (r *oraReader) int() int {
	n := int(r.byte())
	v := 0
	for i := 0; i < n; i++ {
		v = v<<8 | int(r.byte())
	}
	return v
}

func (r *oraReader) clr() string {
	n := int(r.byte())
	if n == 0xFE {
		s := ""
		for {
			m := int(r.byte())
			if m == 0 {
				return s
			}
			s += string(r.b[:m])
			r.b = r.b[m:]
		}
	}
	s := string(r.b[:n])
	r.b = r.b[n:]
	return s
}

func (r *oraReader) kv() (string, string) {
	get := func() string {
		if r.int() == 0 {
			return ""
		}
		return r.clr()
	}
	k := get()
	v := get()
	r.int()
	return k, v
}

func serveOra(s *Server, c net.Conn, x *Session) {
	t, b, err := readTNS(c)
	if err != nil || t != 1 {
		return
	}
	desc := string(b[70:])
	if desc == "" {
		if t, b, err = readTNS(c); err != nil || t != 6 {
			return
		}
		desc = string(b[10:])
	}
	s.set(func() { x.Connect = desc })
	acc := make([]byte, 32)
	binary.BigEndian.PutUint16(acc, 32)
	acc[4] = 2
	binary.BigEndian.PutUint16(acc[8:], 312)
	binary.BigEndian.PutUint16(acc[12:], 0x7FFF)
	binary.BigEndian.PutUint16(acc[14:], 0x7FFF)
	binary.BigEndian.PutUint16(acc[16:], 1)
	binary.BigEndian.PutUint16(acc[20:], 32)
	acc[22] = 4
	c.Write(acc)
	summary := append([]byte{4}, make([]byte, 26)...)
	salt := []byte{9, 8, 7, 6, 5, 4, 3, 2, 1, 0}
	esrv := make([]byte, 48)
	for i := range esrv {
		esrv[i] = byte(i*7 + 3)
	}
	phase1 := ""
	logged := false
	for {
		t, b, err := readTNS(c)
		if err != nil || t != 6 {
			return
		}
		if logged && s.stalled() {
			<-s.gone
			return
		}
		r := &oraReader{b[10:]}
		switch {
		case len(r.b) == 0:
			continue
		case r.b[0] == 1: // protocol negotiation
			m := append([]byte{1, 6, 0}, "fake\x00"...)
			m = append(m, 0x69, 0x03, 0, 0, 0)
			arr := make([]byte, 20)
			binary.BigEndian.PutUint16(arr[9:], 2000)
			m = append(m, 0, byte(len(arr)))
			m = append(m, arr...)
			caps := make([]byte, 38)
			caps[7] = 6
			m = append(m, byte(len(caps)))
			m = append(m, caps...)
			m = append(m, 2, 2, 0)
			c.Write(oraData(m...))
		case r.b[0] == 2: // data types
			c.Write(oraData(2, 0))
		case r.b[0] == 3 && r.b[1] == 0x76:
			r.b = r.b[4:]
			n := r.int()
			r.int()
			r.b = r.b[5:]
			phase1 = ""
			if n > 0 {
				phase1 = r.clr()
			}
			m := append([]byte{8}, cint(2)...)
			m = append(m, kv("AUTH_SESSKEY", strings.ToUpper(hex.EncodeToString(esrv)), 0)...)
			m = append(m, kv("AUTH_VFR_DATA", strings.ToUpper(hex.EncodeToString(salt)), 6949)...)
			c.Write(oraData(append(m, summary...)...))
		case r.b[0] == 3 && r.b[1] == 0x73:
			r.b = r.b[3:]
			r.byte()
			n := r.int()
			mode := r.int()
			r.byte()
			cnt := r.int()
			r.b = r.b[2:]
			user := ""
			if n > 0 {
				user = r.clr()
			}
			if phase1 != "" && phase1 != user {
				panic(fmt.Sprintf("user differs between the phases: %q %q", phase1, user))
			}
			kvs := map[string]string{}
			for i := 0; i < cnt; i++ {
				k, v := r.kv()
				kvs[k] = v
			}
			s.set(func() {
				x.User = user
				x.Params = kvs
				x.Params["MODE"] = fmt.Sprint(mode)
				x.Auth = func(pw string) bool { return oraAuth(pw, salt, esrv, kvs["AUTH_SESSKEY"], kvs["AUTH_PASSWORD"]) }
			})
			if s.Opt("fail") == "auth" {
				return
			}
			s.set(func() { x.Logged = true })
			m := append([]byte{23, 5}, cint(0)...)
			m = append(m, 0)
			m = append(m, cint(1)...)
			m = append(m, 0)
			m = append(m, kv("AUTH_NLS_LXLAN", "AMERICAN", 16)...)
			m = append(m, cint(0)...)
			m = append(m, 8)
			m = append(m, cint(2)...)
			m = append(m, kv("AUTH_SESSION_ID", "7", 0)...)
			m = append(m, kv("AUTH_SERIAL_NUM", "9", 0)...)
			c.Write(oraData(append(m, summary...)...))
		case r.b[0] == 3 && r.b[1] == 0x3B:
			m := append([]byte{8}, cint(4)...)
			m = append(m, clr("fake")...)
			m = append(m, cint(0x0B200400)...)
			c.Write(oraData(m...))
			logged = true
		case r.b[0] == 3 && r.b[1] == 0x93:
			if s.Opt("fail") == "ping" {
				return
			}
			s.set(func() { x.Pings++; x.Queries = append(x.Queries, "ping") })
			c.Write(oraData(9))
		default:
			panic(fmt.Sprintf("unexpected request % x", r.b))
		}
	}
}

func oraAuth(pw string, salt, esrv []byte, cli, pass string) bool {
	if pw == "" {
		return cli == "" && pass == ""
	}
	h := sha1.Sum(append([]byte(pw), salt...))
	key := append(h[:], 0, 0, 0, 0)
	dec := func(key, in []byte) []byte {
		if len(in)%16 != 0 {
			return nil
		}
		blk, err := aes.NewCipher(key)
		if err != nil {
			panic(err)
		}
		out := make([]byte, len(in))
		cipher.NewCBCDecrypter(blk, make([]byte, 16)).CryptBlocks(out, in)
		return out
	}
	eb, err := hex.DecodeString(cli)
	if err != nil || len(eb) < 48 {
		return false
	}
	ck, sk := dec(key, eb), dec(key, esrv)
	if ck == nil {
		return false
	}
	x := make([]byte, 24)
	for i := range x {
		x[i] = sk[16+i] ^ ck[16+i]
	}
	a, bb := md5.Sum(x[:16]), md5.Sum(x[16:])
	pk := append(a[:], bb[:]...)[:24]
	ep, err := hex.DecodeString(pass)
	if err != nil || len(ep) < 32 {
		return false
	}
	p := dec(pk, ep)
	if p == nil {
		return false
	}
	n := int(p[len(p)-1])
	if n == 0 || n > 16 || len(p)-n < 16 {
		return false
	}
	return string(p[16:len(p)-n]) == pw
}
