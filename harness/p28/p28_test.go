// Monitor of P28: reading keys and certificates.
package p28

import (
	"bytes"
	"crypto/rsa"
	"crypto/x509"
	"encoding/base64"
	"encoding/pem"
	"fmt"
	"reflect"
	"strings"
	"testing"

	rsautil "github.com/chanjarster/gears/util/rsa"
	"verif/harness/keys"
	"verif/harness/vk"
)

func TestMain(m *testing.M) { vk.Main(m, "P28") }

// form is one kind of thing that can be read, in all its ways.
type form struct {
	name, typ string
	text      func(string) (interface{}, error)
	bytes     func([]byte) (interface{}, error)
	mustText  func(string) interface{} // may be missing
	mustBytes func([]byte) interface{}
	parse     func(der []byte) interface{} // the standard library's reading, nil if refused
}

var forms = []form{
	{"private key", keys.PrivType,
		func(s string) (interface{}, error) { return rsautil.ReadPrivateKey(s) },
		func(b []byte) (interface{}, error) { return rsautil.ReadPrivateKeyBytes(b) },
		func(s string) interface{} { return rsautil.MustReadPrivateKey(s) },
		func(b []byte) interface{} { return rsautil.MustReadPrivateKeyBytes(b) },
		func(d []byte) interface{} {
			if k, err := x509.ParsePKCS1PrivateKey(d); err == nil {
				return k
			}
			return nil
		}},
	{"public key", keys.PubType,
		func(s string) (interface{}, error) { return rsautil.ReadPublicKey(s) },
		func(b []byte) (interface{}, error) { return rsautil.ReadPublicKeyBytes(b) },
		func(s string) interface{} { return rsautil.MustReadPublicKey(s) },
		func(b []byte) interface{} { return rsautil.MustReadPublicKeyBytes(b) },
		func(d []byte) interface{} {
			k, _ := x509.ParsePKIXPublicKey(d)
			if r, ok := k.(*rsa.PublicKey); ok {
				return r
			}
			return nil
		}},
	{"certificate", keys.CertType,
		func(s string) (interface{}, error) { return rsautil.ReadX509Certificate(s) },
		func(b []byte) (interface{}, error) { return rsautil.ReadX509CertificateBytes(b) },
		nil,
		func(b []byte) interface{} { return rsautil.MustReadX509CertificateBytes(b) },
		func(d []byte) interface{} {
			if k, err := x509.ParseCertificate(d); err == nil {
				return k
			}
			return nil
		}},
}

func equal(a, b interface{}) bool {
	switch x := a.(type) {
	case *rsa.PrivateKey:
		y, ok := b.(*rsa.PrivateKey)
		return ok && x != nil && y != nil && x.Equal(y)
	case *rsa.PublicKey:
		y, ok := b.(*rsa.PublicKey)
		return ok && x != nil && y != nil && x.Equal(y)
	case *x509.Certificate:
		y, ok := b.(*x509.Certificate)
		return ok && x != nil && y != nil && bytes.Equal(x.Raw, y.Raw) && x.Subject.String() == y.Subject.String()
	}
	return false
}

func isNil(v interface{}) bool { return v == nil || reflect.ValueOf(v).IsNil() }

// within collects every DER value some reading of the text yields.
func within(text string) [][]byte {
	var out [][]byte
	rest := []byte(text)
	for {
		var b *pem.Block
		b, rest = pem.Decode(rest)
		if b == nil {
			break
		}
		out = append(out, b.Bytes)
	}
	for _, t := range []string{keys.PrivType, keys.PubType, keys.CertType} {
		if b, _ := pem.Decode([]byte("-----BEGIN " + t + "-----\n" + text + "\n-----END " + t + "-----")); b != nil {
			out = append(out, b.Bytes)
		}
	}
	s := strings.Map(func(r rune) rune {
		if strings.ContainsRune(" \t\r\n", r) {
			return -1
		}
		return r
	}, text)
	if d, err := base64.StdEncoding.DecodeString(s); err == nil {
		out = append(out, d)
	}
	return out
}

func TestRead(t *testing.T) {
	vk.Rule("read: every RSA key and certificate of a pool (512 to 4096 bits, odd sizes, three primes, exponents 3 and 65537; certificates of RSA, EC and Ed25519 keys) in every PEM and bare base64 form, and damaged ones: other PEM types, other algorithms and encodings, truncations, byte edits of the DER and of the text, random data, degenerate armour, two values in one block, a block of another type before the right one; text, bytes and Must readers are compared with each other and with the original; damage that happens to leave a readable value must read as exactly that value; non-trivial each, distinct by the text")
	vk.Cases("read", vk.N(60000, 3000000), func(c *vk.Case) {
		f := forms[c.Intn(3)]
		var der []byte
		var orig interface{}
		switch f.typ {
		case keys.PrivType:
			k := keys.Private[c.Intn(len(keys.Private))]
			der, orig = x509.MarshalPKCS1PrivateKey(k), k
		case keys.PubType:
			k := keys.Private[c.Intn(len(keys.Private))]
			der, orig = keys.PubDER(&k.PublicKey), &k.PublicKey
		default:
			k := keys.Certs[c.Intn(len(keys.Certs))]
			der, orig = k.Raw, k
		}
		var s, what string
		good, sure, bare := false, true, false
		switch c.Intn(4) {
		case 0:
			s, what = keys.Armoured(c.Rand, f.typ, der)
			good = true
		case 1:
			s, what = keys.Bare(c.Rand, der)
			good, bare = true, true
		default:
			s, what, sure = keys.Bad(c.Rand, f.typ, der)
		}
		bad := func(sig, f2 string, a ...interface{}) {
			c.Violate(sig+" ("+f.name+")", map[string]string{"input": fmt.Sprintf("%.2000q", s), "kind": what, "what": fmt.Sprintf(f2, a...)})
		}
		type res struct {
			v     interface{}
			err   error
			panic interface{}
			p     bool
		}
		run := func(g func() (interface{}, error)) (r res) {
			r.panic, r.p = vk.Catch(func() { r.v, r.err = g() })
			return r
		}
		in := []byte(s)
		rs := []res{run(func() (interface{}, error) { return f.text(s) }), run(func() (interface{}, error) { return f.bytes(in) })}
		if string(in) != s {
			bad("the input bytes were changed", "")
		}
		for i, r := range rs {
			name := []string{"text reader", "bytes reader"}[i]
			switch {
			case r.p:
				bad("a reader panics", "%s: %v", name, r.panic)
				return
			case r.err != nil && !isNil(r.v):
				bad("an error comes with a result", "%s: %v %v", name, r.err, r.v)
			case r.err == nil && isNil(r.v):
				bad("no error and no result", "%s", name)
				return
			case good && r.err != nil && !(bare && i == 1):
				bad("a valid input is refused", "%s: %v", name, r.err)
			case good && r.err == nil && !equal(orig, r.v):
				bad("another key or certificate was read", "%s", name)
			case bare && i == 1 && r.err == nil:
				// bytes without armour: nothing promised but the value
			case !good && sure && r.err == nil:
				bad("an unreadable input was read", "%s: %v", name, r.v)
			case !good && r.err == nil:
				found := false
				for _, d := range within(s) {
					if k := f.parse(d); k != nil && equal(k, r.v) {
						found = true
					}
				}
				if !found {
					bad("a damaged input was read as something it does not hold", "%s", name)
				}
			}
		}
		var ms []res
		if f.mustText != nil {
			ms = append(ms, run(func() (interface{}, error) { return f.mustText(s), nil }))
		} else {
			ms = append(ms, rs[0])
			ms[0].p = rs[0].err != nil
		}
		ms = append(ms, run(func() (interface{}, error) { return f.mustBytes(in), nil }))
		for i, m := range ms {
			if m.p != (rs[i].err != nil) {
				bad("a Must reader does not go with the plain one", "panic %v, error %v", m.panic, rs[i].err)
			} else if !m.p && !equal(m.v, rs[i].v) {
				bad("a Must reader returns something else", "")
			}
		}
		switch {
		case good:
			vk.Count("valid inputs", 1)
		case rs[0].err == nil:
			vk.Count("damaged but readable", 1)
		default:
			vk.Count("refused inputs", 1)
		}
		c.Sample(map[string]string{"form": f.name, "kind": what})
		c.Observed(s)
	})
}

func TestExtract(t *testing.T) {
	vk.Rule("extract: the public PEM extracted from every private key, also from one read back through the library, reads as the public part in all ways; non-trivial each")
	vk.Cases("extract", vk.N(200, 2000), func(c *vk.Case) {
		k := keys.Private[c.Index%len(keys.Private)]
		if c.Intn(2) == 0 {
			s, _ := keys.Bare(c.Rand, x509.MarshalPKCS1PrivateKey(k))
			k = rsautil.MustReadPrivateKey(s)
		}
		s, err := rsautil.ExtractPublicKeyPem(k)
		if err != nil {
			c.Violate("the public key cannot be extracted", err.Error())
			return
		}
		b, rest := pem.Decode([]byte(s))
		if b == nil || b.Type != keys.PubType || len(bytes.TrimSpace(rest)) > 0 {
			c.Violate("the extracted text is not one public key PEM", s)
			return
		}
		if pub, err := x509.ParsePKIXPublicKey(b.Bytes); err != nil || !k.PublicKey.Equal(pub) {
			c.Violate("the extracted public key is another one", s)
		}
		p1, err1 := rsautil.ReadPublicKey(s)
		p2, err2 := rsautil.ReadPublicKeyBytes([]byte(s))
		p3, err3 := rsautil.ReadPublicKey(base64.StdEncoding.EncodeToString(b.Bytes))
		if err1 != nil || err2 != nil || err3 != nil || !p1.Equal(&k.PublicKey) || !p2.Equal(&k.PublicKey) || !p3.Equal(&k.PublicKey) {
			c.Violate("the extracted public key does not read back", s)
		}
		c.Observed(s + fmt.Sprint(c.Index))
	})
}
