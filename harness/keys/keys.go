// Package keys is a pool of keys and certificates and of ways to write and to
// damage them.  The data files were generated once and are fixtures.
package keys

import (
	"crypto/rsa"
	"crypto/x509"
	"embed"
	"encoding/base64"
	"encoding/pem"
	"math/rand"
	"sort"
	"strings"
)

//go:embed data
var data embed.FS

// Blob is one DER value with the PEM type it belongs to.
type Blob struct {
	Name, Type string
	DER        []byte
}

var (
	Private []*rsa.PrivateKey
	Certs   []*x509.Certificate
	Foreign []Blob // keys of other algorithms or encodings
)

const (
	PrivType = "RSA PRIVATE KEY"
	PubType  = "PUBLIC KEY"
	CertType = "CERTIFICATE"
)

func init() {
	es, err := data.ReadDir("data")
	if err != nil {
		panic(err)
	}
	sort.Slice(es, func(i, j int) bool { return es[i].Name() < es[j].Name() })
	for _, e := range es {
		b, _ := data.ReadFile("data/" + e.Name())
		blk, _ := pem.Decode(b)
		switch {
		case strings.HasSuffix(e.Name(), ".crt"):
			c, err := x509.ParseCertificate(blk.Bytes)
			if err != nil {
				panic(err)
			}
			Certs = append(Certs, c)
		case strings.HasPrefix(e.Name(), "rsa"):
			k, err := x509.ParsePKCS1PrivateKey(blk.Bytes)
			if err != nil {
				panic(err)
			}
			Private = append(Private, k)
		default:
			Foreign = append(Foreign, Blob{e.Name(), blk.Type, blk.Bytes})
		}
	}
	k := Private[0]
	p8, _ := x509.MarshalPKCS8PrivateKey(k)
	Foreign = append(Foreign, Blob{"rsa pkcs8", "PRIVATE KEY", p8},
		Blob{"rsa pkcs1 public", "RSA PUBLIC KEY", x509.MarshalPKCS1PublicKey(&k.PublicKey)})
}

// PubDER is the PKIX form of a public key.
func PubDER(k *rsa.PublicKey) []byte {
	b, err := x509.MarshalPKIXPublicKey(k)
	if err != nil {
		panic(err)
	}
	return b
}

// Pem is the canonical armoured form.
func Pem(typ string, der []byte) string {
	return string(pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: der}))
}

func wrap(s string, n int, nl string) string {
	var sb strings.Builder
	for len(s) > n {
		sb.WriteString(s[:n] + nl)
		s = s[n:]
	}
	return sb.String() + s + nl
}

// Armoured renders der in one of the valid PEM forms.
func Armoured(r *rand.Rand, typ string, der []byte) (string, string) {
	p := Pem(typ, der)
	switch r.Intn(8) {
	case 6:
		// as in a chain or in a file holding key and certificate
		o := Private[r.Intn(len(Private))]
		return p + Pem([]string{typ, PrivType}[r.Intn(2)], x509.MarshalPKCS1PrivateKey(o)), "pem before another block"
	case 0:
		return strings.TrimSpace(p), "pem without final newline"
	case 1:
		return strings.ReplaceAll(p, "\n", "\r\n"), "pem crlf"
	case 2:
		return "subject: something\nsome text\n" + p, "pem after text"
	case 3:
		return p + "trailing text\n", "pem before text"
	case 4:
		return string(pem.EncodeToMemory(&pem.Block{Type: typ, Headers: map[string]string{"Key-Name": "x y", "Other": "v"}, Bytes: der})), "pem with headers"
	case 5:
		b := base64.StdEncoding.EncodeToString(der)
		return "-----BEGIN " + typ + "-----\n" + b + "\n-----END " + typ + "-----\n", "pem in one line"
	}
	return p, "pem"
}

// Bare renders der as base64 without armour.
func Bare(r *rand.Rand, der []byte) (string, string) {
	b := base64.StdEncoding.EncodeToString(der)
	switch r.Intn(5) {
	case 0:
		return wrap(b, 64, "\n"), "base64 wrapped"
	case 1:
		return wrap(b, 76, "\r\n"), "base64 wrapped crlf"
	case 2:
		return b + "\n", "base64 with newline"
	}
	return b, "base64"
}

// Bad makes a text that must not be readable as typ, and tells why. When sure
// is false the damage may by chance have left another readable value.
func Bad(r *rand.Rand, typ string, der []byte) (text, why string, sure bool) {
	write := func(typ string, der []byte) string {
		if r.Intn(3) == 0 {
			t, _ := Bare(r, der)
			return t
		}
		t, _ := Armoured(r, typ, der)
		return t
	}
	switch r.Intn(15) {
	case 12:
		// in the armour that goes with it
		f := Foreign[r.Intn(len(Foreign))]
		s, _ := Armoured(r, f.Type, f.DER)
		return s, "other algorithm or encoding, in its own armour: " + f.Name, f.Type != typ || f.Type == PubType
	case 13:
		// two values in one block
		return write(typ, append(append([]byte(nil), der...), der...)), "two values in one", true
	case 14:
		// the first block decides
		f := Foreign[r.Intn(len(Foreign))]
		if f.Type == typ {
			f.Type = "OTHER"
		}
		return Pem(f.Type, f.DER) + Pem(typ, der), "another block first", true
	case 0:
		types := []string{PrivType, PubType, CertType, "PRIVATE KEY", "RSA PUBLIC KEY", "EC PRIVATE KEY", "X509 CERTIFICATE", "ENCRYPTED PRIVATE KEY", "rsa private key", ""}
		t := types[r.Intn(len(types))]
		if t == typ {
			t = "x"
		}
		s, _ := Armoured(r, t, der)
		return s, "pem type " + t, true
	case 1, 2:
		f := Foreign[r.Intn(len(Foreign))]
		return write(typ, f.DER), "other algorithm or encoding: " + f.Name, true
	case 3:
		n := r.Intn(len(der))
		return write(typ, der[:n]), "truncated der", true
	case 4:
		s := write(typ, der)
		n := r.Intn(len(s))
		return s[:n], "truncated text", false
	case 5:
		d := append([]byte(nil), der...)
		for k := 1 + r.Intn(4); k > 0; k-- {
			d[r.Intn(len(d))] ^= byte(1 + r.Intn(255))
		}
		return write(typ, d), "corrupted der", false
	case 6:
		s := []byte(write(typ, der))
		for k := 1 + r.Intn(4); k > 0; k-- {
			s[r.Intn(len(s))] = "!\x00-\n =AB"[r.Intn(8)]
		}
		return string(s), "corrupted text", false
	case 7:
		b := make([]byte, r.Intn(200))
		r.Read(b)
		return string(b), "random bytes", true
	case 8:
		b := make([]byte, r.Intn(200))
		r.Read(b)
		return write(typ, b), "random der", true
	case 9:
		s := Pem(typ, der)
		if r.Intn(2) == 0 {
			return strings.Replace(s, "-----BEGIN", "-----BEGN", 1), "broken armour", true
		}
		return strings.Replace(s, "-----END", "-----ND", 1), "broken armour", true
	case 10:
		all := []string{"-----BEGIN " + typ + "-----", "-----BEGIN " + typ + "-----\n-----END " + typ + "-----", "-----BEGIN -----END", "-----END-----BEGIN", "-----BEGIN " + typ + "-----\n\n-----END " + typ + "-----\n", " ", "\n", "key", "-----", strings.Repeat("A", r.Intn(100)), "====", "\x00"}
		return all[r.Intn(len(all))], "degenerate", true
	}
	other := map[string][]byte{PrivType: PubDER(&Private[0].PublicKey), PubType: x509.MarshalPKCS1PrivateKey(Private[0]), CertType: PubDER(&Private[0].PublicKey)}
	return write(typ, other[typ]), "another structure", true
}
