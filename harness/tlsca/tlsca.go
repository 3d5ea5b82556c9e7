// Package tlsca issues certificates for loopback TLS servers and clients.
package tlsca

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"net"
	"sync/atomic"
	"time"
)

var serial int64 = 1000

// CA can issue certificates; Parent is nil for roots.
type CA struct {
	Cert   *x509.Certificate
	Key    crypto.Signer
	Parent *CA
}

// Opts of a leaf.
type Opts struct {
	Name      string
	DNS       []string
	IPs       []net.IP
	NotBefore time.Time
	NotAfter  time.Time
	Client    bool
	Server    bool
	RSA       *rsa.PrivateKey // nil: a fresh ECDSA key
}

func next() *big.Int { return big.NewInt(atomic.AddInt64(&serial, 1)) }

func newKey(k *rsa.PrivateKey) crypto.Signer {
	if k != nil {
		return k
	}
	e, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	return e
}

// NewCA makes a root, or an intermediate when parent is given.
func NewCA(name string, parent *CA) *CA {
	k := newKey(nil)
	t := &x509.Certificate{SerialNumber: next(), Subject: pkix.Name{CommonName: name, Organization: []string{"verif"}}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(240 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageCRLSign}
	pc, pk := t, k
	if parent != nil {
		pc, pk = parent.Cert, parent.Key
	}
	der, err := x509.CreateCertificate(rand.Reader, t, pc, k.Public(), pk)
	if err != nil {
		panic(err)
	}
	c, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return &CA{Cert: c, Key: k, Parent: parent}
}

// Issue makes a leaf; a nil CA makes it self-signed. The chain holds the
// intermediates.
func Issue(ca *CA, o Opts) tls.Certificate {
	k := newKey(nil)
	if o.RSA != nil {
		k = o.RSA
	}
	if o.NotBefore.IsZero() {
		o.NotBefore = time.Now().Add(-time.Hour)
	}
	if o.NotAfter.IsZero() {
		o.NotAfter = time.Now().Add(240 * time.Hour)
	}
	t := &x509.Certificate{SerialNumber: next(), Subject: pkix.Name{CommonName: o.Name}, NotBefore: o.NotBefore, NotAfter: o.NotAfter, DNSNames: o.DNS, IPAddresses: o.IPs,
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageKeyEncipherment}
	if o.Server {
		t.ExtKeyUsage = append(t.ExtKeyUsage, x509.ExtKeyUsageServerAuth)
	}
	if o.Client {
		t.ExtKeyUsage = append(t.ExtKeyUsage, x509.ExtKeyUsageClientAuth)
	}
	pc, pk := t, k
	if ca != nil {
		pc, pk = ca.Cert, ca.Key
	} else {
		t.IsCA, t.BasicConstraintsValid, t.KeyUsage = true, true, t.KeyUsage|x509.KeyUsageCertSign
	}
	der, err := x509.CreateCertificate(rand.Reader, t, pc, k.Public(), pk)
	if err != nil {
		panic(err)
	}
	leaf, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	out := tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k, Leaf: leaf}
	for x := ca; x != nil && x.Parent != nil; x = x.Parent {
		out.Certificate = append(out.Certificate, x.Cert.Raw)
	}
	return out
}

// CertPEM writes certificates as PEM text.
func CertPEM(ders ...[]byte) []byte {
	var b []byte
	for _, d := range ders {
		b = append(b, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: d})...)
	}
	return b
}

// KeyPEM writes a private key as PKCS#8 PEM text.
func KeyPEM(k crypto.PrivateKey) []byte {
	der, err := x509.MarshalPKCS8PrivateKey(k)
	if err != nil {
		panic(err)
	}
	return pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: der})
}
