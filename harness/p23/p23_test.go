// Monitor of P23: TLS handshakes, client certificates and limits of the
// configured fasthttp client, observed at loopback servers.
package p23

import (
	"bufio"
	"crypto/ecdsa"
	"crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/chanjarster/gears/confs"
	"github.com/chanjarster/gears/simplelog"
	"github.com/valyala/fasthttp"
	"verif/harness/keys"
	"verif/harness/tlsca"
	"verif/harness/vk"
)

type fatal struct{ text string }

// fataler turns ErrLogger.Fatal into a panic that can be caught.
type fataler struct{}

func (fataler) Write(b []byte) (int, error) { panic(fatal{string(b)}) }

var (
	dir     string
	hostCA  *tlsca.CA
	anchors = map[string][]byte{} // certificates that may stand in trust files, by name
	names   []string
	servers []identity
	clients []pair
	cliPool *x509.CertPool
)

// identity is a server certificate; trustedBy names the certificates any of
// which makes it trustworthy when trusted (nil: it never is).
type identity struct {
	name      string
	cert      tls.Certificate
	trustedBy []string
	hosts     string // "ip", "dns", "ip dns"
}

// pair is a client key pair in files.
type pair struct {
	name        string
	chain, key  string
	ders        [][]byte
	right, good bool // issued under the CA servers name; and acceptable to them
}

func TestMain(m *testing.M) {
	d, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "p23")
	if err != nil {
		panic(err)
	}
	dir = d
	setup()
	vk.Main(m, "P23")
}

func put(name string, b []byte) string {
	p := filepath.Join(dir, name)
	if err := os.WriteFile(p, b, 0o600); err != nil {
		panic(err)
	}
	return p
}

func setup() {
	hostCA = tlsca.NewCA("host root", nil)
	os.Setenv("SSL_CERT_FILE", put("hostroots.pem", tlsca.CertPEM(hostCA.Cert.Raw)))
	empty := filepath.Join(dir, "nocerts")
	os.Mkdir(empty, 0o700)
	os.Setenv("SSL_CERT_DIR", empty)
	rootA, rootB, twin := tlsca.NewCA("root A", nil), tlsca.NewCA("root B", nil), tlsca.NewCA("root A", nil)
	interA := tlsca.NewCA("inter A", rootA)
	deepA := tlsca.NewCA("deep A", interA)
	cas := map[string]*tlsca.CA{"host": hostCA, "rootA": rootA, "rootB": rootB, "twinA": twin, "interA": interA, "deepA": deepA}
	for n, ca := range cas {
		anchors[n] = ca.Cert.Raw
	}
	past, future := time.Now().Add(-30*time.Minute), time.Now().Add(24*time.Hour)
	ips := []net.IP{net.IPv4(127, 0, 0, 1)}
	add := func(name, hosts string, ca *tlsca.CA, by []string, o tlsca.Opts) {
		if strings.Contains(hosts, "ip") {
			o.IPs = ips
		}
		if strings.Contains(hosts, "dns") {
			o.DNS = []string{"svc.test"}
		}
		if hosts == "" {
			o.DNS = []string{"elsewhere.test"}
		}
		o.Name = name
		if name != "clientonly" {
			o.Server = true
		}
		c := tlsca.Issue(ca, o)
		if by != nil {
			by = append(by, name)
		}
		anchors[name] = c.Certificate[0]
		servers = append(servers, identity{name, c, by, hosts})
	}
	add("byA", "ip dns", rootA, []string{"rootA"}, tlsca.Opts{})
	add("byA-ip", "ip", rootA, []string{"rootA"}, tlsca.Opts{})
	add("byA-dns", "dns", rootA, []string{"rootA"}, tlsca.Opts{})
	add("byA-elsewhere", "", rootA, []string{"rootA"}, tlsca.Opts{})
	add("byA-rsa", "ip dns", rootA, []string{"rootA"}, tlsca.Opts{RSA: rsaKey(0)})
	add("byInterA", "ip dns", interA, []string{"rootA", "interA"}, tlsca.Opts{})
	add("byDeepA", "ip dns", deepA, []string{"rootA", "interA", "deepA"}, tlsca.Opts{})
	add("byInterA-alone", "ip dns", interA, []string{"interA"}, tlsca.Opts{})
	s := &servers[len(servers)-1]
	s.cert.Certificate = s.cert.Certificate[:1]
	add("byB", "ip dns", rootB, []string{"rootB"}, tlsca.Opts{})
	add("byTwin", "ip dns", twin, []string{"twinA"}, tlsca.Opts{})
	add("byHost", "ip dns", hostCA, []string{"host"}, tlsca.Opts{})
	add("byHost-elsewhere", "", hostCA, []string{"host"}, tlsca.Opts{})
	add("byHost-expired", "ip dns", hostCA, nil, tlsca.Opts{NotAfter: past})
	add("expired", "ip dns", rootA, nil, tlsca.Opts{NotAfter: past})
	add("notyet", "ip dns", rootA, nil, tlsca.Opts{NotBefore: future})
	add("clientonly", "ip dns", rootA, nil, tlsca.Opts{Client: true})
	add("selfsigned", "ip dns", nil, []string{}, tlsca.Opts{})
	add("selfsigned2", "ip dns", nil, []string{}, tlsca.Opts{})
	add("selfsigned-expired", "ip dns", nil, nil, tlsca.Opts{NotAfter: past})
	for n := range anchors {
		names = append(names, n)
	}
	sort.Strings(names)

	cliRoot := tlsca.NewCA("client root", nil)
	cliInter := tlsca.NewCA("client inter", cliRoot)
	cliOther := tlsca.NewCA("other client root", nil)
	cliPool = x509.NewCertPool()
	cliPool.AddCert(cliRoot.Cert)
	addc := func(name string, ca *tlsca.CA, o tlsca.Opts, form string, right, good bool) {
		o.Name, o.Client = name, true
		c := tlsca.Issue(ca, o)
		var k []byte
		switch form {
		case "pkcs1":
			k = pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(c.PrivateKey.(*rsa.PrivateKey))})
		case "sec1":
			b, err := x509.MarshalECPrivateKey(c.PrivateKey.(*ecdsa.PrivateKey))
			if err != nil {
				panic(err)
			}
			k = pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: b})
		default:
			k = tlsca.KeyPEM(c.PrivateKey)
		}
		clients = append(clients, pair{name, put("cli "+name+".pem", tlsca.CertPEM(c.Certificate...)), put("cli "+name+".key", k), c.Certificate, right, good})
	}
	addc("pkcs1", cliRoot, tlsca.Opts{RSA: rsaKey(1)}, "pkcs1", true, true)
	addc("pkcs8-rsa", cliRoot, tlsca.Opts{RSA: rsaKey(2)}, "pkcs8", true, true)
	addc("ec", cliRoot, tlsca.Opts{}, "sec1", true, true)
	addc("viaInter", cliInter, tlsca.Opts{}, "pkcs8", true, true)
	addc("expired", cliRoot, tlsca.Opts{NotAfter: past}, "pkcs8", true, false)
	addc("other", cliOther, tlsca.Opts{}, "pkcs8", false, false)
	addc("selfsigned", nil, tlsca.Opts{}, "pkcs8", false, false)
}

var modes = []string{"OS", "", "INSECURE", "CUSTOM", "CUSTOM", "CUSTOM", "INSECURE", "insecure", "custom", "NONE"}

// client is a client under test with what it is expected to trust.
type client struct {
	desc     string
	conf     confs.FastHttpClientConf
	any      bool            // trusts everything
	trust    map[string]bool // names trusted
	unsure   bool            // CUSTOM without files: nothing, or the host roots
	pair     *pair
	c        *fasthttp.Client
	override bool
}

func (k *client) trusts(s *identity, host string) (yes, known bool) {
	if k.any {
		return true, true
	}
	if s.trustedBy == nil {
		return false, true
	}
	h := "ip"
	if host == "svc.test" {
		h = "dns"
	}
	if !strings.Contains(s.hosts, h) {
		return false, true
	}
	for _, n := range s.trustedBy {
		if k.trust[n] {
			return true, !k.unsure
		}
	}
	return false, true
}

var fileSeq int64

// trustFiles writes 1..4 files of 1..3 certificates each.
func trustFiles(c *vk.Case, prefer []string) (string, map[string]bool) {
	t := map[string]bool{}
	var files []string
	for i, n := 0, 1+c.Intn(4); i < n; i++ {
		var b []byte
		for j, m := 0, 1+c.Intn(3); j < m; j++ {
			a := names[c.Intn(len(names))]
			if c.Intn(3) == 0 {
				a = prefer[c.Intn(len(prefer))]
			}
			t[a] = true
			if c.Intn(4) == 0 {
				b = append(b, "# "+a+"\n\n"...)
			}
			b = append(b, tlsca.CertPEM(anchors[a])...)
		}
		files = append(files, put(fmt.Sprintf("trust %d.pem", atomic.AddInt64(&fileSeq, 1)), b))
	}
	return strings.Join(files, ","), t
}

func newClient(c *vk.Case, prefer []string) *client {
	k := &client{trust: map[string]bool{"host": true}}
	k.conf = confs.FastHttpClientConf{ReadTimeout: 30 * time.Second, WriteTimeout: 30 * time.Second, SslTrustMode: modes[c.Intn(len(modes))]}
	var t map[string]bool
	if c.Intn(5) != 0 {
		k.conf.SslTrustCerts, t = trustFiles(c, prefer)
	}
	switch k.conf.SslTrustMode {
	case "INSECURE":
		k.any = true
	case "CUSTOM":
		if t != nil {
			k.trust = t
		} else {
			k.unsure = true
		}
	}
	if c.Intn(2) == 0 {
		k.pair = &clients[c.Intn(len(clients))]
		k.conf.CertChain, k.conf.PrivateKey = k.pair.chain, k.pair.key
	}
	tr := []string{}
	for n := range k.trust {
		tr = append(tr, n)
	}
	sort.Strings(tr)
	k.desc = fmt.Sprintf("mode %q trusting %v", k.conf.SslTrustMode, tr)
	if k.any {
		k.desc = fmt.Sprintf("mode %q", k.conf.SslTrustMode)
	}
	if k.pair != nil {
		k.desc += " with client pair " + k.pair.name
	}
	var custom confs.FastHttpClientCustomizer
	calls := 0
	ours := k.conf
	switch c.Intn(3) {
	case 0:
	case 1:
		custom = func(h *fasthttp.Client) {
			calls++
			if h.ReadTimeout != ours.ReadTimeout || h.WriteTimeout != ours.WriteTimeout {
				c.Violate("the customizer got a client without the configured values", k.desc)
			}
			h.Dial = dial
		}
	default:
		if c.Intn(3) == 0 { // the customizer replaces the TLS configuration
			a := names[c.Intn(len(names))]
			x, err := x509.ParseCertificate(anchors[a])
			if err != nil {
				panic(err)
			}
			pool := x509.NewCertPool()
			pool.AddCert(x)
			k.any, k.trust, k.unsure, k.pair, k.override = false, map[string]bool{a: true}, false, nil, true
			k.desc += ", customizer makes it trust only " + a
			custom = func(h *fasthttp.Client) { calls++; h.TLSConfig = &tls.Config{RootCAs: pool}; h.Dial = dial }
		}
	}
	k.c = confs.NewFastHttpClient(&k.conf, custom)
	if custom != nil && calls != 1 {
		c.Violate(fmt.Sprintf("the customizer was called %d times", calls), k.desc)
	}
	if k.conf != ours {
		c.Violate("building the client changed the configuration", k.desc)
	}
	return k
}

// dial lets svc.test name the loopback interface.
func dial(addr string) (net.Conn, error) {
	return net.Dial("tcp", strings.Replace(addr, "svc.test", "127.0.0.1", 1))
}

type server struct {
	id    *identity
	auth  tls.ClientAuthType
	ln    net.Listener
	srv   *http.Server
	mu    sync.Mutex
	peers map[string][][]byte // by path
	body  string
}

func serve(c *vk.Case, id *identity) *server {
	s := &server{id: id, auth: tls.ClientAuthType(c.Intn(5)), peers: map[string][][]byte{}, body: fmt.Sprint("hello ", c.Int63())}
	conf := &tls.Config{Certificates: []tls.Certificate{id.cert}, ClientAuth: s.auth}
	if c.Intn(2) == 0 {
		conf.MaxVersion = tls.VersionTLS12
	}
	if s.auth >= tls.VerifyClientCertIfGiven {
		conf.ClientCAs = cliPool
	}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s.ln = tls.NewListener(ln, conf)
	s.srv = &http.Server{ErrorLog: log.New(io.Discard, "", 0), Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var ders [][]byte
		for _, p := range r.TLS.PeerCertificates {
			ders = append(ders, p.Raw)
		}
		if ders == nil {
			ders = [][]byte{}
		}
		s.mu.Lock()
		s.peers[r.URL.Path] = ders
		s.mu.Unlock()
		io.WriteString(w, s.body)
	})}
	go s.srv.Serve(s.ln)
	return s
}

// outcome the model gives: ok, and the certificates the server sees.
func outcome(k *client, s *server, host string) (ok, known bool, peers [][]byte, why string) {
	t, known := k.trusts(s.id, host)
	if !t {
		return false, known, nil, "server not trusted"
	}
	present := k.pair != nil && s.auth != tls.NoClientCert && (s.auth < tls.VerifyClientCertIfGiven || k.pair.right)
	if present {
		peers = k.pair.ders
	}
	switch s.auth {
	case tls.RequireAnyClientCert:
		if !present {
			return false, known, nil, "server demands a client certificate"
		}
	case tls.RequireAndVerifyClientCert:
		if !present || !k.pair.good {
			return false, known, nil, "server demands a valid client certificate"
		}
	case tls.VerifyClientCertIfGiven:
		if present && !k.pair.good {
			return false, known, nil, "server refuses the client certificate"
		}
	}
	return true, known, peers, ""
}

func TestHandshakes(t *testing.T) {
	vk.Rule("real handshakes: 1..3 clients of random configurations against 1..3 loopback TLS servers each, sequentially or at once")
	simplelog.ErrLogger.SetOutput(fataler{})
	vk.Cases("tls", vk.N(2000, 40000), func(c *vk.Case) {
		var ss []*server
		var prefer []string
		for i, n := 0, 1+c.Intn(3); i < n; i++ {
			id := &servers[c.Intn(len(servers))]
			if c.Intn(5) == 0 {
				id = &servers[10] // byHost
			}
			s := serve(c, id)
			ss = append(ss, s)
			prefer = append(prefer, s.id.name)
			prefer = append(prefer, s.id.trustedBy...)
		}
		var ks []*client
		for i, n := 0, 1+c.Intn(3); i < n; i++ {
			var k *client
			if p, bad := vk.Catch(func() { k = newClient(c, prefer) }); bad {
				c.Violate("building a client from a valid configuration failed", fmt.Sprint(p))
				continue
			}
			ks = append(ks, k)
		}
		par := c.Intn(2) == 0
		var wg sync.WaitGroup
		seq := 0
		for round, rounds := 0, 1+c.Intn(2); round < rounds; round++ {
			for _, k := range ks {
				for _, s := range ss {
					host := "127.0.0.1"
					if k.c.Dial != nil && c.Intn(2) == 0 {
						host = "svc.test"
					}
					seq++
					path := "/" + strconv.Itoa(seq)
					k, s := k, s
					f := func() { probe(c, k, s, host, path) }
					if par {
						wg.Add(1)
						go func() { defer wg.Done(); f() }()
					} else {
						f()
					}
				}
			}
		}
		wg.Wait()
		for _, k := range ks {
			k.c.CloseIdleConnections()
		}
		for _, s := range ss {
			s.srv.Close()
		}
	})
}

func probe(c *vk.Case, k *client, s *server, host, path string) {
	port := s.ln.Addr().(*net.TCPAddr).Port
	code, body, err := k.c.Get(nil, fmt.Sprintf("https://%s:%d%s", host, port, path))
	vk.Tick()
	vk.Count("requests", 1)
	s.mu.Lock()
	peers, seen := s.peers[path]
	s.mu.Unlock()
	want, known, wantPeers, why := outcome(k, s, host)
	desc := map[string]interface{}{"client": k.desc, "server certificate": s.id.name, "server": s.auth.String(), "host": host, "error": fmt.Sprint(err)}
	got := err == nil
	if known && got != want {
		if got {
			c.Violate("a connection was made that must be refused ("+why+")", desc)
		} else {
			c.Violate("a connection was refused that must be made", desc)
		}
		return
	}
	if !known {
		c.Observed("unsure")
		return
	}
	if !got && seen {
		c.Violate("a refused server received the request", desc)
	}
	if got {
		if code != 200 || string(body) != s.body {
			c.Violate("a wrong response came back", desc)
		}
		same := len(peers) == len(wantPeers)
		for i := 0; same && i < len(peers); i++ {
			same = string(peers[i]) == string(wantPeers[i])
		}
		if !same {
			desc["presented"], desc["expected"] = len(peers), len(wantPeers)
			c.Violate("the client presented another certificate chain than the configured one", desc)
		}
	}
	mode := k.conf.SslTrustMode
	if k.override {
		mode = "customized"
	}
	pn := "none"
	if k.pair != nil {
		pn = k.pair.name
	}
	vk.Count(fmt.Sprintf("mode %q accepted=%v", mode, got), 1)
	c.Observed(fmt.Sprint(mode, s.id.name, s.auth, host, pn, got, len(peers)))
	c.Sample(desc)
}

// TestBad: files that cannot be used end construction, so they neither widen
// what is trusted nor are dropped silently.
func TestBad(t *testing.T) {
	vk.Rule("unusable trust files, unusable or incomplete key pairs: construction fails")
	simplelog.ErrLogger.SetOutput(fataler{})
	vk.Cases("bad", vk.N(400, 6000), func(c *vk.Case) {
		s := serve(c, &servers[c.Intn(len(servers))])
		defer s.srv.Close()
		k := &client{trust: map[string]bool{}}
		k.conf = confs.FastHttpClientConf{ReadTimeout: 30 * time.Second, SslTrustMode: "CUSTOM"}
		if c.Intn(2) == 0 {
			k.conf.SslTrustCerts, k.trust = trustFiles(c, names)
			k.conf.SslTrustCerts += ","
		}
		kind := c.Intn(8)
		pairBad := false
		switch kind {
		case 0:
			k.conf.SslTrustCerts += filepath.Join(dir, "missing.pem")
		case 1:
			k.conf.SslTrustCerts += put(fmt.Sprintf("bad %d.pem", c.Index), []byte("-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n"))
		case 2:
			k.conf.SslTrustCerts += put(fmt.Sprintf("bad %d.pem", c.Index), nil)
		case 3:
			k.conf.SslTrustCerts += dir
		default:
			pairBad = true
			k.conf.SslTrustMode, k.any = "INSECURE", true
			a, b := c.Intn(len(clients)), c.Intn(len(clients)-1)
			if b >= a {
				b++
			}
			k.conf.CertChain, k.conf.PrivateKey = clients[a].chain, clients[b].key
			switch kind {
			case 5:
				k.conf.PrivateKey = filepath.Join(dir, "missing.key")
			case 6:
				k.conf.PrivateKey = ""
			case 7:
				k.conf.CertChain = ""
			}
		}
		var cl *fasthttp.Client
		_, refused := vk.Catch(func() { cl = confs.NewFastHttpClient(&k.conf, nil) })
		c.Observed(fmt.Sprint("bad", kind, refused))
		if refused {
			return
		}
		if pairBad {
			c.Violate("a key pair that cannot be used was dropped silently", fmt.Sprint(kind))
			return
		}
		c.Violate("a trust file that cannot be used was ignored silently", fmt.Sprint(kind))
		_, _, err := cl.Get(nil, "https://"+s.ln.Addr().String()+"/")
		if ok, _ := k.trusts(s.id, "127.0.0.1"); err == nil && !ok {
			c.Violate("unusable trust files made the client trust more", fmt.Sprint(kind, " ", s.id.name))
		}
		cl.CloseIdleConnections()
	})
}

// TestFields: every value reaches the client and the customizer wins.
func TestFields(t *testing.T) {
	vk.Rule("timeouts and limits of the built client, as the customizer sees them and as returned")
	vk.Cases("fields", vk.N(6000, 100000), func(c *vk.Case) {
		d := func() time.Duration {
			switch c.Intn(4) {
			case 0:
				return 0
			case 1:
				return time.Duration(c.Int63n(int64(time.Hour)))
			}
			return time.Duration(1+c.Intn(1000)) * time.Millisecond
		}
		f := confs.FastHttpClientConf{ReadTimeout: d(), WriteTimeout: d(), MaxConnDuration: d(), MaxConnsPerHost: c.Intn(1000), MaxIdleConnDuration: d(), MaxConnWaitTimeout: d(), SslTrustMode: modes[c.Intn(len(modes))]}
		if c.Intn(4) == 0 {
			p := clients[c.Intn(len(clients))]
			f.CertChain, f.PrivateKey = p.chain, p.key
		}
		get := func(h *fasthttp.Client) confs.FastHttpClientConf {
			return confs.FastHttpClientConf{ReadTimeout: h.ReadTimeout, WriteTimeout: h.WriteTimeout, MaxConnDuration: h.MaxConnDuration, MaxConnsPerHost: h.MaxConnsPerHost, MaxIdleConnDuration: h.MaxIdleConnDuration, MaxConnWaitTimeout: h.MaxConnWaitTimeout}
		}
		want := f
		want.SslTrustMode, want.CertChain, want.PrivateKey = "", "", ""
		final := want
		var custom confs.FastHttpClientCustomizer
		calls, name := 0, ""
		if c.Intn(3) != 0 {
			custom = func(h *fasthttp.Client) {
				calls++
				if g := get(h); g != want {
					c.Violate("the customizer got a client without the configured values", map[string]string{"configured": want.String(), "client": g.String()})
				}
				for i := 0; i < 3; i++ {
					switch c.Intn(6) {
					case 0:
						h.ReadTimeout = d()
					case 1:
						h.WriteTimeout = d()
					case 2:
						h.MaxConnDuration = d()
					case 3:
						h.MaxConnsPerHost = c.Intn(9)
					case 4:
						h.MaxIdleConnDuration = d()
					case 5:
						h.MaxConnWaitTimeout = d()
					}
				}
				h.Name = fmt.Sprint("n", c.Intn(1000))
				name, final = h.Name, get(h)
			}
		}
		cl := confs.NewFastHttpClient(&f, custom)
		if g := get(cl); g != final {
			c.Violate("the client does not have the configured or customized values", map[string]string{"expected": final.String(), "client": g.String()})
		}
		if custom != nil && (calls != 1 || cl.Name != name) {
			c.Violate("the customizer does not have the last word", calls)
		}
		c.Observed(final.String())
	})
}

// pipes is an in-memory server: every request is answered after delay.
type pipes struct {
	mu           sync.Mutex
	delay        time.Duration // before answering
	hold         time.Duration // before reading a request
	dials, open  int
	maxOpen      int
	closing      []bool // Connection: close of each request
	requestConns []int
}

func (p *pipes) dial(string) (net.Conn, error) {
	a, b := net.Pipe()
	p.mu.Lock()
	p.dials++
	id := p.dials
	p.open++
	if p.open > p.maxOpen {
		p.maxOpen = p.open
	}
	p.mu.Unlock()
	go func() {
		defer b.Close()
		defer func() { p.mu.Lock(); p.open--; p.mu.Unlock() }()
		r := bufio.NewReader(b)
		for {
			if p.hold > 0 {
				time.Sleep(p.hold)
			}
			q, err := http.ReadRequest(r)
			if err != nil {
				return
			}
			if _, err := io.Copy(io.Discard, q.Body); err != nil {
				return
			}
			p.mu.Lock()
			p.closing = append(p.closing, q.Close)
			p.requestConns = append(p.requestConns, id)
			p.mu.Unlock()
			time.Sleep(p.delay)
			if _, err := io.WriteString(b, "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok"); err != nil {
				return
			}
		}
	}()
	return a, nil
}

func post(cl *fasthttp.Client, body []byte) error {
	req, resp := fasthttp.AcquireRequest(), fasthttp.AcquireResponse()
	req.SetRequestURI("http://svc.test/x")
	req.Header.SetMethod("POST")
	req.SetBody(body)
	err := cl.Do(req, resp)
	if err == nil && (resp.StatusCode() != 200 || string(resp.Body()) != "ok") {
		err = errors.New("wrong response")
	}
	fasthttp.ReleaseRequest(req)
	fasthttp.ReleaseResponse(resp)
	return err
}

func ms(c *vk.Case, lo, hi int) time.Duration {
	return time.Duration(lo+c.Intn(hi-lo)) * time.Millisecond
}

// TestLimits: the limits at work, in virtual time.
func TestLimits(t *testing.T) {
	vk.Rule("timeouts and connection limits at work in virtual time: instants of failures, connections opened and reused")
	vk.Cases("limits", vk.N(800, 12000), func(c *vk.Case) {
		runtime.GC() // drops the library's pooled timers of other time bubbles
		runtime.GC()
		synctest.Test(t, func(t *testing.T) {
			p := &pipes{}
			custom := func(h *fasthttp.Client) { h.Dial = p.dial }
			start := time.Now()
			bad := func(sig string, f confs.FastHttpClientConf, err error) {
				c.Violate(sig, map[string]string{"conf": f.String(), "delay": p.delay.String(), "hold": p.hold.String(), "error": fmt.Sprint(err), "after": time.Since(start).String()})
			}
			other := func() time.Duration { // a limit that must play no part
				if c.Intn(2) == 0 {
					return 0
				}
				return time.Hour + ms(c, 0, 1000)
			}
			var cl *fasthttp.Client
			kind := c.Intn(5)
			switch kind {
			case 0: // read timeout
				f := confs.FastHttpClientConf{ReadTimeout: ms(c, 1, 5000), WriteTimeout: other(), MaxConnWaitTimeout: other(), MaxConnDuration: other(), MaxIdleConnDuration: other()}
				p.delay = ms(c, 0, 10000)
				if p.delay == f.ReadTimeout {
					p.delay++
				}
				cl = confs.NewFastHttpClient(&f, custom)
				err := post(cl, []byte("x"))
				took := time.Since(start)
				if p.delay < f.ReadTimeout && (err != nil || took != p.delay) {
					bad("an answer within the read timeout was lost or late", f, err)
				}
				if p.delay > f.ReadTimeout && (err == nil || took != f.ReadTimeout) {
					bad("the read timeout is not the configured one", f, err)
				}
				c.Observed(fmt.Sprint("read", err != nil, f.ReadTimeout/time.Second))
			case 1: // write timeout
				f := confs.FastHttpClientConf{WriteTimeout: ms(c, 1, 5000), ReadTimeout: other(), MaxConnWaitTimeout: other(), MaxConnDuration: other(), MaxIdleConnDuration: other()}
				p.hold = ms(c, 1, 10000)
				if p.hold == f.WriteTimeout {
					p.hold++
				}
				cl = confs.NewFastHttpClient(&f, custom)
				err := post(cl, make([]byte, 1+c.Intn(100000)))
				took := time.Since(start)
				if p.hold < f.WriteTimeout && (err != nil || took != p.hold) {
					bad("a request taken within the write timeout was lost or late", f, err)
				}
				if p.hold > f.WriteTimeout && (err == nil || took != f.WriteTimeout) {
					bad("the write timeout is not the configured one", f, err)
				}
				c.Observed(fmt.Sprint("write", err != nil, f.WriteTimeout/time.Second))
			case 2: // connections per host, and waiting for them
				k, n := 1+c.Intn(5), 1+c.Intn(12)
				f := confs.FastHttpClientConf{MaxConnsPerHost: k, ReadTimeout: other(), WriteTimeout: other()}
				p.delay = ms(c, 10, 1000)
				if c.Intn(3) != 0 {
					f.MaxConnWaitTimeout = p.delay*time.Duration(c.Intn(4)) + p.delay/2
				}
				cl = confs.NewFastHttpClient(&f, custom)
				var mu sync.Mutex
				got := map[string]int{}
				var wg sync.WaitGroup
				for i := 0; i < n; i++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						err := post(cl, []byte("x"))
						mu.Lock()
						got[fmt.Sprint(err == nil, time.Since(start))]++
						mu.Unlock()
					}()
				}
				wg.Wait()
				want := map[string]int{}
				for i := 0; i < n; i++ {
					wave := time.Duration(i / k)
					if wave*p.delay <= f.MaxConnWaitTimeout {
						want[fmt.Sprint(true, (wave+1)*p.delay)]++
					} else {
						want[fmt.Sprint(false, f.MaxConnWaitTimeout)]++
					}
				}
				if fmt.Sprint(got) != fmt.Sprint(want) || p.maxOpen > k {
					c.Violate("the limit of connections or of waiting for one is not the configured one", map[string]string{"conf": f.String(), "delay": p.delay.String(), "requests": fmt.Sprint(n), "ends": fmt.Sprint(got), "expected": fmt.Sprint(want), "open": fmt.Sprint(p.maxOpen)})
				}
				c.Observed(fmt.Sprint("conns", k, n, f.MaxConnWaitTimeout/p.delay))
			case 3: // idle connections
				f := confs.FastHttpClientConf{MaxIdleConnDuration: ms(c, 100, 20000), ReadTimeout: other(), WriteTimeout: other()}
				cl = confs.NewFastHttpClient(&f, custom)
				err := post(cl, []byte("x"))
				long := c.Intn(2) == 0
				if long {
					time.Sleep(3 * f.MaxIdleConnDuration)
				} else {
					time.Sleep(f.MaxIdleConnDuration * 9 / 10)
				}
				if err == nil {
					err = post(cl, []byte("x"))
				}
				if err != nil || long != (p.dials == 2) {
					bad("idle connections are not kept as long as configured", f, err)
				}
				c.Observed(fmt.Sprint("idle", long, f.MaxIdleConnDuration/time.Second))
			default: // life of connections
				f := confs.FastHttpClientConf{MaxConnDuration: ms(c, 100, 20000), MaxIdleConnDuration: time.Hour, ReadTimeout: other(), WriteTimeout: other()}
				cl = confs.NewFastHttpClient(&f, custom)
				n := 1 + c.Intn(6)
				var born time.Time
				for i := 0; i < n; i++ {
					before := p.dials
					at := time.Now()
					if err := post(cl, []byte("x")); err != nil {
						bad("a request failed", f, err)
						break
					}
					if p.dials != before {
						born = at
					}
					old := at.Sub(born) > f.MaxConnDuration
					if p.closing[len(p.closing)-1] != old {
						bad("connections do not live as long as configured", f, nil)
					}
					if d := time.Duration(c.Intn(int(f.MaxConnDuration))); d > 0 {
						time.Sleep(d)
					}
				}
				c.Observed(fmt.Sprint("life", n, p.dials))
			}
			vk.Count("limits "+[]string{"read", "write", "conns", "idle", "life"}[kind], 1)
			cl.CloseIdleConnections()
			time.Sleep(2 * time.Hour)
		})
	})
}

// rsaKey is the i-th stored key of at least 2048 bits.
func rsaKey(i int) *rsa.PrivateKey {
	for _, k := range keys.Private {
		if k.N.BitLen() >= 2048 {
			if i == 0 {
				return k
			}
			i--
		}
	}
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		panic(err)
	}
	return k
}
