// Monitor of P24: who gets at profiling data.
package p24

import (
	"bufio"
	"encoding/base64"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/chanjarster/gears/confs"
	"github.com/gin-gonic/gin"
	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"
	"github.com/valyala/fasthttp/fasthttputil"
	"verif/harness/vk"
)

func TestMain(m *testing.M) {
	gin.SetMode(gin.ReleaseMode)
	gin.DefaultWriter, gin.DefaultErrorWriter = io.Discard, io.Discard
	vk.Main(m, "P24")
}

var parts = []string{"admin", "a", "p", "root", "a:b", ":", "::", ":x", "x:", "a b", " a", "a ", "é日本", "Basic ", "=", "==", "a\x00b", "\xff\xfe", "%", "ADMIN", "Admin", "pass:word:1", "a\"b", "\\", "a,b", "\n", "a\nb"}

func text(c *vk.Case, colon bool) string {
	for {
		s := parts[c.Intn(len(parts))]
		if c.Intn(3) == 0 {
			b := make([]byte, 1+c.Intn(20))
			for i := range b {
				b[i] = byte(c.Intn(256))
				if c.Intn(6) == 0 {
					b[i] = ':'
				}
			}
			s = string(b)
		}
		if colon || !strings.Contains(s, ":") {
			return s
		}
	}
}

func enc(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }

func flip(s string) string {
	b := []byte(s)
	for i := range b {
		switch {
		case b[i] >= 'a' && b[i] <= 'z':
			b[i] -= 32
		case b[i] >= 'A' && b[i] <= 'Z':
			b[i] += 32
		}
	}
	return string(b)
}

// header makes one value of the Authorization header.
func header(c *vk.Case, u, p string) (string, string) {
	right := u + ":" + p
	cred := right
	kind := "right"
	if c.Intn(3) != 0 {
		i := c.Intn(20)
		kind = fmt.Sprint("cred", i)
		switch i {
		case 0:
			cred = u + ":" + text(c, true)
		case 1:
			cred = text(c, true) + ":" + p
		case 2:
			cred = p + ":" + u
		case 3:
			cred = right + ":"
		case 4:
			cred = right + "x"
		case 5:
			cred = right[:len(right)-1]
		case 6:
			cred = u
		case 7:
			cred = u + ":"
		case 8:
			cred = ":" + p
		case 9:
			cred = ":"
		case 10:
			cred = ""
		case 11:
			cred = u + p
		case 12:
			cred = flip(right)
		case 13:
			cred = right + "\x00"
		case 14:
			cred = ":" + right
		case 15:
			cred = u + "::" + p
		case 16:
			cred = right + "\n"
		case 17:
			cred = " " + right
		case 18:
			if i := strings.Index(p, ":"); i >= 0 {
				cred = u + ":" + p[:i]
			} else {
				cred = u + ":" + p + ":" + p
			}
		default:
			cred = text(c, true)
		}
	}
	val := enc(cred)
	if c.Intn(4) == 0 {
		i := c.Intn(10)
		kind += fmt.Sprint(" enc", i)
		switch i {
		case 0:
			val = base64.RawStdEncoding.EncodeToString([]byte(cred))
		case 1:
			val = base64.URLEncoding.EncodeToString([]byte(cred))
		case 2:
			val = val[:len(val)/2] + " " + val[len(val)/2:]
		case 3:
			b := []byte(val)
			if len(b) > 0 {
				b[c.Intn(len(b))] = "!-_*=A"[c.Intn(6)]
			}
			val = string(b)
		case 4:
			val += "="
		case 5:
			val = enc(val)
		case 6:
			val = fmt.Sprintf("%x", cred)
		case 7:
			val += val
		case 8:
			val = strings.Map(func(r rune) rune {
				if r < 32 || r > 126 {
					return 'x'
				}
				return r
			}, cred)
		default:
			val = val + "," + val
		}
	}
	scheme := "Basic "
	if c.Intn(4) == 0 {
		s := []string{"", "basic ", "BASIC ", "Basic", "Basic:", "Bearer ", "Digest ", "Basic  ", "Basic\t", "Basic Basic ", "Basi ", "xBasic ", "Negotiate ", "Basic realm=", "=", "Basic ,"}
		scheme = s[c.Intn(len(s))]
		kind += fmt.Sprintf(" scheme %q", scheme)
	}
	return scheme + val, kind
}

// judge: must the value be let in, may it be.
func judge(h, u, p string) (must, may bool) {
	h = strings.Trim(h, " \t")
	right := u + ":" + p
	if h == "Basic "+enc(right) {
		return !strings.Contains(u, ":"), true
	}
	if len(h) < 6 || !strings.EqualFold(h[:5], "basic") || (h[5] != ' ' && h[5] != '\t') {
		return false, false
	}
	v := strings.Trim(h[6:], " \t")
	v = strings.TrimRight(v, "=")
	for _, e := range []*base64.Encoding{base64.RawStdEncoding, base64.RawURLEncoding} {
		if b, err := e.DecodeString(v); err == nil && string(b) == right {
			return false, true
		}
	}
	return false, false
}

type target struct {
	name   string
	path   []string
	data   []string // what the body of each path holds when served
	unset  int      // status when credentials are not configured
	ln     *fasthttputil.InmemoryListener
	served *int64
	stop   func()
}

const secret = "profiling data of this process"

func ginTarget(conf *confs.PprofConf) *target {
	t := &target{name: "gin", path: []string{"/debug/pprof/", "/debug/pprof/heap"}, data: []string{secret, secret}, unset: 404, ln: fasthttputil.NewInmemoryListener(), served: new(int64)}
	e := gin.New()
	e.Any("/debug/pprof/*any", confs.NewGinPprofBasicAuthFilter(conf), func(c *gin.Context) {
		atomic.AddInt64(t.served, 1)
		c.String(200, secret)
	})
	s := &http.Server{Handler: e}
	go s.Serve(t.ln)
	t.stop = func() { s.Close() }
	return t
}

func fastTarget(conf *confs.PprofConf) *target {
	t := &target{name: "fasthttp", unset: 200, ln: fasthttputil.NewInmemoryListener()}
	t.path = []string{"/debug/pprof/", "/debug/pprof/cmdline", "/debug/pprof/goroutine?debug=1", "/debug/pprof/threadcreate?debug=1", "/debug/pprof/symbol", "/debug/pprof/block?debug=1", "/debug/pprof/mutex?debug=1"}
	t.data = []string{"/debug/pprof/", os.Args[0], "goroutine profile: total", "threadcreate profile: total", "num_symbols", "--- contention:", "--- mutex:"}
	r := routing.New()
	r.Any("/debug/pprof/*", confs.NewFasthttpRoutingPprofHandler(conf))
	s := &fasthttp.Server{Handler: r.HandleRequest, NoDefaultServerHeader: true}
	go s.Serve(t.ln)
	t.stop = func() { t.ln.Close() }
	return t
}

type answer struct {
	code      int
	challenge string
	body      string
}

func ask(conn net.Conn, br *bufio.Reader, method, path string, heads []string) (answer, error) {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: svc.test\r\n", method, path)
	for _, h := range heads {
		fmt.Fprintf(&b, "Authorization: %s\r\n", h)
	}
	if method == "POST" {
		b.WriteString("Content-Length: 3\r\n\r\n0x1")
	} else {
		b.WriteString("\r\n")
	}
	if _, err := io.WriteString(conn, b.String()); err != nil {
		return answer{}, err
	}
	q, _ := http.NewRequest(method, "http://svc.test"+path, nil)
	resp, err := http.ReadResponse(br, q)
	if err != nil {
		return answer{}, err
	}
	body, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	return answer{resp.StatusCode, resp.Header.Get("WWW-Authenticate"), string(body)}, err
}

func TestAccess(t *testing.T) {
	vk.Rule("raw HTTP requests with generated Authorization headers against both endpoints, 1..4 connections at once")
	vk.Cases("access", vk.N(3000, 60000), func(c *vk.Case) {
		conf := &confs.PprofConf{Username: text(c, c.Intn(8) == 0), Password: text(c, true)}
		switch c.Intn(8) {
		case 0:
			conf.Username = ""
		case 1:
			conf.Password = ""
		case 2:
			if c.Intn(2) == 0 {
				conf.Username, conf.Password = "", ""
			}
		}
		u, p := conf.Username, conf.Password
		set := u != "" && p != ""
		var ts []*target
		if c.Intn(2) == 0 {
			ts = append(ts, ginTarget(conf))
		}
		if len(ts) == 0 || c.Intn(4) == 0 {
			ts = append(ts, fastTarget(conf))
		}
		for _, g := range ts {
			n := 1 + c.Intn(4)
			let := int64(0)
			var wg sync.WaitGroup
			for w := 0; w < n; w++ {
				type req struct {
					method string
					i      int
					heads  []string
					kind   string
				}
				var rs []req
				for i, m := 0, 3+c.Intn(10); i < m; i++ {
					r := req{method: []string{"GET", "GET", "GET", "POST", "HEAD"}[c.Intn(5)], i: c.Intn(len(g.path))}
					k := 1
					switch c.Intn(12) {
					case 0:
						k, r.kind = 0, "none"
					case 1:
						k = 2
					}
					for ; k > 0; k-- {
						h, kind := header(c, u, p)
						r.heads, r.kind = append(r.heads, h), r.kind+kind+";"
					}
					rs = append(rs, r)
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					conn, err := g.ln.Dial()
					if err != nil {
						vk.Inconclusive("dial: %v", err)
						return
					}
					defer conn.Close()
					br := bufio.NewReader(conn)
					for _, r := range rs {
						a, err := ask(conn, br, r.method, g.path[r.i], r.heads)
						vk.Tick()
						must, may := len(r.heads) > 0, false
						for _, h := range r.heads {
							x, y := judge(h, u, p)
							must, may = must && x, may || y
						}
						must, may = must && set, may && set
						d := map[string]string{"endpoint": g.name, "path": g.path[r.i], "user": fmt.Sprintf("%q", u), "password": fmt.Sprintf("%q", p), "Authorization": fmt.Sprintf("%q", r.heads), "kind": r.kind, "method": r.method, "answer": fmt.Sprintf("%d challenge %q body %.200q %v", a.code, a.challenge, a.body, err)}
						if err != nil {
							c.Violate("no answer", d)
							return
						}
						data := len(a.body) > 300
						for _, x := range g.data {
							data = data || strings.Contains(a.body, x)
						}
						passed := data || (set && a.code == 200)
						switch {
						case !set:
							if data || a.code != g.unset || (g.unset == 200 && a.body != "") {
								c.Violate("an endpoint without credentials does not answer as one that serves nothing", d)
							}
						case passed && !may:
							c.Violate("a request without the right credentials was let in", d)
						case !passed && must:
							c.Violate("a request with the right credentials was refused", d)
						case passed:
							if a.code != 200 || r.method != "HEAD" && !strings.Contains(a.body, g.data[r.i]) {
								c.Violate("a request with the right credentials got no profiling data", d)
							}
							atomic.AddInt64(&let, 1)
						default:
							if a.code != 401 || !strings.HasPrefix(a.challenge, "Basic ") {
								c.Violate("a refused request was not answered with 401 and a challenge", d)
							}
						}
						out := "refused"
						if passed {
							out = "let in"
						}
						if !set {
							out = "unset"
						}
						vk.Count(g.name+" "+out, 1)
						c.Observed(fmt.Sprint(g.name, r.kind, out, a.code))
						c.Sample(d)
					}
				}()
			}
			wg.Wait()
			if g.served != nil && atomic.LoadInt64(g.served) != let {
				c.Violate("the handler behind the gin filter ran for refused requests", fmt.Sprintf("ran %d times, %d requests let in", atomic.LoadInt64(g.served), let))
			}
			g.stop()
		}
	})
}
