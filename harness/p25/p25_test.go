// Monitor of P25: the same scripted handlers served with and without the
// tracing middleware; what clients and handlers see, and the spans reported.
package p25

import (
	"bufio"
	"bytes"
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httputil"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/SkyAPM/go2sky"
	mw "github.com/chanjarster/gears/skywalking/fasthttp-routing"
	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"
	"github.com/valyala/fasthttp/fasthttputil"
	"verif/harness/spans"
	"verif/harness/vk"
)

func TestMain(m *testing.M) { vk.Main(m, "P25") }

type op struct {
	k    string
	n    int
	a, b string
}

// teapot is an HTTPError of its own.
type teapot struct{ code int }

func (t teapot) Error() string   { return fmt.Sprint("teapot ", t.code) }
func (t teapot) StatusCode() int { return t.code }

// request is one scripted request.
type request struct {
	id       int
	method   string
	target   string
	heads    [][2]string
	body     string
	script   [][]op // by handler
	sw8      string // "", "good", "bad"
	ref      spans.Ref
	children int
	preset   bool
	convert  int // outer handler turns errors into this status
	err      error
	panics   interface{}
}

// track is what happened to a request in one run.
type track struct {
	events           []string
	path, uri        string
	failed, panicked bool
	status           int // of the response when the handlers returned
	body             string
	hasBody          bool // body is what the response holds then; it is no stream
	entered, left    time.Time
	children         int
	problems         []string
}

var codes = []int{200, 200, 201, 204, 301, 304, 399, 400, 401, 404, 418, 422, 499, 500, 503, 599, 600, 700, 999}

func script(c *vk.Case, r *request, nh int) {
	// the request fails with at most one error and one panic value
	switch c.Intn(6) {
	case 0:
		r.err = routing.NewHTTPError(codes[c.Intn(len(codes))], fmt.Sprint("http error ", r.id))
	case 1:
		r.err = teapot{codes[c.Intn(len(codes))]}
	case 2:
		r.err = fmt.Errorf("wrapped %d: %w", r.id, routing.NewHTTPError(404))
	case 3:
		r.err = routing.NewHTTPError(codes[c.Intn(len(codes))])
	default:
		r.err = errors.New(fmt.Sprint("plain ", r.id))
		if c.Intn(10) == 0 {
			r.err = errors.New(fmt.Sprint("plain ", r.id, strings.Repeat(" and more", c.Intn(1000)), "."))
		}
	}
	r.panics = []interface{}{fmt.Sprint("panic ", r.id), errors.New("panic error"), teapot{409}, 42, http.ErrAbortHandler}[c.Intn(5)]
	for h := 0; h < nh; h++ {
		var s []op
		for i, n := 0, c.Intn(5); i < n; i++ {
			txt := fmt.Sprintf("text %d-%d-%d ", r.id, h, i)
			if c.Intn(60) == 0 {
				txt += strings.Repeat("more text ", c.Intn(3000))
			}
			o := op{a: txt, n: codes[c.Intn(len(codes))]}
			o.k = []string{"status", "status", "write", "write", "body", "header", "addheader", "ctype", "redirect", "error", "notfound", "stream", "streamwriter", "child", "yield", "set", "get", "reset", "resetbody", "raw", "peek", "cookie", "close", "swallow", "next", "timeout"}[c.Intn(26)]
			switch o.k {
			case "timeout", "reset", "redirect", "close":
				if o.k == "redirect" {
					o.n = 300 + c.Intn(9)
				}
				if c.Intn(3) != 0 {
					o.k = "write"
				}
			case "header", "addheader":
				o.b = []string{"X-One", "X-Two", "Sw8", "Content-Language"}[c.Intn(4)]
			case "stream":
				o.n = c.Intn(2)
			case "child":
				if r.sw8 == "bad" {
					continue
				}
			}
			s = append(s, o)
		}
		switch c.Intn(12) {
		case 0, 1:
			s = append(s, op{k: "fail"})
		case 2:
			s = append(s, op{k: "panic"})
		case 3:
			s = append(s, op{k: "abort"})
		case 4:
			s = append(s, op{k: "swallow", n: codes[c.Intn(len(codes))]})
		}
		r.script = append(r.script, s)
	}
}

// world is one run of the requests.
type world struct {
	c      *vk.Case
	reqs   map[string]*request
	mu     sync.Mutex
	tracks map[string]*track
	tracer *go2sky.Tracer
	traced bool
}

func (w *world) of(ctx *routing.Context) (*request, *track) {
	id := string(ctx.Request.Header.Peek("X-Id"))
	w.mu.Lock()
	defer w.mu.Unlock()
	t := w.tracks[id]
	if t == nil {
		t = &track{}
		w.tracks[id] = t
	}
	return w.reqs[id], t
}

type ctxKey struct{}

func errText(err error) string {
	if err == nil {
		return "nil"
	}
	return fmt.Sprintf("%T %s", err, err)
}

// outer stands before the middleware.
func (w *world) outer(ctx *routing.Context) error {
	r, t := w.of(ctx)
	if r.preset {
		mw.SetSwContext(ctx, context.WithValue(context.Background(), ctxKey{}, r.id))
	}
	defer func() {
		if p := recover(); p != nil {
			t.events = append(t.events, fmt.Sprintf("outer panic %T %v", p, p))
			panic(p)
		}
	}()
	err := ctx.Next()
	same := err == nil || err == r.err || strings.HasPrefix(err.Error(), "Not Found")
	t.events = append(t.events, "outer got "+errText(err)+fmt.Sprint(" same ", same, " status ", ctx.Response.StatusCode()))
	if err != nil && r.convert != 0 {
		ctx.SetStatusCode(r.convert)
		ctx.WriteString("converted " + err.Error())
		ctx.Abort() // or the handlers after the failed one run
		return nil
	}
	return err
}

// inner stands right behind the middleware.
func (w *world) inner(ctx *routing.Context) error {
	r, t := w.of(ctx)
	t.entered = time.Now()
	t.path, t.uri = string(ctx.Path()), ctx.URI().String()
	done := false
	defer func() {
		t.left = time.Now()
		t.panicked = !done
	}()
	if r.preset && mw.GetSwContext(ctx).Value(ctxKey{}) != r.id {
		t.problems = append(t.problems, "values of the request's context are lost")
	}
	err := ctx.Next()
	done = true
	t.failed = err != nil
	t.status = ctx.Response.StatusCode()
	res := &ctx.Response
	if l := ctx.LastTimeoutErrorResponse(); l != nil {
		t.status = l.StatusCode()
		res = l
	}
	if !res.IsBodyStream() {
		t.body, t.hasBody = string(res.Body()), true
	}
	return err
}

type chunks struct {
	n    int
	text string
	left string // of the present chunk
}

func (k *chunks) Read(b []byte) (int, error) {
	if k.n == 0 {
		return 0, io.EOF
	}
	if k.left == "" {
		k.left = k.text
	}
	n := copy(b, k.left)
	if k.left = k.left[n:]; k.left == "" {
		k.n--
	}
	return n, nil
}

func (w *world) handler(h int) routing.Handler {
	return func(ctx *routing.Context) error {
		r, t := w.of(ctx)
		t.events = append(t.events, fmt.Sprint("enter ", h, " param ", ctx.Param("p")))
		nexted := false
		next := func() error {
			nexted = true
			err := ctx.Next()
			t.events = append(t.events, fmt.Sprint("next of ", h, " ", errText(err), " ", ctx.Response.StatusCode()))
			return err
		}
		for _, o := range r.script[h] {
			switch o.k {
			case "status":
				ctx.SetStatusCode(o.n)
			case "write":
				ctx.WriteString(o.a)
			case "body":
				ctx.SetBodyString(o.a)
			case "raw":
				ctx.Response.SetBodyRaw([]byte(o.a))
			case "header":
				ctx.Response.Header.Set(o.b, o.a)
			case "addheader":
				ctx.Response.Header.Add(o.b, o.a)
			case "ctype":
				ctx.SetContentType("application/x-" + strconv.Itoa(o.n))
			case "cookie":
				k := fasthttp.AcquireCookie()
				k.SetKey("k" + strconv.Itoa(o.n))
				k.SetValue(strconv.Itoa(r.id))
				ctx.Response.Header.SetCookie(k)
			case "redirect":
				ctx.Redirect("/else/"+strconv.Itoa(r.id), o.n)
			case "error":
				ctx.RequestCtx.Error(o.a, o.n)
			case "notfound":
				ctx.NotFound()
			case "stream":
				if o.n == 0 {
					ctx.SetBodyStream(&chunks{n: 3, text: o.a}, -1)
				} else {
					ctx.SetBodyStream(&chunks{n: 3, text: o.a}, 3*len(o.a))
				}
			case "streamwriter":
				ctx.SetBodyStreamWriter(func(b *bufio.Writer) {
					for i := 0; i < 3; i++ {
						b.WriteString(o.a)
						b.Flush()
					}
				})
			case "reset":
				ctx.Response.Reset()
			case "resetbody":
				ctx.Response.ResetBody()
			case "close":
				ctx.SetConnectionClose()
			case "timeout":
				ctx.TimeoutErrorWithCode(o.a, o.n)
			case "peek":
				t.events = append(t.events, fmt.Sprintf("peek %q %q %q", ctx.Method(), ctx.RequestURI(), ctx.Request.Header.Peek("Sw8")), fmt.Sprintf("%q %q %q", ctx.Response.Header.Peek("X-One"), ctx.Response.Header.ContentType(), ctx.Response.Header.Peek("Sw8")), string(ctx.PostBody()))
			case "set":
				ctx.Set("k", o.a)
			case "get":
				t.events = append(t.events, fmt.Sprint("get ", ctx.Get("k")))
			case "yield":
				time.Sleep(time.Duration(o.n) * time.Microsecond)
			case "child":
				if w.traced {
					sw := mw.GetSwContext(ctx)
					if go2sky.ActiveSpan(sw) == nil {
						t.problems = append(t.problems, "handlers do not find the span in the request")
						break
					}
					s, err := w.tracer.CreateExitSpan(sw, "child "+strconv.Itoa(r.id), "peer", func(k, v string) error { return nil })
					if err == nil {
						s.End()
						t.children++
					}
				}
			case "next":
				if !nexted {
					if err := next(); err != nil {
						return err
					}
				}
			case "swallow":
				if !nexted {
					if err := next(); err != nil {
						ctx.SetStatusCode(o.n)
						ctx.WriteString("handled " + err.Error())
						ctx.Abort()
					}
				}
			case "abort":
				ctx.Abort()
			case "fail":
				t.events = append(t.events, fmt.Sprint("fail ", h))
				return r.err
			case "panic":
				t.events = append(t.events, fmt.Sprint("panic ", h))
				panic(r.panics)
			}
		}
		t.events = append(t.events, fmt.Sprint("exit ", h))
		return nil
	}
}

type reply struct {
	err  string
	code int
	head string
	body string
	tail string
}

func (r reply) String() string {
	return fmt.Sprintf("%d %s body %q %s %s", r.code, r.head, r.body, r.tail, r.err)
}

// run serves the requests, some connections at once.
func (w *world) run(c *vk.Case, handlers []routing.Handler, nh int, mwares []routing.Handler, lanes [][]*request) map[int]reply {
	r := routing.New()
	all := []routing.Handler{w.outer}
	all = append(all, mwares...)
	all = append(all, w.inner)
	all = append(all, handlers...)
	r.Use(all...)
	r.Get("/r/<id>/<p>", func(*routing.Context) error { return nil })
	r.Post("/r/<id>/<p>", func(*routing.Context) error { return nil })
	ln := fasthttputil.NewInmemoryListener()
	srv := &fasthttp.Server{NoDefaultDate: true, ReadBufferSize: 64 << 10, Handler: func(ctx *fasthttp.RequestCtx) {
		defer func() {
			if p := recover(); p != nil {
				ctx.Response.Reset()
				ctx.Error(fmt.Sprint("recovered ", p), 500)
			}
		}()
		r.HandleRequest(ctx)
	}}
	go srv.Serve(ln)
	out := map[int]reply{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, lane := range lanes {
		wg.Add(1)
		go func() {
			defer wg.Done()
			conn, err := ln.Dial()
			if err != nil {
				vk.Inconclusive("dial: %v", err)
				return
			}
			br := bufio.NewReader(conn)
			for _, q := range lane {
				var b bytes.Buffer
				fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nX-Id: %d\r\n", q.method, q.target, q.id)
				for _, h := range q.heads {
					fmt.Fprintf(&b, "%s: %s\r\n", h[0], h[1])
				}
				if q.method == "POST" {
					fmt.Fprintf(&b, "Content-Length: %d\r\n", len(q.body))
				}
				b.WriteString("\r\n")
				if q.method == "POST" {
					b.WriteString(q.body)
				}
				conn.Write(b.Bytes())
				hr, _ := http.NewRequest(q.method, "http://x/", nil)
				resp, err := http.ReadResponse(br, hr)
				var o reply
				closed := true
				if err != nil {
					o.err = err.Error()
				} else {
					o.code = resp.StatusCode
					resp.Header.Del("Date")
					d, _ := httputil.DumpResponse(resp, false)
					hs := strings.Split(string(d), "\r\n")
					sort.Strings(hs)
					o.head = strings.Join(hs, "|")
					body, err := io.ReadAll(resp.Body)
					o.body = string(body)
					o.tail = fmt.Sprint(resp.TransferEncoding, resp.ContentLength, err)
					// no next message may be taken for a body
					closed = resp.Close || q.method == "HEAD" || o.code == 204 || o.code == 304
				}
				mu.Lock()
				out[q.id] = o
				mu.Unlock()
				vk.Tick()
				if closed {
					conn.Close()
					if conn, err = ln.Dial(); err != nil {
						return
					}
					br = bufio.NewReader(conn)
				}
			}
			conn.Close()
		}()
	}
	wg.Wait()
	ln.Close()
	return out
}

func b64(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }

var badSw8 = []string{"1", "x-y", "1-!!-YQ==-3-YQ==-YQ==-YQ==-YQ==", "1-YQ==-YQ==-x-YQ==-YQ==-YQ==-YQ==", "999-YQ==-YQ==-3-YQ==-YQ==-YQ==-YQ==", "1-YQ==-YQ==-3-YQ==-YQ==-YQ==", "-------", "1-a-b-0-c-d-e-f"}

func TestMiddleware(t *testing.T) {
	vk.Rule("scripted handler chains served twice, without and with the middleware; replies, handler events and spans compared, 1..4 connections at once")
	vk.Cases("serve", vk.N(4000, 80000), func(c *vk.Case) {
		nh := c.Intn(4)
		mode := []string{"traced", "traced", "traced", "traced", "traced", "nil", "unsampled"}[c.Intn(7)]
		reqs := map[string]*request{}
		var lanes [][]*request
		var all []*request
		id := 0
		for l, n := 0, 1+c.Intn(4); l < n; l++ {
			var lane []*request
			for i, m := 0, 1+c.Intn(6); i < m; i++ {
				id++
				r := &request{id: id, method: []string{"GET", "GET", "POST", "HEAD", "PUT", "OPTIONS", "DELETE", "get", "Purge"}[c.Intn(9)], preset: c.Intn(3) == 0}
				r.target = fmt.Sprintf("/r/%d/%s", id, []string{"x", "a%20b", "%E6%97%A5", "A-b_c.d", "a+b", "%2e"}[c.Intn(6)])
				if c.Intn(8) == 0 {
					r.target = fmt.Sprintf("/nowhere/%d", id)
				}
				if c.Intn(2) == 0 {
					r.target += "?" + []string{"a=1&b=2", "q=%20x", "", "x=é"}[c.Intn(4)]
				}
				// lengths must not matter
				if c.Intn(20) == 0 {
					if !strings.Contains(r.target, "?") {
						r.target += "?"
					}
					r.target += "&long=" + strings.Repeat("0123456789", c.Intn(2000))
				}
				r.heads = append(r.heads, [2]string{"Host", []string{"svc.test", "svc.test:8080", "127.0.0.1"}[c.Intn(3)]})
				r.body = strings.Repeat("body ", c.Intn(20))
				switch c.Intn(6) {
				case 0:
					r.sw8 = "bad"
					r.heads = append(r.heads, [2]string{"sw8", badSw8[c.Intn(len(badSw8))]})
				case 1, 2:
					r.sw8 = "good"
					f := spans.Ref{TraceID: fmt.Sprintf("trace-%d.%d", id, c.Intn(1000)), SegmentID: fmt.Sprintf("seg%d", id), SpanID: int32(c.Intn(100)), Service: "up 服务", Instance: "i@1", Endpoint: "GET:/up", Addr: "svc.test:80"}
					r.ref = f
					r.heads = append(r.heads, [2]string{[]string{"sw8", "Sw8", "SW8"}[c.Intn(3)], fmt.Sprintf("1-%s-%s-%d-%s-%s-%s-%s", b64(f.TraceID), b64(f.SegmentID), f.SpanID, b64(f.Service), b64(f.Instance), b64(f.Endpoint), b64(f.Addr))})
					if c.Intn(2) == 0 {
						r.heads = append(r.heads, [2]string{"sw8-correlation", b64("k") + ":" + b64("v")})
					}
				}
				if c.Intn(4) == 0 {
					r.convert = codes[c.Intn(len(codes))]
				}
				script(c, r, nh)
				reqs[strconv.Itoa(id)] = r
				lane = append(lane, r)
				all = append(all, r)
			}
			lanes = append(lanes, lane)
		}
		var opts []mw.Option
		logErr, logBody := c.Intn(2) == 0, c.Intn(2) == 0
		if logErr {
			opts = append(opts, mw.WithLogError())
		}
		if logBody {
			opts = append(opts, mw.WithLog4xxBody())
		}
		run := func(tr *go2sky.Tracer, traced bool, m []routing.Handler) (*world, map[int]reply) {
			w := &world{c: c, reqs: reqs, tracks: map[string]*track{}, tracer: tr, traced: traced}
			var hs []routing.Handler
			for h := 0; h < nh; h++ {
				hs = append(hs, w.handler(h))
			}
			return w, w.run(c, hs, nh, m, lanes)
		}
		plain, want := run(nil, false, nil)
		var tr *go2sky.Tracer
		rep := &spans.Reporter{}
		var err error
		switch mode {
		case "traced":
			tr, rep = spans.New("p25")
		case "unsampled":
			tr, err = go2sky.NewTracer("p25", go2sky.WithReporter(rep), go2sky.WithInstance("x"), go2sky.WithSampler(0))
		}
		if err != nil {
			panic(err)
		}
		traced, got := run(tr, mode == "traced", []routing.Handler{mw.NewMiddleware(tr, opts...)})
		n := 0
		show := func(r *request) map[string]string {
			k := strconv.Itoa(r.id)
			return map[string]string{"request": fmt.Sprintf("%s %s %v", r.method, r.target, r.heads), "script": fmt.Sprintf("%v", r.script), "error": errText(r.err), "mode": mode, "log error": fmt.Sprint(logErr), "log body": fmt.Sprint(logBody), "convert": fmt.Sprint(r.convert), "plain": want[r.id].String(), "with middleware": got[r.id].String(), "plain events": strings.Join(plain.tracks[k].events, "; "), "events": strings.Join(traced.tracks[k].events, "; ")}
		}
		for _, r := range all {
			k := strconv.Itoa(r.id)
			a, b := plain.tracks[k], traced.tracks[k]
			if a == nil || b == nil {
				vk.Inconclusive("%s: request %d did not arrive: %s %s %v %v", c.ID(), r.id, r.method, r.target, want[r.id], got[r.id])
				return
			}
			if want[r.id] != got[r.id] {
				c.Violate("the client gets another response with the middleware", show(r))
				return
			}
			if strings.Join(a.events, "\n") != strings.Join(b.events, "\n") {
				c.Violate("handlers see something else with the middleware", show(r))
				return
			}
			for _, p := range b.problems {
				c.Violate(p, show(r))
			}
			if mode == "traced" && (r.sw8 == "" || r.sw8 == "good") || mode == "unsampled" && r.sw8 == "good" {
				n++
			}
			c.Observed(fmt.Sprint(mode, r.method, r.sw8, want[r.id].code, logErr, logBody, a.failed, a.panicked, len(a.events), len(a.events)))
		}
		vk.Count(mode, len(all))
		segs, ok := rep.Take(n)
		if ok {
			time.Sleep(time.Millisecond)
			more, _ := rep.Take(0)
			segs = append(segs, more...)
		}
		byID := map[string][][]spans.Span{}
		for _, s := range segs {
			root := s[len(s)-1]
			byID[root.Op] = append(byID[root.Op], s)
		}
		for _, r := range all {
			k := strconv.Itoa(r.id)
			a, b := plain.tracks[k], traced.tracks[k]
			name := r.method + ":" + a.path
			ss := byID[name]
			delete(byID, name)
			expect := 0
			if mode == "traced" && (r.sw8 == "" || r.sw8 == "good") || mode == "unsampled" && r.sw8 == "good" {
				expect = 1
			}
			d := show(r)
			d["spans"] = fmt.Sprintf("%+v", ss)
			if len(ss) != expect {
				if r.sw8 == "bad" && len(ss) < 2 && mode == "traced" {
					continue
				}
				c.Violate(fmt.Sprintf("%d entry spans reported for a request, %d expected", len(ss), expect), d)
				return
			}
			if expect == 0 {
				continue
			}
			seg := ss[0]
			s := seg[len(seg)-1]
			vk.Count("spans", 1)
			bad := func(sig string) { c.Violate(sig, d) }
			if s.Type != "Entry" {
				bad("the span is no entry span")
			}
			if t := s.Tag("http.method"); len(t) != 1 || t[0] != r.method {
				bad("the span's method tag is wrong")
			}
			if t := s.Tag("url"); len(t) != 1 || t[0] != a.uri {
				bad("the span's URL tag is wrong")
			}
			code := want[r.id].code
			fails := b.failed || b.panicked || b.status >= 400
			if s.IsError != fails {
				bad(fmt.Sprintf("the span is marked as error: %v, although the handler failed: %v, panicked: %v, status %d", s.IsError, b.failed, b.panicked, b.status))
			}
			// what a panic or a converted error becomes is decided outside
			if want[r.id].err == "" && !b.panicked && !(b.failed && r.convert != 0) {
				if t := s.Tag("status_code"); len(t) != 1 || t[0] != strconv.Itoa(code) {
					bad("the span's status tag is not the status sent")
				}
			}
			logs := ""
			for _, l := range s.Logs {
				for _, kv := range l {
					logs += kv.K + kv.V
				}
			}
			switch {
			case b.panicked:
			case b.failed && logErr:
				if !strings.Contains(logs, r.err.Error()) && !strings.Contains(logs, "Not Found") {
					bad("the error text is not in the span")
				}
			case !b.failed && b.status >= 400 && logBody:
				if b.hasBody && !strings.Contains(logs, b.body) {
					d["logs"] = logs
					bad("the response body is not in the span although that option is on")
				}
			case b.failed || b.status < 400 || !logBody:
				if logs != "" {
					bad("the span holds texts that no option asks for")
				}
			}
			if len(seg)-1 != b.children {
				bad(fmt.Sprintf("%d children of the span, %d expected", len(seg)-1, b.children))
			}
			for _, x := range seg[:len(seg)-1] {
				if x.Op != "child "+k || x.ParentID != s.SpanID || x.TraceID != s.TraceID {
					bad("spans made by handlers are not children of the request's span")
				}
			}
			if s.Start > b.entered.UnixMilli() || s.End < b.left.UnixMilli() || s.End < s.Start {
				bad("the span does not cover the handlers")
			}
			if r.sw8 == "good" {
				if s.TraceID != r.ref.TraceID || len(s.Refs) != 1 || s.Refs[0] != r.ref {
					bad("the span does not continue the caller's trace")
				}
			} else if len(s.Refs) != 0 {
				bad("the span continues a trace nobody sent")
			}
			c.Sample(map[string]string{"request": d["request"], "reply": d["plain"], "span": fmt.Sprintf("%+v", s)})
		}
		for name, s := range byID {
			c.Violate("a span nobody asked for was reported", fmt.Sprintf("%s %+v", name, s))
		}
	})
}
