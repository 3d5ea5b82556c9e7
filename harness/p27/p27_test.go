// Monitor of P27: spans of outgoing HTTP requests, their propagation headers,
// and what is left untouched.
package p27

import (
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/SkyAPM/go2sky"
	helper "github.com/chanjarster/gears/skywalking/fasthttp"
	"github.com/valyala/fasthttp"
	"verif/harness/spans"
	"verif/harness/vk"
)

func TestMain(m *testing.M) { vk.Main(m, "P27") }

var (
	methods = []string{"GET", "POST", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS", "PURGE", "get", "Post", "m-search", "TRACE"}
	schemes = []string{"http", "https"}
	hosts   = []string{"svc.test", "svc.test:8080", "127.0.0.1:1", "[::1]:80", "a-b.example"}
	// path on the wire and its decoded form
	paths   = [][2]string{{"/", "/"}, {"/a", "/a"}, {"/a/b.c", "/a/b.c"}, {"/a%20b", "/a b"}, {"/%E6%97%A5", "/日"}, {"/a+b", "/a+b"}, {"/x;y=1", "/x;y=1"}, {"/%2541", "/%41"}}
	queries = []string{"", "?a=1", "?a=1&b=2", "?q=%20", "?u=http://x/y"}
	codes   = []int{100, 200, 201, 204, 301, 304, 399, 400, 401, 404, 418, 499, 500, 503, 599, 999}
)

type job struct {
	id      int
	req     *fasthttp.Request
	method  string
	host    string
	path    string
	url     string
	ctxKind string
	end     string // "response", "error"
	code    int
	body    string
	stream  bool
	mayRead bool
	err     error
	headers map[string]string
	sw8     string
	before  string
	problem string
}

// picture is everything of a request but the propagation headers. It leaves
// RequestURI() alone, which rewrites the request itself.
func picture(r *fasthttp.Request) string {
	uri := r.URI().String()
	var h []string
	r.Header.VisitAll(func(k, v []byte) {
		if s := strings.ToLower(string(k)); s != "sw8" && s != "sw8-correlation" {
			h = append(h, fmt.Sprintf("%s=%q", k, v))
		}
	})
	return fmt.Sprintf("%s %q %v body %q close %v host %q ct %q", r.Header.Method(), uri, h, r.Body(), r.ConnectionClose(), r.Header.Host(), r.Header.ContentType())
}

func make1(c *vk.Case, id int) *job {
	j := &job{id: id, method: methods[c.Intn(len(methods))], host: hosts[c.Intn(len(hosts))]}
	p := paths[c.Intn(len(paths))]
	uniq := fmt.Sprintf("/u%d", id)
	j.path = p[1] + uniq
	wire := p[0] + uniq
	if p[0] == "/" {
		j.path, wire = uniq, uniq
	}
	q := queries[c.Intn(len(queries))]
	// lengths must not matter
	if c.Intn(20) == 0 {
		uniq += strings.Repeat("/segment", c.Intn(600))
		j.path, wire = p[1]+uniq, p[0]+uniq
		if p[0] == "/" {
			j.path, wire = uniq, uniq
		}
	}
	if c.Intn(20) == 0 {
		q = "?long=" + strings.Repeat("0123456789", c.Intn(900))
	}
	scheme := schemes[c.Intn(2)]
	j.url = scheme + "://" + j.host + wire + q
	j.req = &fasthttp.Request{}
	if c.Intn(4) == 0 && scheme == "http" {
		j.req.SetRequestURI(wire + q)
		j.req.Header.SetHost(j.host)
	} else {
		j.req.SetRequestURI(j.url)
	}
	// what the library makes of the URL
	u := fasthttp.AcquireURI()
	u.Parse([]byte(j.host), []byte(j.url))
	j.url, j.path, j.host = u.String(), string(u.Path()), string(u.Host())
	fasthttp.ReleaseURI(u)
	j.req.Header.SetMethod(j.method)
	for i, n := 0, c.Intn(4); i < n; i++ {
		j.req.Header.Set([]string{"X-A", "Authorization", "Cookie", "Content-Type", "User-Agent"}[c.Intn(5)], fmt.Sprint("v", c.Intn(100)))
	}
	if c.Intn(6) == 0 {
		j.req.Header.Set("sw8", "stale")
		j.req.Header.Set("sw8-correlation", "stale")
	}
	if c.Intn(2) == 0 {
		j.req.SetBodyString(strings.Repeat("payload ", c.Intn(30)))
	}
	if c.Intn(6) == 0 {
		j.req.SetConnectionClose()
	}
	j.end = []string{"response", "response", "error"}[c.Intn(3)]
	j.code = codes[c.Intn(len(codes))]
	j.body = fmt.Sprintf("responsebody %d ", id)
	if c.Intn(12) == 0 {
		j.body += strings.Repeat("more ", c.Intn(20000)) + "end"
	}
	j.stream = c.Intn(4) == 0
	j.err = []error{errors.New(fmt.Sprint("errortext ", id)), fmt.Errorf("errortext %d: %w", id, io.EOF), fasthttp.ErrTimeout, errors.New(fmt.Sprint("errortext ", id, strings.Repeat(" and more", c.Intn(2000)), "."))}[c.Intn(4)]
	j.ctxKind = []string{"none", "span", "span", "entry", "noop"}[c.Intn(5)]
	return j
}

func TestSpans(t *testing.T) {
	vk.Rule("generated requests, responses and errors through the span helper, 1..4 goroutines sharing it and the callers' spans")
	vk.Cases("span", vk.N(10000, 150000), func(c *vk.Case) {
		mode := []string{"traced", "traced", "traced", "traced", "traced", "nil", "unsampled"}[c.Intn(7)]
		var tr *go2sky.Tracer
		rep := &spans.Reporter{}
		switch mode {
		case "traced":
			tr, rep = spans.New("p27")
		case "unsampled":
			tr, _ = go2sky.NewTracer("p27", go2sky.WithReporter(rep), go2sky.WithInstance("x"), go2sky.WithSampler(0))
		}
		noop, _ := go2sky.NewTracer("noop")
		logErr, logBody := c.Intn(2) == 0, c.Intn(2) == 0
		var opts []helper.Option
		if logErr {
			opts = append(opts, helper.WithLogError())
		}
		if logBody {
			opts = append(opts, helper.WithLog4xxBody())
		}
		h := helper.NewClientSpanHelper(tr, opts...)
		lanes := 1 + c.Intn(4)
		var all []*job
		byLane := make([][]*job, lanes)
		for l := range byLane {
			for i, n := 0, 1+c.Intn(5); i < n; i++ {
				j := make1(c, len(all))
				j.mayRead = logBody && j.code >= 400
				all = append(all, j)
				byLane[l] = append(byLane[l], j)
			}
		}
		// callers' spans, shared by all goroutines
		ctxs := map[string]context.Context{"none": context.Background()}
		var callers []go2sky.Span
		if tr != nil {
			s, ctx, _ := tr.CreateLocalSpan(context.Background(), go2sky.WithOperationName("caller local"))
			ctxs["span"] = ctx
			callers = append(callers, s)
			s, ctx, _ = tr.CreateEntrySpan(context.Background(), "caller entry", func(string) (string, error) { return "", nil })
			ctxs["entry"] = ctx
			callers = append(callers, s)
		}
		_, ctxs["noop"], _ = noop.CreateLocalSpan(context.Background(), go2sky.WithOperationName("noop"))
		var wg sync.WaitGroup
		for l := range byLane {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, j := range byLane[l] {
					vk.Tick()
					p, bad := vk.Catch(func() { one(h, j, ctxs) })
					if bad {
						j.problem = fmt.Sprint("panic: ", p)
					}
				}
			}()
		}
		wg.Wait()
		for _, s := range callers {
			if !s.IsValid() {
				c.Violate("the caller's own span was ended", mode)
				return
			}
			s.End()
		}
		n := 0
		if mode == "traced" {
			n = 2
			for _, j := range all {
				if j.ctxKind == "none" {
					n++
				}
			}
		}
		segs, ok := rep.Take(n)
		if ok {
			time.Sleep(200 * time.Microsecond)
			more, _ := rep.Take(0)
			segs = append(segs, more...)
		}
		found := map[string][]spans.Span{}
		var parents = map[string]spans.Span{}
		for _, g := range segs {
			for _, s := range g {
				switch s.Op {
				case "caller local":
					parents["span"] = s
				case "caller entry":
					parents["entry"] = s
				default:
					found[s.Op] = append(found[s.Op], s)
					continue
				}
				if len(s.Logs) != 0 || s.IsError || len(s.Tags) != 0 {
					c.Violate("the caller's own span was altered", fmt.Sprintf("%+v", s))
				}
			}
		}
		for _, j := range all {
			op := j.method + ":" + j.path
			ss := found[op]
			delete(found, op)
			d := map[string]string{"mode": mode, "request": j.before, "sw8": j.sw8, "context": j.ctxKind, "end": fmt.Sprintf("%s %d %v", j.end, j.code, j.err), "log error": fmt.Sprint(logErr), "log body": fmt.Sprint(logBody), "spans": fmt.Sprintf("%+v", ss)}
			bad := func(sig string) { c.Violate(sig, d) }
			if j.problem != "" {
				bad(j.problem)
				continue
			}
			expect := 0
			if mode == "traced" && j.ctxKind != "noop" {
				expect = 1
			}
			c.Observed(fmt.Sprint(mode, j.ctxKind, j.method, j.end, j.code, logErr, logBody, j.stream))
			if len(ss) != expect {
				bad(fmt.Sprintf("%d spans reported for a request, %d expected", len(ss), expect))
				continue
			}
			if expect == 0 {
				continue
			}
			s := ss[0]
			if s.Type != "Exit" || s.Peer != j.host {
				bad("the span is no exit span to the request's host")
			}
			if t := s.Tag("url"); len(t) != 1 || t[0] != j.url {
				d["url"] = j.url
				bad("the span's URL tag is wrong")
			}
			if t := s.Tag("http.method"); len(t) != 1 || t[0] != j.method {
				bad("the span's method tag is wrong")
			}
			st := s.Tag("status_code")
			logs := ""
			for _, l := range s.Logs {
				for _, kv := range l {
					logs += kv.K + kv.V
				}
			}
			if j.end == "response" {
				if len(st) != 1 || st[0] != strconv.Itoa(j.code) {
					bad("the span's status tag is not that of the response")
				}
				if s.IsError != (j.code >= 400) {
					bad("the span's error mark does not fit the status")
				}
				if logs != "" && !(logBody && j.code >= 400) {
					bad("the span holds texts that no option asks for")
				}
				if logBody && j.code >= 400 && !strings.Contains(logs, j.body) {
					bad("the response body is missing in the span")
				}
			} else {
				if len(st) != 0 {
					bad("the span has a status although there was no response")
				}
				if !s.IsError {
					bad("the span of a failed request is not marked as error")
				}
				if logErr != strings.Contains(logs, j.err.Error()) || !logErr && logs != "" {
					bad("the error text is in the span without the option, or missing with it")
				}
			}
			root := op
			switch j.ctxKind {
			case "none":
				if s.ParentID != -1 {
					bad("the span has a parent although there is none")
				}
			default:
				p := parents[j.ctxKind]
				if s.SegmentID != p.SegmentID || s.ParentID != p.SpanID || s.TraceID != p.TraceID {
					bad("the span is no child of the caller's span")
				}
				root = p.Op
			}
			e := func(x string) string { return base64.StdEncoding.EncodeToString([]byte(x)) }
			want := fmt.Sprintf("1-%s-%s-%d-%s-%s-%s-%s", e(s.TraceID), e(s.SegmentID), s.SpanID, e("p27"), e("p27-instance"), e(root), e(j.host))
			if j.sw8 != want {
				d["expected sw8"] = want
				bad("the propagation header does not name the span")
			}
			vk.Count("spans", 1)
			c.Sample(d)
		}
		for op, s := range found {
			c.Violate("a span nobody asked for was reported", fmt.Sprintf("%s %+v", op, s))
		}
		vk.Count(mode, len(all))
	})
}

func one(h *helper.ClientSpanHelper, j *job, ctxs map[string]context.Context) {
	ctx := ctxs[j.ctxKind]
	if ctx == nil { // no tracer
		ctx = context.Background()
	}
	pic := picture(j.req)
	j.before = pic
	stale := string(j.req.Header.Peek("sw8"))
	s, err := h.CreateSpan(ctx, j.req)
	if err != nil {
		j.problem = "the span was not created: " + err.Error()
		return
	}
	if p := picture(j.req); p != pic {
		j.problem = "the request was changed: " + p
		return
	}
	j.sw8 = string(j.req.Header.Peek("sw8"))
	if ctxs["span"] == nil || j.ctxKind == "noop" { // nothing to propagate
		if j.sw8 != stale {
			j.problem = "propagation headers appeared without a span"
			return
		}
	}
	if j.end == "error" {
		h.EndSpanError(s, j.err)
	} else {
		res := &fasthttp.Response{}
		res.SetStatusCode(j.code)
		res.Header.Set("X-R", "1")
		if j.stream {
			res.SetBodyStream(strings.NewReader(j.body), -1)
		} else {
			res.SetBodyString(j.body)
		}
		h.EndSpan(s, res)
		// a body stream may be read in full when its text is asked for
		if j.stream != res.IsBodyStream() && !j.mayRead || res.StatusCode() != j.code || string(res.Header.Peek("X-R")) != "1" || string(res.Body()) != j.body {
			j.problem = "the response was changed"
		}
	}
	if p := picture(j.req); p != pic {
		j.problem = "the request was changed: " + p
	}
}

// TestNil: a nil span is harmless everywhere.
func TestNil(t *testing.T) {
	vk.Rule("nil spans and helpers without a tracer")
	vk.Cases("nil", vk.N(500, 5000), func(c *vk.Case) {
		var tr *go2sky.Tracer
		if c.Intn(2) == 0 {
			tr, _ = spans.New("p27")
		}
		var opts []helper.Option
		if c.Intn(2) == 0 {
			opts = append(opts, helper.WithLogError(), helper.WithLog4xxBody())
		}
		h := helper.NewClientSpanHelper(tr, opts...)
		p, bad := vk.Catch(func() {
			res := &fasthttp.Response{}
			res.SetStatusCode(codes[c.Intn(len(codes))])
			h.EndSpan(nil, res)
			h.EndSpanError(nil, errors.New("x"))
			if tr == nil {
				j := make1(c, 1)
				s, err := h.CreateSpan(context.Background(), j.req)
				if s != nil || err != nil {
					c.Violate("a helper without a tracer made a span or an error", fmt.Sprint(s, err))
				}
				h.EndSpan(s, res)
				h.EndSpanError(s, errors.New("x"))
			}
		})
		if bad {
			c.Violate("a nil span is not harmless", fmt.Sprint(p))
		}
		c.Observed(fmt.Sprint(tr == nil, len(opts)))
	})
}
