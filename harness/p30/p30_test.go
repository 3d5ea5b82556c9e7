// Monitor of P30: what a configured tracer reports, to whom and under which
// name, and that an unconfigured one stays silent.
package p30

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/SkyAPM/go2sky"
	tracing "github.com/chanjarster/gears/skywalking"
	client "github.com/chanjarster/gears/skywalking/fasthttp"
	routingmw "github.com/chanjarster/gears/skywalking/fasthttp-routing"
	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"
	"google.golang.org/grpc"
	configuration "skywalking.apache.org/repo/goapi/collect/agent/configuration/v3"
	common "skywalking.apache.org/repo/goapi/collect/common/v3"
	agent "skywalking.apache.org/repo/goapi/collect/language/agent/v3"
	management "skywalking.apache.org/repo/goapi/collect/management/v3"
	"verif/harness/spans"
	"verif/harness/vk"
)

func TestMain(m *testing.M) {
	for _, e := range []string{"SW_AGENT_NAME", "SW_AGENT_SAMPLE", "SW_AGENT_INSTANCE_NAME", "SW_AGENT_AUTHENTICATION", "SW_AGENT_COLLECTOR_HEARTBEAT_PERIOD", "SW_AGENT_COLLECTOR_GET_AGENT_DYNAMIC_CONFIG_INTERVAL", "SW_AGENT_COLLECTOR_BACKEND_SERVICES", "SW_AGENT_COLLECTOR_MAX_SEND_QUEUE_SIZE"} {
		os.Unsetenv(e)
	}
	vk.Main(m, "P30")
}

// collector is a recording tracing backend.
type collector struct {
	agent.UnimplementedTraceSegmentReportServiceServer
	management.UnimplementedManagementServiceServer
	configuration.UnimplementedConfigurationDiscoveryServiceServer
	addr string
	srv  *grpc.Server

	mu    sync.Mutex
	segs  []*agent.SegmentObject
	who   map[string]int // service|instance of properties, pings; service of config requests
	conns int
	open  int
}

type countListener struct {
	net.Listener
	c *collector
}

func (l countListener) Accept() (net.Conn, error) {
	x, err := l.Listener.Accept()
	if err == nil {
		l.c.mu.Lock()
		l.c.conns++
		l.c.open++
		l.c.mu.Unlock()
		x = &countConn{Conn: x, c: l.c}
	}
	return x, err
}

type countConn struct {
	net.Conn
	c    *collector
	once sync.Once
}

func (x *countConn) Close() error {
	x.once.Do(func() {
		x.c.mu.Lock()
		x.c.open--
		x.c.mu.Unlock()
	})
	return x.Conn.Close()
}

func newCollector(l net.Listener) *collector {
	c := &collector{who: map[string]int{}, addr: l.Addr().String()}
	c.srv = grpc.NewServer()
	agent.RegisterTraceSegmentReportServiceServer(c.srv, c)
	management.RegisterManagementServiceServer(c.srv, c)
	configuration.RegisterConfigurationDiscoveryServiceServer(c.srv, c)
	go c.srv.Serve(countListener{l, c})
	return c
}

func (c *collector) Collect(s agent.TraceSegmentReportService_CollectServer) error {
	for {
		o, err := s.Recv()
		if err == io.EOF {
			return s.SendAndClose(&common.Commands{})
		}
		if err != nil {
			return err
		}
		c.mu.Lock()
		c.segs = append(c.segs, o)
		c.mu.Unlock()
	}
}

func (c *collector) note(s string) (*common.Commands, error) {
	c.mu.Lock()
	c.who[s]++
	c.mu.Unlock()
	return &common.Commands{}, nil
}

func (c *collector) ReportInstanceProperties(_ context.Context, p *management.InstanceProperties) (*common.Commands, error) {
	return c.note("properties " + p.Service + "|" + p.ServiceInstance)
}

func (c *collector) KeepAlive(_ context.Context, p *management.InstancePingPkg) (*common.Commands, error) {
	return c.note("ping " + p.Service + "|" + p.ServiceInstance)
}

func (c *collector) FetchConfigurations(_ context.Context, p *configuration.ConfigurationSyncRequest) (*common.Commands, error) {
	return c.note("config " + p.Service)
}

// tee passes everything on and keeps a record.
type tee struct {
	go2sky.Reporter
	rec spans.Reporter
}

func (t *tee) Send(s []go2sky.ReportedSpan) {
	t.rec.Send(s)
	t.Reporter.Send(s)
}

var words = []string{"", "a", "shop", "order-service", "日本", "x::y", ":", "a b", "ns", "UPPER", "with/slash", "{}", "%s", "é"}

var late bool

var null, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)

// reporter silences the logger that go2sky makes of os.Stderr.
func reporter(c *tracing.Conf) (go2sky.Reporter, error) {
	e := os.Stderr
	os.Stderr = null
	defer func() { os.Stderr = e }()
	return tracing.NewGrpcOrNoopReporter(c)
}

func eventually(f func() bool) bool {
	d := 30 * time.Second
	if late {
		d = 2 * time.Second
	}
	end := time.Now().Add(d)
	for !f() {
		if time.Now().After(end) {
			late = true
			return false
		}
		vk.Tick()
		time.Sleep(2 * time.Millisecond)
	}
	return true
}

// drive makes segments through everything that traces; it returns how many.
func drive(c *vk.Case, tr *go2sky.Tracer, n, workers int) {
	r := routing.New()
	r.Use(routingmw.NewMiddleware(tr))
	r.Any("/<p>", func(x *routing.Context) error {
		if string(x.QueryArgs().Peek("fail")) != "" {
			return errors.New("failed")
		}
		x.SetBodyString("ok")
		return nil
	})
	var wg sync.WaitGroup
	per := n / workers
	for w := 0; w < workers; w++ {
		wg.Add(1)
		w := w
		go func() {
			defer wg.Done()
			for i := 0; i < per; i++ {
				switch (i + w) % 3 {
				case 0:
					var ctx fasthttp.RequestCtx
					var req fasthttp.Request
					req.SetRequestURI(fmt.Sprintf("http://svc.test/p%d-%d", w, i))
					if i%2 == 0 {
						req.URI().QueryArgs().Set("fail", "1")
					}
					ctx.Init(&req, nil, nil)
					r.HandleRequest(&ctx)
				case 1:
					s, ctx, err := tr.CreateLocalSpan(context.Background(), go2sky.WithOperationName(fmt.Sprintf("local%d-%d", w, i)))
					if err != nil {
						continue
					}
					s2, _, err := tr.CreateLocalSpan(ctx, go2sky.WithOperationName("inner"))
					if err == nil {
						s2.End()
					}
					s.End()
				case 2:
					req := &fasthttp.Request{}
					req.SetRequestURI(fmt.Sprintf("http://other.test/c%d-%d", w, i))
					exit(tr, req, i)
				}
			}
		}()
	}
	wg.Wait()
	vk.Tick()
}

func short(s []string) []string {
	if len(s) > 5 {
		s = s[:5]
	}
	return s
}

func flat(seg []spans.Span) string {
	s := ""
	for _, x := range seg {
		s += fmt.Sprintf("%s %s %d %d %s %q %v;", x.TraceID, x.SegmentID, x.SpanID, x.ParentID, x.Op, x.Peer, x.IsError)
	}
	return s
}

func flatObj(o *agent.SegmentObject) string {
	s := ""
	for _, x := range o.Spans {
		s += fmt.Sprintf("%s %s %d %d %s %q %v;", o.TraceId, o.TraceSegmentId, x.SpanId, x.ParentSpanId, x.OperationName, x.Peer, x.IsError)
	}
	return s
}

// TestSilent: without an address nothing is sent and nothing breaks. It comes
// first, as long as nothing else in the process makes connections.
func TestSilent(t *testing.T) {
	vk.Rule("configurations without a server address, and none at all: spans through everything that traces, no connection")
	vk.Cases("silent", vk.N(2000, 40000), func(c *vk.Case) {
		conf := &tracing.Conf{ServiceName: words[c.Intn(len(words))], ServiceNamespace: words[c.Intn(len(words))], ServiceInstance: words[c.Intn(len(words))]}
		arg := conf
		if c.Intn(2) == 0 {
			arg = nil
		}
		before := conns()
		rep, err := reporter(arg)
		if c.Intn(4) == 0 {
			rep, err = tracing.NoopReporter(), nil
		}
		if err != nil || rep == nil {
			c.Violate("no reporter without an address", fmt.Sprint(arg, err))
			return
		}
		x := &tee{Reporter: rep}
		tr, err := tracing.NewTracer(conf, x)
		if err != nil || tr == nil {
			c.Violate("no tracer without an address", fmt.Sprint(conf, err))
			return
		}
		n, w := 3+c.Intn(30), 1+c.Intn(3)
		drive(c, tr, n, w)
		if _, ok := x.rec.Take(n / w * w); !ok {
			c.Violate("finished spans did not reach the reporter", fmt.Sprint(conf))
			return
		}
		rep.Close()
		if after := conns(); after > before {
			c.Violate("a connection was made without an address", fmt.Sprintf("%v: %d sockets before, %d after", conf, before, after))
		}
		vk.Count("silent_segments", n/w*w)
		c.Observed(fmt.Sprint(arg == nil, *conf, n, w))
	})
}

// reserve takes a port that refuses connections until up is called. Nobody
// else can get it meanwhile.
func reserve() (int, string, error) {
	s, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return 0, "", err
	}
	if err := syscall.Bind(s, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		return 0, "", err
	}
	a, err := syscall.Getsockname(s)
	if err != nil {
		return 0, "", err
	}
	return s, fmt.Sprintf("127.0.0.1:%d", a.(*syscall.SockaddrInet4).Port), nil
}

func up(s int) (net.Listener, error) {
	if err := syscall.Listen(s, 128); err != nil {
		return nil, err
	}
	f := os.NewFile(uintptr(s), "listener")
	defer f.Close()
	return net.FileListener(f)
}

type plan struct {
	Conf                       tracing.Conf
	Down                       bool
	Segments, Workers, Tracers int
}

func TestReported(t *testing.T) {
	vk.Rule("generated configurations against two recording collectors on loopback; segments made through the middleware, the client helper and local spans by 1..8 goroutines; some collectors come up only later")
	run := func(c *vk.Case, down bool) {
		p := plan{Down: down, Tracers: 1 + c.Intn(4), Workers: 1 + c.Intn(8), Segments: []int{8, 50, 400, 3000}[c.Intn(4)]}
		// two collectors, and one that nobody asks for
		cols := make([]*collector, 3)
		addrs := make([]string, 3)
		var socks [2]int
		for i := range cols {
			if down && i < 2 {
				var err error
				if socks[i], addrs[i], err = reserve(); err != nil {
					vk.Inconclusive("bind: %v", err)
					return
				}
				continue
			}
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				vk.Inconclusive("listen: %v", err)
				return
			}
			addrs[i] = l.Addr().String()
			cols[i] = newCollector(l)
			defer cols[i].srv.Stop()
		}
		type one struct {
			conf *tracing.Conf
			col  int
			name string
			tee  *tee
			want map[string]int
			n    int
		}
		var all []*one
		used := map[string]bool{}
		for i := 0; i < p.Tracers; i++ {
			k := c.Intn(2)
			conf := &tracing.Conf{ServerAddr: addrs[k], ServiceName: words[c.Intn(len(words))], ServiceNamespace: words[c.Intn(len(words))], ServiceInstance: words[c.Intn(len(words))]}
			name := conf.ServiceNamespace + "::" + conf.ServiceName
			if used[name] {
				continue
			}
			used[name] = true
			before := *conf
			rep, err := reporter(conf)
			if err != nil || rep == nil {
				c.Violate("no reporter for a usable configuration", fmt.Sprintf("%v: %v, %v", conf, rep, err))
				return
			}
			x := &one{conf: conf, col: k, name: name, tee: &tee{Reporter: rep}, want: map[string]int{}}
			tr, err := tracing.NewTracer(conf, x.tee)
			if err != nil || tr == nil {
				c.Violate("no tracer for a usable configuration", fmt.Sprintf("%v: %v", conf, err))
				return
			}
			if *conf != before {
				c.Violate("the configuration was changed", fmt.Sprintf("%v -> %v", &before, conf))
			}
			drive(c, tr, p.Segments, p.Workers)
			x.n = p.Segments / p.Workers * p.Workers
			all = append(all, x)
		}
		p.Conf = *all[0].conf
		c.Sample(p)
		// wait until the tracers handed over everything
		for _, x := range all {
			segs, ok := x.tee.rec.Take(x.n)
			if !ok {
				c.Violate("finished spans did not reach the reporter", map[string]interface{}{"plan": p, "made": x.n, "reported": len(segs)})
				return
			}
			for _, s := range segs {
				x.want[flat(s)]++
			}
		}
		finish := func() {
			for _, x := range all {
				x.tee.Reporter.Close()
			}
			// let the clients disconnect before the servers go
			for end := time.Now().Add(5 * time.Second); time.Now().Before(end); time.Sleep(time.Millisecond) {
				n := 0
				for _, k := range cols {
					if k != nil {
						k.mu.Lock()
						n += k.open
						k.mu.Unlock()
					}
				}
				if n == 0 {
					break
				}
			}
		}
		if down {
			for i := 0; i < 2; i++ {
				l, err := up(socks[i])
				if err != nil {
					vk.Inconclusive("listen: %v", err)
					return
				}
				cols[i] = newCollector(l)
				defer cols[i].srv.Stop()
			}
		}
		total := [3]int{}
		for _, x := range all {
			total[x.col] += x.n
		}
		for i, k := range cols {
			eventually(func() bool {
				k.mu.Lock()
				defer k.mu.Unlock()
				return len(k.segs) >= total[i]
			})
		}
		seen := func(kind string, x *one) bool {
			col := cols[x.col]
			col.mu.Lock()
			defer col.mu.Unlock()
			if x.conf.ServiceInstance == "" {
				for k := range col.who {
					if strings.HasPrefix(k, kind+x.name+"|") && len(k) > len(kind+x.name+"|") {
						return true
					}
				}
				return false
			}
			return col.who[kind+x.name+"|"+x.conf.ServiceInstance] > 0
		}
		if !down {
			for _, x := range all {
				col := cols[x.col]
				for _, kind := range []string{"properties ", "ping "} {
					if !eventually(func() bool { return seen(kind, x) }) {
						col.mu.Lock()
						got := fmt.Sprint(col.who)
						col.mu.Unlock()
						c.Violate("the instance did not announce itself", map[string]interface{}{"what": kind, "conf": x.conf.String(), "got": got})
						return
					}
				}
				if !eventually(func() bool { col.mu.Lock(); defer col.mu.Unlock(); return col.who["config "+x.name] > 0 }) {
					c.Violate("dynamic configuration was not asked for", map[string]interface{}{"conf": x.conf.String()})
					return
				}
			}
		}
		finish() // which sends nothing twice
		n := 0
		for i, col := range cols {
			col.mu.Lock()
			got := map[string]map[string]int{}
			inst := map[string]map[string]bool{}
			for _, o := range col.segs {
				if got[o.Service] == nil {
					got[o.Service] = map[string]int{}
					inst[o.Service] = map[string]bool{}
				}
				got[o.Service][flatObj(o)]++
				inst[o.Service][o.ServiceInstance] = true
			}
			n += len(col.segs)
			stray := ""
			for k := range col.who {
				stray = k
			}
			conns := col.conns
			col.mu.Unlock()
			clients := 0
			for _, x := range all {
				if x.col != i {
					continue
				}
				clients++
				g := got[x.name]
				if !reflect.DeepEqual(g, x.want) {
					var missing, extra []string
					for k, v := range x.want {
						if g[k] < v {
							missing = append(missing, k)
						}
					}
					for k, v := range g {
						if x.want[k] < v {
							extra = append(extra, k)
						}
					}
					sort.Strings(missing)
					var svc []string
					for s := range got {
						svc = append(svc, s)
					}
					c.Violate("the collector did not get exactly the finished segments", map[string]interface{}{"plan": p, "conf": x.conf.String(), "made": x.n, "missing": len(missing), "extra": len(extra), "first missing": short(missing), "first extra": short(extra), "services seen": svc})
					return
				}
				is := inst[x.name]
				if len(is) != 1 || is[""] || x.conf.ServiceInstance != "" && !is[x.conf.ServiceInstance] {
					c.Violate("segments carry the wrong instance", map[string]interface{}{"conf": x.conf.String(), "got": fmt.Sprint(is)})
					return
				}
				delete(got, x.name)
			}
			if len(got) > 0 {
				c.Violate("segments under a name or at an address that was not configured", fmt.Sprint(len(got)))
			}
			if clients == 0 && conns > 0 {
				c.Violate("a collector nobody is configured for was connected to", map[string]interface{}{"plan": p, "got": stray})
			}
		}
		vk.Count("segments", n)
		vk.Count("tracers", len(all))
		c.Observed(fmt.Sprint(p, all[0].name, len(all)))
	}
	missed := 0
	vk.Cases("reported", vk.N(320, 6000), func(c *vk.Case) {
		if late {
			missed++
		}
		if missed < 3 {
			run(c, false)
		}
	})
	vk.Cases("later", vk.N(8, 100), func(c *vk.Case) {
		if !late { // a run that has failed need not wait for more
			run(c, true)
		}
	})
}

// conns counts the process's sockets.
func conns() int {
	n := 0
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && len(l) > 7 && l[:7] == "socket:" {
			n++
		}
	}
	return n
}

func exit(tr *go2sky.Tracer, req *fasthttp.Request, i int) {
	h := client.NewClientSpanHelper(tr)
	s, err := h.CreateSpan(context.Background(), req)
	if err != nil {
		return
	}
	if i%2 == 0 {
		h.EndSpanError(s, io.EOF)
		return
	}
	res := &fasthttp.Response{}
	h.EndSpan(s, res)
}
