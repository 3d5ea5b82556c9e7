// Monitor of P31: what long use and ended work leave behind. The heap and the
// goroutines are measured after long churns, and the redis after every call.
package p31

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/SkyAPM/go2sky"
	"github.com/chanjarster/gears/circuitbreaker"
	"github.com/chanjarster/gears/concurrent"
	"github.com/chanjarster/gears/confs"
	"github.com/chanjarster/gears/confstore"
	"github.com/chanjarster/gears/event"
	"github.com/chanjarster/gears/ratelimiter"
	"github.com/chanjarster/gears/schedule"
	helper "github.com/chanjarster/gears/skywalking/fasthttp"
	mw "github.com/chanjarster/gears/skywalking/fasthttp-routing"
	hook "github.com/chanjarster/gears/skywalking/redis"
	"github.com/go-redis/redis/v7"
	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"
	"verif/harness/fakeredis"
	"verif/harness/vk"
)

func TestMain(m *testing.M) {
	redis.SetLogger(log.New(io.Discard, "", 0))
	vk.Main(m, "P31")
}

// live counts the objects on the heap that are still in use, and their bytes.
func live() (objects, bytes int64) {
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return int64(m.Mallocs - m.Frees), int64(m.HeapAlloc)
}

// subject is something used for long: each step is one piece of work that is
// over when it returns (or at the latest once settle returned).
type subject struct {
	name   string
	step   func(i int)
	settle func() // lets what was started come to its end
	end    func() // stops the subject itself
	n      int    // pieces of work per round
	quiet  bool   // starts no goroutines, so that its bytes can be measured too
}

func run(c *vk.Case, s subject) {
	settle := func() {
		synctest.Wait()
		if s.settle != nil {
			s.settle()
			synctest.Wait()
		}
	}
	next := 0
	do := func(n int) {
		for i := 0; i < n; i++ {
			s.step(next)
			synctest.Wait()
			next++
			if next%50 == 0 { // so that as much is under way in every round
				settle()
				vk.Tick()
			}
		}
		settle()
	}
	do(s.n) // fills pools, buffers and windows
	type grown struct{ objects, bytes, goroutines int64 }
	growth := func(n int) grown {
		o, b := live()
		g := runtime.NumGoroutine()
		do(n)
		g2 := runtime.NumGoroutine()
		o2, b2 := live()
		return grown{o2 - o, b2 - b, int64(g2 - g)}
	}
	// an object per 6 uses, 4 bytes per use or a goroutine per 20 uses
	objects := func(g grown, n int) bool { return g.objects*6 > int64(n) }
	bytes := func(g grown, n int) bool { return s.quiet && g.bytes > 4*int64(n)+1024 }
	goroutines := func(g grown, n int) bool { return g.goroutines*20 > int64(n) }
	g1 := growth(s.n)
	if s.quiet {
		vk.Max("max_growth_bytes_per_1000", int(g1.bytes*1000/int64(s.n)))
	}
	if objects(g1, s.n) || bytes(g1, s.n) || goroutines(g1, s.n) {
		vk.Count("measured again: "+strings.Fields(s.name)[0], 1)
		g2 := growth(2 * s.n)
		det := map[string]interface{}{"subject": s.name, "rounds of": s.n, "more after one round": fmt.Sprintf("%+v", g1), "after two more": fmt.Sprintf("%+v", g2)}
		mem := objects(g2, 2*s.n) || bytes(g1, s.n) && bytes(g2, 2*s.n)
		rout := goroutines(g1, s.n) && goroutines(g2, 2*s.n)
		if mem || rout {
			// once more, long: what the runtime keeps of dead goroutines and
			// pools levels off, what is leaked does not
			n := 6 * s.n
			g3 := growth(n)
			det["after six more"] = fmt.Sprintf("%+v", g3)
			if mem && (objects(g3, n) || bytes(g3, n)) {
				c.Violate("memory grows with use", det)
			}
			if rout && goroutines(g3, n) {
				det["now"] = clip(vk.GearsGoroutines())
				c.Violate("goroutines pile up with use", det)
			}
		}
	}
	vk.Max("max_growth_objects_per_1000", int(g1.objects*1000/int64(s.n)))
	if s.end != nil {
		s.end()
	}
	settle()
	var left []string
	for _, g := range vk.GearsGoroutines() {
		if !strings.Contains(g, "p31.run(") {
			left = append(left, g)
		}
	}
	if len(left) > 0 {
		c.Violate("a goroutine is left after everything was stopped", map[string]interface{}{"subject": s.name, "goroutines": clip(left)})
		vk.Abort() // the bubble cannot end
	}
	vk.Count("work", next)
	c.Sample(s.name)
	c.Observed(s.name)
}

func clip(s []string) []string {
	if len(s) > 3 {
		s = s[:3]
	}
	return s
}

func dur(c *vk.Case) time.Duration {
	return []time.Duration{time.Millisecond, 50 * time.Millisecond, time.Second, time.Minute, 10 * time.Hour}[c.Intn(5)]
}

func TestChurn(t *testing.T) {
	vk.Rule("each component used thousands of times with generated parameters, one piece of work after another; live heap objects and goroutines counted before and after, and the goroutines left once everything is stopped")
	group := func(name string, quick, thor int, f func(c *vk.Case) subject) {
		vk.Cases(name, vk.N(quick, thor), func(c *vk.Case) {
			synctest.Test(t, func(t *testing.T) {
				s := f(c)
				switch name {
				case "limiters", "breakers", "stores", "pprof":
					s.quiet = true
				}
				if s.n == 0 {
					s.n = 1500
				}
				s.n = s.n/2 + c.Intn(s.n)
				run(c, s)
			})
		})
	}
	group("receivers", 60, 1500, receivers)
	group("buses", 30, 800, buses)
	group("manager", 40, 1000, manager)
	group("jobs", 60, 1500, jobs)
	group("limiters", 120, 1500, limiters)
	group("semaphores", 40, 800, semaphores)
	group("breakers", 40, 800, breakers)
	group("stores", 50, 1200, stores)
	group("traced", 40, 1000, traced)
	group("hooked", 30, 600, hooked)
	group("pprof", 20, 400, pprof)
}

// receivers come and go on one bus.
func receivers(c *vk.Case) subject {
	buf, rbuf := c.Intn(3), c.Intn(4)
	b := event.NewFanOutBus(buf)
	b.GoDispatch()
	strategy := event.FullStrategy(c.Intn(2))
	how := c.Intn(5)
	fresh := c.Intn(2) == 0
	names := []string{"a", "b"}
	name := func(i int) string {
		if fresh {
			return "r" + strconv.Itoa(i)
		}
		return names[i%2]
	}
	var keep *event.Receiver
	if c.Intn(2) == 0 { // someone who never reads
		keep = b.NewRecv("slow", 5)
	}
	return subject{
		name: fmt.Sprintf("receivers how%d strategy%d fresh%v buf%d/%d", how, strategy, fresh, buf, rbuf),
		step: func(i int) {
			switch how {
			case 0: // closed
				r := b.NewRecvStrategy(name(i), rbuf, strategy)
				r.Close()
			case 1: // closed with events inside or being delivered
				r := b.NewRecvStrategy(name(i), rbuf, strategy)
				b.C <- i
				synctest.Wait()
				r.Close()
			case 2: // replaced by the next of its name
				r := b.NewRecvStrategy("same", rbuf, strategy)
				b.C <- i
				synctest.Wait()
				_ = r
			case 3: // read by somebody until it is closed
				r := b.NewRecvStrategy(name(i), rbuf, strategy)
				go func() {
					for range r.C {
					}
				}()
				b.C <- i
				if i%2 == 0 {
					synctest.Wait()
				}
				r.Close()
				r.Close()
				synctest.Wait()
			case 4: // collected with a long timeout, closed meanwhile
				r := b.NewRecvStrategy(name(i), rbuf, strategy)
				go r.CollectTimeout(10 * time.Hour)
				b.C <- i
				synctest.Wait()
				r.Close()
				r.Drain()
			}
		},
		end: func() {
			b.Close()
			if keep != nil {
				keep.Drain()
			}
		},
	}
}

// buses come and go.
func buses(c *vk.Case) subject {
	n, k, rbuf := c.Intn(3), 1+c.Intn(3), c.Intn(3)
	events := c.Intn(4)
	return subject{
		name: fmt.Sprintf("buses buf%d recvs%d/%d events%d", n, k, rbuf, events),
		n:    600,
		step: func(i int) {
			b := event.NewFanOutBus(n)
			b.GoDispatch()
			for j := 0; j < k; j++ {
				b.NewRecvStrategy("r"+strconv.Itoa(j), rbuf, event.FullStrategy((i+j)%2))
			}
			for e := 0; e < events; e++ {
				select { // nobody reads: the dispatcher may be stuck with a Block receiver
				case b.C <- e:
				default:
				}
				synctest.Wait()
			}
			b.Close()
			synctest.Wait()
		},
	}
}

func newTask(c *vk.Case, rate bool, name string, job schedule.JobFunc, interval, timeout time.Duration) schedule.Task {
	if rate {
		return schedule.NewFixedRateTask(name, job, interval, timeout)
	}
	return schedule.NewFixedDelayTask(name, job, interval, timeout)
}

// manager registers and drops tasks.
func manager(c *vk.Case) subject {
	m := schedule.NewTaskManager()
	rate := c.Intn(2) == 0
	interval, timeout := dur(c), dur(c)
	wait := c.Intn(4)
	fresh := c.Intn(2) == 0
	long := c.Intn(2) == 0
	all := c.Intn(4) == 0
	job := func(cancel <-chan struct{}) error {
		if long {
			<-cancel
		}
		return nil
	}
	return subject{
		name: fmt.Sprintf("manager rate%v interval%v timeout%v wait%d fresh%v long%v all%v", rate, interval, timeout, wait, fresh, long, all),
		n:    600,
		step: func(i int) {
			name := "t"
			if fresh {
				name = "t" + strconv.Itoa(i)
			}
			if err := m.Register(newTask(c, rate, name, job, interval, timeout)); err != nil {
				c.Violate("a name cannot be used again after its task was dropped", err.Error())
			}
			m.Register(newTask(c, rate, name, job, interval, timeout)) // refused
			switch wait {
			case 1:
				synctest.Wait()
			case 2:
				time.Sleep(interval)
			case 3:
				time.Sleep(interval + interval/2)
			}
			if all {
				m.UnregisterAll()
			} else {
				m.Unregister(name)
			}
		},
		settle: func() { time.Sleep(interval + timeout + time.Second) },
	}
}

// jobs run again and again in one task.
func jobs(c *vk.Case) subject {
	rate := c.Intn(2) == 0
	interval, timeout := dur(c), dur(c)
	style := c.Intn(4)
	if style == 2 { // runs until its timeout
		timeout = interval * time.Duration(1+c.Intn(3))
	}
	var ran atomic.Int64
	var kept [4]atomic.Value
	task := newTask(c, rate, "t", func(cancel <-chan struct{}) error {
		i := ran.Add(1)
		switch style {
		case 0:
			return nil
		case 1:
			time.Sleep(interval / 2)
			return errors.New("failed")
		case 2:
			<-cancel
		case 3:
			kept[i%4].Store(cancel)
		}
		return nil
	}, interval, timeout)
	task.MustStart()
	return subject{
		name: fmt.Sprintf("jobs rate%v interval%v timeout%v style%d", rate, interval, timeout, style),
		n:    1000,
		step: func(i int) { time.Sleep(interval) },
		end: func() {
			task.MustStop()
			time.Sleep(2*interval + timeout)
			if ran.Load() == 0 {
				vk.Count("never_ran", 1)
			}
			vk.Count("jobs", int(ran.Load()))
		},
	}
}

func limiters(c *vk.Case) subject {
	n := c.Intn(50)
	if c.Intn(3) == 0 {
		n = 0 // a sliding window without limit
	}
	w := dur(c)
	var l ratelimiter.Interface
	kind := c.Intn(4)
	switch kind {
	case 0:
		l = ratelimiter.NewSyncTokenBucket(n, 1+c.Intn(100))
	case 1:
		l = ratelimiter.NewAtomicTokenBucket(n, 1+c.Intn(100))
	case 2:
		l = ratelimiter.NewSyncSlidingWindow(n, w)
	case 3:
		l = ratelimiter.NewSyncFixedWindow(n, w)
	}
	pause := []time.Duration{0, time.Microsecond, w / time.Duration(n+1), w / time.Duration(2*n+1), w}[c.Intn(5)]
	conf := c.Intn(3) == 0
	granted := 0
	return subject{
		name: fmt.Sprintf("limiter%d n%d w%v pause%v conf%v", kind, n, w, pause, conf),
		n:    4000,
		step: func(i int) {
			if l.Acquire() {
				granted++
			}
			l.Capacity()
			if conf && i%7 == 0 {
				if s, ok := l.(ratelimiter.Configurable); ok {
					s.SetCapacity(1 + i%50)
				}
				if s, ok := l.(ratelimiter.ConfigurableWindow); ok {
					s.UpdateConfig(1+i%50, w)
				}
			}
			if pause > 0 {
				time.Sleep(pause)
			}
		},
		end: func() { vk.Count("granted", granted) },
	}
}

func semaphores(c *vk.Case) subject {
	permits := int64(1 + c.Intn(4))
	var s concurrent.Semaphore = concurrent.NewChanSemaphore(permits)
	kind := c.Intn(2)
	if kind == 0 {
		s = concurrent.NewLockSemaphore(permits)
	}
	how := c.Intn(3)
	return subject{
		name: fmt.Sprintf("semaphore%d permits%d how%d", kind, permits, how),
		n:    2000,
		step: func(i int) {
			switch how {
			case 0:
				s.Acquire()
				s.Release()
				s.Release() // nothing to give back
			case 1:
				got := 0
				for j := int64(0); j < permits+2; j++ {
					if s.TryAcquire() {
						got++
					}
				}
				for ; got > 0; got-- {
					s.Release()
				}
			case 2: // somebody has to wait
				for j := int64(0); j < permits; j++ {
					s.Acquire()
				}
				go func() { s.Acquire(); s.Release() }()
				synctest.Wait()
				for j := int64(0); j < permits; j++ {
					s.Release()
				}
			}
		},
	}
}

func breakers(c *vk.Case) subject {
	reset := dur(c)
	b := circuitbreaker.NewSyncCircuitBreaker(1+c.Intn(3), reset)
	style := c.Intn(4)
	boom := errors.New("boom")
	pause := []time.Duration{0, reset / 3, reset + 1}[c.Intn(3)]
	return subject{
		name: fmt.Sprintf("breaker reset%v style%d pause%v", reset, style, pause),
		n:    3000,
		step: func(i int) {
			b.Do(func() error {
				switch style {
				case 0:
					return nil
				case 1:
					return boom
				case 2:
					if i%3 > 0 {
						return boom
					}
				case 3:
					if i%5 == 0 {
						return fmt.Errorf("%d: %w", i, boom)
					}
				}
				return nil
			}, func(error) {}, func() {})
			if pause > 0 {
				time.Sleep(pause)
			}
		},
	}
}

type persister struct{ m map[string]string }

func (p persister) Load(s confstore.Interface) error {
	for k, v := range p.m {
		s.UpdateNoPersist(k, v)
	}
	return nil
}
func (p persister) Save(k, v string) error { p.m[k] = v; return nil }
func (p persister) BatchSave(kv []*confstore.KVStr) error {
	for _, x := range kv {
		p.m[x.Key] = x.Value
	}
	return nil
}
func (p persister) Delete(k string) error { delete(p.m, k); return nil }

func stores(c *vk.Case) subject {
	var p confstore.Persister = confstore.NoopPersister
	pk := c.Intn(2)
	if pk == 1 {
		p = persister{map[string]string{}}
	}
	lk := c.Intn(4)
	policy := []confstore.LoadPolicy{confstore.NoopLoadPolicy, confstore.NewSimpleLoadPolicy(), confstore.NewLoadPolicy(0), confstore.NewLoadPolicy(dur(c))}[lk]
	s := confstore.NewStore(p, policy)
	how := c.Intn(6)
	keys := []string{"a", "b", "c"}
	for _, k := range keys {
		s.RegisterKey(k, "1", confstore.Int)
	}
	if lk == 1 {
		policy.DoLoad(s, p)
	}
	return subject{
		name: fmt.Sprintf("store persister%d policy%d how%d", pk, lk, how),
		n:    2000,
		step: func(i int) {
			k, v := keys[i%3], strconv.Itoa(i)
			switch how {
			case 0:
				s.Update(k, v)
				s.GetValue(k)
			case 1: // a key for a while
				k := "k" + v
				s.RegisterKey(k, "1", confstore.Int)
				s.Update(k, v)
				s.GetValueString(k)
				s.ResetKey(k)
				s.DeregisterKey(k)
			case 2: // nobody knows the key, or the value is bad
				s.Update("k"+v, v)
				s.UpdateNoPersist("k"+v, v)
				s.Update(k, "x"+v)
				s.GetValue("k" + v)
				s.ResetKey("k" + v)
				s.DeregisterKey("k" + v)
				s.BatchUpdate([]*confstore.KVStr{{Key: "u" + v, Value: v}, {Key: k, Value: "y" + v}})
			case 3:
				s.BatchUpdate([]*confstore.KVStr{{Key: "a", Value: v}, {Key: "b", Value: v}, {Key: "nope" + v, Value: v}})
				s.BatchGetValues(keys)
				s.BatchGetValueString(append(keys, "none"+v))
			case 4:
				s.ResetKey(k)
				s.RegisterKey(k, v, confstore.IntGtZero)
				s.UpdateNoPersist(k, v)
			case 5:
				policy.DoLoad(s, p)
				s.BatchGetValues(keys)
				time.Sleep(time.Second)
			}
		},
	}
}

type drop struct{}

func (drop) Boot(string, string, []go2sky.AgentConfigChangeWatcher) {}
func (drop) Send([]go2sky.ReportedSpan)                             {}
func (drop) Close()                                                 {}

func tracer() *go2sky.Tracer {
	t, err := go2sky.NewTracer("p31", go2sky.WithReporter(drop{}), go2sky.WithInstance("i"))
	if err != nil {
		panic(err)
	}
	return t
}

// traced serves and sends requests.
func traced(c *vk.Case) subject {
	tr := tracer()
	if c.Intn(6) == 0 {
		tr = nil
	}
	how := c.Intn(6)
	router := routing.New()
	var opts []mw.Option
	var hopts []helper.Option
	if c.Intn(2) == 0 {
		opts = append(opts, mw.WithLogError(), mw.WithLog4xxBody())
		hopts = append(hopts, helper.WithLogError(), helper.WithLog4xxBody())
	}
	router.Use(mw.NewMiddleware(tr, opts...))
	router.Any("/ok", func(x *routing.Context) error { x.SetBodyString("ok"); return nil })
	router.Any("/err", func(x *routing.Context) error { return errors.New("boom") })
	router.Any("/panic", func(x *routing.Context) error { panic("boom") })
	h := helper.NewClientSpanHelper(tr, hopts...)
	reuse := &fasthttp.RequestCtx{}
	same := c.Intn(2) == 0 // a server reuses its request contexts
	return subject{
		name: fmt.Sprintf("traced how%d tracer%v reuse%v opts%d", how, tr != nil, same, len(opts)),
		n:    1000,
		step: func(i int) {
			if how >= 4 {
				req := &fasthttp.Request{}
				req.SetRequestURI("http://h/p" + strconv.Itoa(i))
				s, err := h.CreateSpan(context.Background(), req)
				if err != nil {
					return
				}
				if how == 5 {
					h.EndSpanError(s, errors.New("boom"))
					return
				}
				res := &fasthttp.Response{}
				res.SetStatusCode(200 + 100*(i%4))
				h.EndSpan(s, res)
				return
			}
			x, q := reuse, &fasthttp.Request{}
			if !same {
				x = &fasthttp.RequestCtx{}
			} else {
				x.ResetUserValues()
				x.Response.Reset()
			}
			q.SetRequestURI("http://h/" + []string{"ok", "err", "panic", "nowhere"}[how] + "?i=" + strconv.Itoa(i))
			x.Init(q, nil, nil)
			vk.Catch(func() { router.HandleRequest(x) })
		},
	}
}

// hooked sends redis commands through the tracing hook.
func hooked(c *vk.Case) subject {
	tr := tracer()
	h := hook.NewHook(tr, hook.WithAddr("a:1"), hook.WithLogError(), hook.WithArgsReport())
	how := c.Intn(5)
	boom := errors.New("boom")
	return subject{
		name: fmt.Sprintf("hooked how%d", how),
		n:    1000,
		step: func(i int) {
			ctx := context.Background()
			a, b := redis.NewStringCmd("get", "x"+strconv.Itoa(i)), redis.NewStringCmd("get", "y"+strconv.Itoa(i))
			if how%2 == 1 {
				a.SetErr(boom)
			}
			if how < 2 {
				if ctx, err := h.BeforeProcess(ctx, a); err == nil {
					h.AfterProcess(ctx, a)
				}
				return
			}
			if how == 4 {
				b.SetErr(redis.Nil)
			}
			if ctx, err := h.BeforeProcessPipeline(ctx, []redis.Cmder{a, b}); err == nil {
				h.AfterProcessPipeline(ctx, []redis.Cmder{a, b})
			}
		},
	}
}

func pprof(c *vk.Case) subject {
	cf := &confs.PprofConf{Username: "u", Password: "p"}
	if c.Intn(4) == 0 {
		cf.Password = ""
	}
	router := routing.New()
	router.Any("/*", confs.NewFasthttpRoutingPprofHandler(cf))
	return subject{
		name: "pprof " + cf.Password,
		n:    1000,
		step: func(i int) {
			x := &fasthttp.RequestCtx{}
			x.Request.SetRequestURI("http://h/debug/pprof/cmdline")
			x.Request.Header.Set("Authorization", []string{"", "Basic dTpw", "Basic dTp4" + strconv.Itoa(i), "Bearer"}[i%4])
			router.HandleRequest(x)
		},
	}
}

type params struct{ cap, win, exp int }

func (p *params) GetWindowSizeSeconds() int { return p.win }
func (p *params) GetCapacity() int          { return p.cap }
func (p *params) GetTimeoutSeconds() int    { return p.exp }

// TestRedis: what the redis limiter keeps in the server.
func TestRedis(t *testing.T) {
	vk.Rule("redis limiters over many keys in virtual time; every key in the server is looked at after every call and after long silence")
	vk.Cases("redis", vk.N(400, 12000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) {
			srv := fakeredis.New()
			srv.NoLog = true
			cl := redis.NewClient(&redis.Options{Dialer: srv.Dial, MaxRetries: -1, IdleCheckFrequency: -1})
			defer srv.Close()
			defer cl.Close()
			ratelimiter.LoadScript(cl)
			p := &params{1 + c.Intn(6), 1 + c.Intn(20), 1 + c.Intn(20)}
			l := ratelimiter.NewRedisTtlRateLimiter(cl, p)
			if c.Intn(2) == 0 {
				l = ratelimiter.NewRedisTtlRateLimiterCluster(cl, p, "tag")
			}
			top := *p
			users := 1 + c.Intn(6)
			max := 0
			shared := c.Intn(2) == 0
			steps := 60
			for i := 0; i < steps; i++ {
				if c.Intn(10) == 0 {
					*p = params{1 + c.Intn(6), 1 + c.Intn(20), 1 + c.Intn(20)}
					if p.cap > top.cap {
						top.cap = p.cap
					}
					if p.win > top.win {
						top.win = p.win
					}
					if p.exp > top.exp {
						top.exp = p.exp
					}
				}
				k := "u" + strconv.Itoa(c.Intn(users))
				switch {
				case c.Intn(5) == 0:
					l.IsBlocked(k)
				case shared:
					l.ShouldBlock2(k, "all", "m")
				default:
					l.ShouldBlock(k, "m")
				}
				limit := int64(1000 * (60 + 4*(top.win+top.exp)))
				for key := range srv.Dump(0) {
					ttl, ok := num(srv.Do(0, "PTTL", key))
					if !ok {
						vk.Inconclusive("PTTL of %q: no number", key)
						return
					}
					if ttl < 0 {
						c.Violate("a key in the redis server never expires", map[string]interface{}{"key": key, "params": fmt.Sprint(*p), "step": i})
						return
					}
					if ttl > limit {
						c.Violate("a key in the redis server outlives all use", map[string]interface{}{"key": key, "ttl ms": ttl, "longest window and timeout": fmt.Sprint(top)})
						return
					}
					if n, ok := num(srv.Do(0, "LLEN", key)); ok {
						vk.Count("lists_measured", 1)
						if int(n) > top.cap {
							c.Violate("a request key holds more than capacity entries", map[string]interface{}{"key": key, "entries": n, "largest capacity": top.cap})
							return
						}
						if int(n) > max {
							max = int(n)
						}
					}
					vk.Count("keys_looked_at", 1)
				}
				if c.Intn(3) > 0 {
					time.Sleep(time.Duration(c.Intn(3000)) * time.Millisecond)
				}
			}
			time.Sleep(time.Duration(60+4*(top.win+top.exp)+1) * time.Second)
			if d := srv.Dump(0); len(d) > 0 {
				c.Violate("the redis server keeps keys nobody uses", fmt.Sprint(d))
			}
			c.Observed(fmt.Sprint(top, users, shared, max))
		})
	})
}

func num(v interface{}) (int64, bool) {
	switch x := v.(type) {
	case int:
		return int64(x), true
	case int64:
		return x, true
	}
	return 0, false
}
