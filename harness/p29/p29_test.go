// Monitor of P29: every shared component used by many goroutines through all
// its methods, under the race detector. Nothing of the harness is shared
// between the goroutines of a case but what they storm, so that it orders
// nothing by accident.
package p29

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/SkyAPM/go2sky"
	"github.com/chanjarster/gears/circuitbreaker"
	"github.com/chanjarster/gears/concurrent"
	"github.com/chanjarster/gears/confs"
	"github.com/chanjarster/gears/confstore"
	"github.com/chanjarster/gears/dto"
	"github.com/chanjarster/gears/event"
	"github.com/chanjarster/gears/ratelimiter"
	"github.com/chanjarster/gears/schedule"
	helper "github.com/chanjarster/gears/skywalking/fasthttp"
	mw "github.com/chanjarster/gears/skywalking/fasthttp-routing"
	hook "github.com/chanjarster/gears/skywalking/redis"
	rsautil "github.com/chanjarster/gears/util/rsa"
	"github.com/gin-gonic/gin"
	"github.com/go-redis/redis/v7"
	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"
	"verif/harness/fakeredis"
	"verif/harness/keys"
	"verif/harness/spans"
	"verif/harness/vk"
)

func TestMain(m *testing.M) {
	gin.SetMode(gin.ReleaseMode)
	gin.DefaultWriter, gin.DefaultErrorWriter = io.Discard, io.Discard
	log.SetOutput(io.Discard)
	redis.SetLogger(log.New(io.Discard, "", 0))
	vk.Main(m, "P29")
}

// op is one operation of a component.
type op struct {
	name string
	do   func(r *rand.Rand)
}

// must lets through the documented panics of Must methods.
func must(f func()) {
	defer func() {
		if p := recover(); p != nil {
			if re, bad := p.(runtime.Error); bad {
				panic(re)
			}
		}
	}()
	f()
}

// storm runs random operations from several goroutines at once. Each
// goroutine has its own generator, and they meet only at the start.
func storm(c *vk.Case, maxOps int, ops []op) {
	n := 2 + c.Intn(7)
	style := c.Intn(4) // 0: any mix; 1: one operation per goroutine; 2: a pair of operations only; 3: any mix, few calls
	pair := [2]int{c.Intn(len(ops)), c.Intn(len(ops))}
	count := 1 + c.Intn(maxOps)
	if style == 3 {
		count = 1 + c.Intn(3)
	}
	start := make(chan struct{})
	type crash struct {
		op    string
		value interface{}
	}
	crashes := make([]crash, n)
	used := make([]map[string]bool, n)
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		r := rand.New(rand.NewSource(c.Int63()))
		own := c.Intn(len(ops))
		u := map[string]bool{}
		used[g] = u
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := 0; i < count; i++ {
				k := r.Intn(len(ops))
				switch style {
				case 1:
					k = own
				case 2:
					k = pair[r.Intn(2)]
				}
				u[ops[k].name] = true
				if p, bad := vk.Catch(func() { ops[k].do(r) }); bad {
					crashes[g] = crash{ops[k].name, p}
					return
				}
				switch r.Intn(12) {
				case 0:
					runtime.Gosched()
				case 1:
					time.Sleep(time.Duration(r.Intn(30)) * time.Microsecond)
				}
			}
		}()
	}
	vk.Tick()
	close(start)
	wg.Wait()
	for _, x := range crashes {
		if x.op != "" {
			c.Violate("a concurrent call panicked", fmt.Sprintf("%s: %v", x.op, x.value))
		}
	}
	// which operations ran at once
	var names []string
	for _, o := range ops {
		k := 0
		for _, u := range used {
			if u[o.name] {
				k++
			}
		}
		if k > 0 {
			vk.Count("goroutines calling "+o.name, k)
			if k > 2 {
				k = 2
			}
			names = append(names, fmt.Sprint(o.name, k))
		}
	}
	c.Observed(strings.Join(names, " "))
	c.Sample(map[string]interface{}{"goroutines": n, "calls each": count, "style": style, "operations": names})
}

func TestBreaker(t *testing.T) {
	vk.Rule("breakers: succeeding, failing and panicking tasks, reset times from 0 to 1 ms")
	vk.Cases("breaker", vk.N(600*5, 6000*4), func(c *vk.Case) {
		b := circuitbreaker.NewSyncCircuitBreaker(1+c.Intn(4), time.Duration(c.Intn(1000))*time.Microsecond)
		var iface circuitbreaker.Interface = b
		boom := errors.New("boom")
		storm(c, 60, []op{
			{"Do ok", func(r *rand.Rand) { b.Do(func() error { return nil }, func(error) {}, func() {}) }},
			{"Do fail", func(r *rand.Rand) { iface.Do(func() error { return boom }, func(error) {}, func() {}) }},
			{"Do slow", func(r *rand.Rand) {
				b.Do(func() error { time.Sleep(time.Duration(r.Intn(100)) * time.Microsecond); return boom }, func(error) {}, func() { runtime.Gosched() })
			}},
			{"Do nested", func(r *rand.Rand) {
				b.Do(func() error { b.Do(func() error { return boom }, func(error) {}, func() {}); return nil }, func(error) {}, func() {})
			}},
			{"NeverOpen", func(r *rand.Rand) {
				circuitbreaker.NeverOpen.Do(func() error { return boom }, func(error) {}, func() {})
			}},
		})
	})
}

func TestSemaphore(t *testing.T) {
	vk.Rule("semaphores of both kinds, data guarded by a one-permit semaphore")
	vk.Cases("semaphore", vk.N(600*5, 6000*4), func(c *vk.Case) {
		permits := int64(1 + c.Intn(3))
		var s concurrent.Semaphore = concurrent.NewChanSemaphore(permits)
		if c.Intn(2) == 0 {
			s = concurrent.NewLockSemaphore(permits)
		}
		guarded := 0
		use := func() {
			if permits == 1 {
				guarded++ // the permit is all that orders this
			}
		}
		storm(c, 40, []op{
			{"Acquire", func(r *rand.Rand) { s.Acquire(); use(); s.Release() }},
			{"TryAcquire", func(r *rand.Rand) {
				if s.TryAcquire() {
					use()
					s.Release()
				}
			}},
			{"hold", func(r *rand.Rand) { s.Acquire(); use(); runtime.Gosched(); s.Release() }},
		})
	})
}

func TestLimiters(t *testing.T) {
	vk.Rule("token buckets and sliding and fixed windows, reconfigured while in use")
	vk.Cases("limiter", vk.N(900*5, 9000*4), func(c *vk.Case) {
		n := c.Intn(6)
		w := time.Duration(1+c.Intn(2000)) * time.Microsecond
		var ops []op
		add := func(name string, l ratelimiter.Interface) {
			ops = append(ops, op{name + " Acquire", func(*rand.Rand) { l.Acquire() }}, op{name + " Capacity", func(*rand.Rand) { l.Capacity() }})
			if s, ok := l.(ratelimiter.Configurable); ok {
				ops = append(ops, op{name + " SetCapacity", func(r *rand.Rand) { s.SetCapacity(r.Intn(8)) }})
			}
			if s, ok := l.(ratelimiter.ConfigurableWindow); ok {
				ops = append(ops, op{name + " UpdateConfig", func(r *rand.Rand) { s.UpdateConfig(1+r.Intn(6), time.Duration(1+r.Intn(2000))*time.Microsecond) }})
			}
			if s, ok := l.(interface{ WindowSize() time.Duration }); ok {
				ops = append(ops, op{name + " WindowSize", func(*rand.Rand) { s.WindowSize() }})
			}
		}
		switch c.Intn(4) {
		case 0:
			add("sync bucket", ratelimiter.NewSyncTokenBucket(n, c.Intn(50000)))
		case 1:
			add("atomic bucket", ratelimiter.NewAtomicTokenBucket(n, c.Intn(50000)))
		case 2:
			add("sliding", ratelimiter.NewSyncSlidingWindow(1+n, w))
		case 3:
			add("fixed", ratelimiter.NewSyncFixedWindow(1+n, w))
		}
		storm(c, 60, ops)
	})
	// many fresh limiters, walked side by side
	vk.Cases("fresh", vk.N(120, 1200), func(c *vk.Case) {
		var ls []ratelimiter.Interface
		for i := 0; i < 200; i++ {
			switch c.Intn(4) {
			case 0:
				ls = append(ls, ratelimiter.NewSyncTokenBucket(1+c.Intn(5), 1+c.Intn(5)))
			case 1, 2:
				ls = append(ls, ratelimiter.NewAtomicTokenBucket(1+c.Intn(5), 1+c.Intn(5)))
			case 3:
				ls = append(ls, ratelimiter.NewSyncSlidingWindow(1+c.Intn(5), time.Millisecond))
			}
		}
		start := make(chan struct{})
		var wg sync.WaitGroup
		n := 2 + c.Intn(4)
		for g := 0; g < n; g++ {
			r := rand.New(rand.NewSource(c.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, l := range ls {
					for i := 0; i <= r.Intn(3); i++ {
						l.Acquire()
					}
				}
			}()
		}
		vk.Tick()
		close(start)
		wg.Wait()
		c.Observed(fmt.Sprint("fresh ", n))
	})
	// token buckets issue once a second: let the storm run across that
	vk.Cases("issue", vk.N(8, 32), func(c *vk.Case) {
		var bs []ratelimiter.TokenBucket
		for i := 0; i < 40; i++ {
			bs = append(bs, ratelimiter.NewAtomicTokenBucket(1+c.Intn(20), 1+c.Intn(10)), ratelimiter.NewSyncTokenBucket(1+c.Intn(20), 1+c.Intn(10)))
		}
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			r := rand.New(rand.NewSource(c.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for end := time.Now().Add(1200 * time.Millisecond); time.Now().Before(end); {
					for i := 0; i < 50; i++ {
						bs[r.Intn(len(bs))].Acquire()
					}
					time.Sleep(50 * time.Microsecond)
				}
			}()
		}
		wg.Wait()
		c.Observed("issue")
	})
}

// refused is a redis client whose every command fails at once.
func refused() *redis.Client {
	return redis.NewClient(&redis.Options{MaxRetries: -1, Dialer: func(context.Context, string, string) (net.Conn, error) { return nil, errors.New("refused") }, PoolSize: 16, IdleCheckFrequency: -1})
}

func TestTtl(t *testing.T) {
	vk.Rule("redis TTL limiters sharing a client and parameters, with a server and without")
	vk.Cases("ttl", vk.N(100*5, 1000*4), func(c *vk.Case) {
		srv := fakeredis.New()
		defer srv.Close()
		cl := redis.NewClient(&redis.Options{Dialer: srv.Dial, PoolSize: 16, IdleCheckFrequency: -1})
		ratelimiter.LoadScript(cl)
		if c.Intn(3) == 0 {
			cl.Close()
			cl = refused()
		}
		defer cl.Close()
		p := ratelimiter.NewFixedTtlRateLimiterParams(1+c.Intn(4), 1+c.Intn(3), 1+c.Intn(3))
		ls := []ratelimiter.TtlRateLimiter{ratelimiter.NewRedisTtlRateLimiter(cl, p), ratelimiter.NewRedisTtlRateLimiterCluster(cl, p, "t")}
		ks := []string{"a", "b", "c"}
		k := func(r *rand.Rand) string { return ks[r.Intn(3)] }
		l := func(r *rand.Rand) ratelimiter.TtlRateLimiter { return ls[r.Intn(2)] }
		ctx := context.Background()
		use := func(r *ratelimiter.Result) { r.Ttl++; r.Msg += "x"; r.Block, r.Triggered = false, false } // a result is its caller's own
		storm(c, 12, []op{
			{"ShouldBlock", func(r *rand.Rand) { use(l(r).ShouldBlock(k(r), "m")) }},
			{"ShouldBlock2", func(r *rand.Rand) { use(l(r).ShouldBlock2(k(r), k(r), "m")) }},
			{"IsBlocked", func(r *rand.Rand) { use(l(r).IsBlocked(k(r))) }},
			{"ShouldBlockContext", func(r *rand.Rand) { use(l(r).ShouldBlockContext(ctx, k(r), "m")) }},
			{"ShouldBlock2Context", func(r *rand.Rand) { use(l(r).ShouldBlock2Context(ctx, k(r), k(r), "m")) }},
			{"IsBlockedContext", func(r *rand.Rand) { use(l(r).IsBlockedContext(ctx, k(r))) }},
			{"params", func(r *rand.Rand) { p.GetCapacity(); p.GetTimeoutSeconds(); p.GetWindowSizeSeconds() }},
		})
	})
}

func TestBus(t *testing.T) {
	vk.Rule("event buses: senders, new, replaced and closing receivers, readers, and a close after the senders are done")
	vk.Cases("bus", vk.N(600*5, 6000*4), func(c *vk.Case) {
		b := event.NewFanOutBus(c.Intn(4))
		for i := 0; i < 1+c.Intn(2); i++ {
			b.GoDispatch()
		}
		names := []string{"a", "b", "c"}
		recvs := make([]*event.Receiver, 3) // shared
		for i := range recvs {
			recvs[i] = b.NewRecvStrategy(names[i], c.Intn(3), event.FullStrategy(c.Intn(2)))
		}
		done := make(chan struct{})
		var readers sync.WaitGroup
		for _, r := range recvs {
			readers.Add(1)
			go func() { // keeps a blocking receiver from holding up the bus
				defer readers.Done()
				for range r.C {
				}
			}()
		}
		make1 := func(r *rand.Rand) {
			x := b.NewRecvStrategy(names[r.Intn(3)], r.Intn(3), event.Drop)
			if r.Intn(3) == 0 {
				x = b.NewRecv("own", r.Intn(3))
			}
			switch r.Intn(4) {
			case 0:
				x.Drain()
			case 1:
				x.CollectTimeout(time.Duration(r.Intn(300)) * time.Microsecond)
			case 2:
				go func() {
					for range x.C {
					}
				}()
			}
			if r.Intn(2) == 0 {
				x.Close()
			}
		}
		storm(c, 30, []op{
			{"send", func(r *rand.Rand) { b.C <- r.Intn(100) }},
			{"NewRecv", make1},
			{"Drain", func(r *rand.Rand) { recvs[r.Intn(3)].Drain() }},
			{"CollectTimeout", func(r *rand.Rand) { recvs[r.Intn(3)].CollectTimeout(time.Duration(r.Intn(200)) * time.Microsecond) }},
			{"Receiver.Close", func(r *rand.Rand) {
				if r.Intn(4) == 0 {
					recvs[r.Intn(3)].Close()
				}
			}},
		})
		// closing the bus against everything but senders
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			r := rand.New(rand.NewSource(c.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				p, bad := vk.Catch(func() {
					switch g {
					case 0:
						b.Close()
					case 1:
						for i := 0; i < 3; i++ {
							make1(r)
						}
					case 2:
						recvs[0].Close()
						recvs[1].Drain()
					case 3:
						recvs[2].CollectTimeout(100 * time.Microsecond)
						b.Close()
					}
				})
				if bad {
					c.Violate("closing the bus panicked", fmt.Sprint(p))
				}
			}()
		}
		wg.Wait()
		close(done)
		readers.Wait()
	})
}

// memPersister keeps values under a lock of its own and loads them back.
type memPersister struct {
	mu sync.Mutex
	m  map[string]string
}

func (p *memPersister) Load(s confstore.Interface) error {
	p.mu.Lock()
	var kv []*confstore.KVStr
	for k, v := range p.m {
		kv = append(kv, &confstore.KVStr{Key: k, Value: v})
	}
	p.mu.Unlock()
	for _, x := range kv {
		s.UpdateNoPersist(x.Key, x.Value)
	}
	return nil
}
func (p *memPersister) Save(k, v string) error {
	p.mu.Lock()
	p.m[k] = v
	p.mu.Unlock()
	return nil
}
func (p *memPersister) BatchSave(kv []*confstore.KVStr) error {
	for _, x := range kv {
		p.Save(x.Key, x.Value)
	}
	return nil
}
func (p *memPersister) Delete(k string) error {
	p.mu.Lock()
	delete(p.m, k)
	p.mu.Unlock()
	return nil
}

func TestStore(t *testing.T) {
	vk.Rule("config stores with shared load policies, persisters and processors")
	vk.Cases("store", vk.N(700*5, 7000*4), func(c *vk.Case) {
		var p confstore.Persister = confstore.NoopPersister
		switch c.Intn(6) {
		case 0, 1:
			p = &memPersister{m: map[string]string{"a": "1", "b": "2"}}
		case 2:
			srv := fakeredis.New()
			defer srv.Close()
			cl := redis.NewClient(&redis.Options{Dialer: srv.Dial, PoolSize: 16, IdleCheckFrequency: -1})
			defer cl.Close()
			p = confstore.NewRedisPersister(cl, "root")
		}
		policy := []confstore.LoadPolicy{confstore.NoopLoadPolicy, confstore.SimpleLoadPolicy, confstore.NewSimpleLoadPolicy(), confstore.NewLoadPolicy(0), confstore.NewLoadPolicy(20 * time.Microsecond), confstore.NewLoadPolicy(time.Hour)}[c.Intn(6)]
		ss := []confstore.Interface{confstore.NewStore(p, policy), confstore.NewStore(p, policy)}
		ks := []string{"a", "b", "c", "d"}
		vps := []confstore.ValueProcessor{confstore.Int, confstore.IntGtZero, confstore.IntGtEqZero, confstore.String, confstore.IntProcessor(0, true, 9, false), confstore.StringProcessor(1, 3), confstore.EnumProcessor([]string{"1", "2", "3"})}
		for _, s := range ss {
			for _, k := range ks[:3] {
				s.RegisterKey(k, "1", vps[c.Intn(len(vps))])
			}
		}
		s := func(r *rand.Rand) confstore.Interface {
			if r.Intn(4) == 0 {
				return ss[1]
			}
			return ss[0]
		}
		k := func(r *rand.Rand) string { return ks[r.Intn(len(ks))] }
		v := func(r *rand.Rand) string { return strconv.Itoa(r.Intn(12) - 1) }
		kvs := func(r *rand.Rand) (out []*confstore.KVStr) {
			for i := 0; i < r.Intn(4); i++ {
				out = append(out, &confstore.KVStr{Key: k(r), Value: v(r)})
			}
			return
		}
		n := 30
		storm(c, n, []op{
			{"RegisterKey", func(r *rand.Rand) { s(r).RegisterKey(k(r), v(r), vps[r.Intn(len(vps))]) }},
			{"DeregisterKey", func(r *rand.Rand) {
				if r.Intn(3) == 0 {
					s(r).DeregisterKey(k(r))
				}
			}},
			{"BatchUpdate", func(r *rand.Rand) {
				in := kvs(r)
				out := s(r).BatchUpdate(in)
				for _, x := range in { // the caller's own again
					x.Value += "x"
				}
				for _, e := range out {
					_ = e.String()
					e.Error = ""
				}
			}},
			{"Update", func(r *rand.Rand) {
				if e := s(r).Update(k(r), v(r)); e != nil {
					_ = e.String()
				}
			}},
			{"UpdateNoPersist", func(r *rand.Rand) { s(r).UpdateNoPersist(k(r), v(r)) }},
			{"BatchGetValues", func(r *rand.Rand) {
				for _, x := range s(r).BatchGetValues([]string{k(r), k(r)}) {
					_ = x.String()
					x.Value = nil
				}
			}},
			{"BatchGetValueString", func(r *rand.Rand) {
				for _, x := range s(r).BatchGetValueString(ks) {
					x.Value = ""
				}
			}},
			{"MustGetValue", func(r *rand.Rand) { must(func() { s(r).MustGetValue(k(r)) }) }},
			{"MustGetValueString", func(r *rand.Rand) { must(func() { s(r).MustGetValueString(k(r)) }) }},
			{"GetValue", func(r *rand.Rand) { s(r).GetValue(k(r)) }},
			{"GetValueString", func(r *rand.Rand) { s(r).GetValueString(k(r)) }},
			{"ResetKey", func(r *rand.Rand) { s(r).ResetKey(k(r)) }},
			{"DoLoad", func(r *rand.Rand) { policy.DoLoad(s(r), p) }},
			{"processor", func(r *rand.Rand) {
				x := vps[r.Intn(len(vps))]
				if ok, _ := x.Validate(v(r)); ok {
					x.Convert("1")
				}
			}},
		})
	})
}

func task(c *vk.Case, name string, job schedule.JobFunc) schedule.Task {
	i, o := time.Duration(1+c.Intn(2000))*time.Microsecond, time.Duration(1+c.Intn(2000))*time.Microsecond
	if c.Intn(2) == 0 {
		return schedule.NewFixedDelayTask(name, job, i, o)
	}
	return schedule.NewFixedRateTask(name, job, i, o)
}

func TestTask(t *testing.T) {
	vk.Rule("tasks started, stopped and named from all sides while their jobs run")
	vk.Cases("task", vk.N(400*5, 4000*4), func(c *vk.Case) {
		style := c.Intn(4)
		ts := make([]schedule.Task, 2)
		for i := range ts {
			ts[i] = task(c, fmt.Sprint("t", i), func(cancel <-chan struct{}) error {
				switch style {
				case 0:
					return errors.New("x")
				case 1:
					<-cancel
				case 2:
					time.Sleep(time.Millisecond)
				}
				return nil
			})
		}
		tk := func(r *rand.Rand) schedule.Task { return ts[r.Intn(2)] }
		storm(c, 15, []op{
			{"Start", func(r *rand.Rand) { tk(r).Start() }},
			{"Stop", func(r *rand.Rand) {
				if r.Intn(2) == 0 {
					time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
				}
				tk(r).Stop()
			}},
			{"MustStart", func(r *rand.Rand) { must(func() { tk(r).MustStart() }) }},
			{"MustStop", func(r *rand.Rand) { must(func() { tk(r).MustStop() }) }},
			{"Name", func(r *rand.Rand) { _ = tk(r).Name() }},
			{"wait", func(r *rand.Rand) { time.Sleep(time.Duration(r.Intn(500)) * time.Microsecond) }},
		})
		for _, x := range ts {
			x.Stop()
		}
	})
}

func TestManager(t *testing.T) {
	vk.Rule("task managers")
	vk.Cases("manager", vk.N(500*5, 5000*4), func(c *vk.Case) {
		m := schedule.NewTaskManager()
		pool := make([]schedule.Task, 40)
		for i := range pool {
			pool[i] = task(c, fmt.Sprint("n", i%4), func(<-chan struct{}) error { return nil })
		}
		storm(c, 20, []op{
			{"Register", func(r *rand.Rand) { must(func() { m.Register(pool[r.Intn(len(pool))]) }) }},
			{"Unregister", func(r *rand.Rand) { m.Unregister(fmt.Sprint("n", r.Intn(5))) }},
			{"UnregisterAll", func(r *rand.Rand) {
				if r.Intn(3) == 0 {
					m.UnregisterAll()
				}
			}},
		})
		m.UnregisterAll()
		for _, x := range pool {
			x.Stop()
		}
	})
}

// drop is a reporter that keeps nothing.
type drop struct{}

func (drop) Boot(string, string, []go2sky.AgentConfigChangeWatcher) {}
func (drop) Send(ss []go2sky.ReportedSpan) {
	for _, s := range ss {
		_, _, _ = s.Tags(), s.Logs(), s.Context()
	}
}
func (drop) Close() {}

func tracer(c *vk.Case) *go2sky.Tracer {
	if c.Intn(5) == 0 {
		return nil
	}
	if c.Intn(3) == 0 {
		t, _ := spans.New("p29")
		return t
	}
	t, _ := go2sky.NewTracer("p29", go2sky.WithReporter(drop{}), go2sky.WithInstance("i"))
	return t
}

func TestMiddleware(t *testing.T) {
	vk.Rule("one tracing middleware serving many requests at once")
	vk.Cases("middleware", vk.N(400*5, 4000*4), func(c *vk.Case) {
		tr := tracer(c)
		var opts []mw.Option
		if c.Intn(2) == 0 {
			opts = append(opts, mw.WithLog4xxBody(), mw.WithLogError())
		}
		router := routing.New()
		router.Use(mw.NewMiddleware(tr, opts...))
		boom := errors.New("boom")
		router.Any("/ok", func(x *routing.Context) error {
			mw.GetOperationName(x)
			if tr != nil {
				s, ctx, err := tr.CreateLocalSpan(mw.GetSwContext(x), go2sky.WithOperationName("l"))
				if err == nil {
					mw.SetSwContext(x, ctx)
					s.End()
				}
			}
			x.SetBodyString("ok")
			return nil
		})
		router.Any("/err", func(x *routing.Context) error { return boom })
		router.Any("/404", func(x *routing.Context) error { return routing.NewHTTPError(404) })
		router.Any("/body", func(x *routing.Context) error { x.SetStatusCode(400 + rand.Intn(3)); x.SetBodyString("no"); return nil })
		router.Any("/panic", func(x *routing.Context) error { panic("documented") })
		ref := "1-" + strings.Join([]string{"dHJhY2U=", "c2Vn", "3", "cw==", "aQ==", "ZQ==", "YQ=="}, "-")
		ask := func(path string) func(*rand.Rand) {
			return func(r *rand.Rand) {
				x, q := &fasthttp.RequestCtx{}, &fasthttp.Request{}
				q.SetRequestURI("http://h" + path)
				if r.Intn(2) == 0 {
					q.Header.Set("sw8", ref)
				}
				x.Init(q, nil, nil)
				must(func() { router.HandleRequest(x) })
			}
		}
		storm(c, 15, []op{{"request ok", ask("/ok")}, {"request err", ask("/err")}, {"request 404", ask("/404")}, {"request body", ask("/body")}, {"request panic", ask("/panic")}, {"request unknown", ask("/nowhere")}})
	})
}

func TestHook(t *testing.T) {
	vk.Rule("one redis hook shared by clients and goroutines, with callers sharing a span")
	vk.Cases("hook", vk.N(200*5, 2000*4), func(c *vk.Case) {
		tr := tracer(c)
		opts := []hook.Option{hook.WithAddr("peer:1")}
		if c.Intn(2) == 0 {
			opts = append(opts, hook.WithLogError(), hook.WithArgsReport(), hook.WithDb(2))
		}
		h := hook.NewHook(tr, opts...)
		srv := fakeredis.New()
		defer srv.Close()
		cls := []*redis.Client{redis.NewClient(&redis.Options{Dialer: srv.Dial, PoolSize: 16, IdleCheckFrequency: -1}), refused(), refused()}
		ctx := context.Background()
		var outer go2sky.Span
		if tr != nil && c.Intn(2) == 0 {
			outer, ctx, _ = tr.CreateLocalSpan(ctx, go2sky.WithOperationName("outer"))
		}
		for i, cl := range cls {
			cl.AddHook(h)
			cls[i] = cl.WithContext(ctx)
			defer cl.Close()
		}
		cl := func(r *rand.Rand) *redis.Client { return cls[r.Intn(len(cls))] }
		ctx2 := ctx
		storm(c, 10, []op{
			{"get", func(r *rand.Rand) { cl(r).Get("k") }},
			{"set", func(r *rand.Rand) { cl(r).Set("k", r.Intn(9), 0) }},
			{"wrong", func(r *rand.Rand) { cl(r).LPush("k", 1) }},
			{"pipeline", func(r *rand.Rand) {
				p := cl(r).Pipeline()
				p.Get("k")
				p.Set("k", 1, 0)
				p.LPush("k", 2)
				p.ExecContext(ctx2)
			}},
			{"tx", func(r *rand.Rand) {
				p := cl(r).TxPipeline()
				p.Incr("n")
				p.Incr("n")
				p.Exec()
			}},
			{"direct", func(r *rand.Rand) {
				cmd := redis.NewStringCmd("get", "x")
				c2, err := h.BeforeProcess(ctx2, cmd)
				if err == nil {
					h.AfterProcess(c2, cmd)
				}
			}},
			{"direct pipeline", func(r *rand.Rand) {
				a, b := redis.NewStringCmd("get", "x"), redis.NewStringCmd("get", "y")
				a.SetErr(errors.New("e"))
				b.SetErr(errors.New("f"))
				c2, err := h.BeforeProcessPipeline(ctx2, []redis.Cmder{a, b})
				if err == nil {
					h.AfterProcessPipeline(c2, []redis.Cmder{a, b})
				}
			}},
		})
		if outer != nil {
			outer.End()
		}
	})
}

func TestHelper(t *testing.T) {
	vk.Rule("one HTTP client span helper shared by goroutines, with callers sharing a span")
	vk.Cases("helper", vk.N(400*5, 4000*4), func(c *vk.Case) {
		tr := tracer(c)
		var opts []helper.Option
		if c.Intn(2) == 0 {
			opts = append(opts, helper.WithLogError(), helper.WithLog4xxBody())
		}
		h := helper.NewClientSpanHelper(tr, opts...)
		ctx := context.Background()
		var outer go2sky.Span
		if tr != nil && c.Intn(2) == 0 {
			outer, ctx, _ = tr.CreateLocalSpan(ctx, go2sky.WithOperationName("outer"))
		}
		boom := errors.New("boom")
		one := func(end func(s go2sky.Span, r *rand.Rand)) func(*rand.Rand) {
			return func(r *rand.Rand) {
				req := &fasthttp.Request{}
				req.SetRequestURI("http://h/p?q=1")
				s, err := h.CreateSpan(ctx, req)
				if err == nil {
					end(s, r)
				}
			}
		}
		storm(c, 20, []op{
			{"EndSpan", one(func(s go2sky.Span, r *rand.Rand) {
				res := &fasthttp.Response{}
				res.SetStatusCode(200 + 100*r.Intn(4))
				res.SetBodyString("body")
				h.EndSpan(s, res)
			})},
			{"EndSpanError", one(func(s go2sky.Span, r *rand.Rand) { h.EndSpanError(s, boom) })},
			{"nil span", func(r *rand.Rand) { h.EndSpan(nil, &fasthttp.Response{}); h.EndSpanError(nil, boom) }},
		})
		if outer != nil {
			outer.End()
		}
	})
}

func TestPprof(t *testing.T) {
	vk.Rule("one pprof filter or handler serving many requests at once")
	vk.Cases("pprof", vk.N(300*5, 3000*4), func(c *vk.Case) {
		cf := &confs.PprofConf{Username: "u", Password: "p:w"}
		if c.Intn(4) == 0 {
			cf.Password = ""
		}
		rh := confs.NewFasthttpRoutingPprofHandler(cf)
		router := routing.New()
		router.Any("/*", rh)
		eng := gin.New()
		eng.GET("/x", confs.NewGinPprofBasicAuthFilter(cf), func(x *gin.Context) { x.String(200, "in") })
		auths := []string{"", "Basic dTpwOnc=", "Basic dTp4", "Basic !", "Bearer x", "Basic dQ=="}
		storm(c, 15, []op{
			{"routing", func(r *rand.Rand) {
				x := &fasthttp.RequestCtx{}
				x.Request.SetRequestURI("http://h/debug/pprof/cmdline")
				x.Request.Header.Set("Authorization", auths[r.Intn(len(auths))])
				router.HandleRequest(x)
			}},
			{"gin", func(r *rand.Rand) {
				q := httptest.NewRequest(http.MethodGet, "/x", nil)
				q.Header.Set("Authorization", auths[r.Intn(len(auths))])
				eng.ServeHTTP(httptest.NewRecorder(), q)
			}},
			{"String", func(r *rand.Rand) { _ = cf.String() }},
			{"constructors", func(r *rand.Rand) {
				if r.Intn(4) == 0 {
					confs.NewGinPprofBasicAuthFilter(cf)
					confs.NewFasthttpRoutingPprofHandler(cf)
				}
			}},
		})
	})
}

func TestStateless(t *testing.T) {
	vk.Rule("stateless helpers called at once on shared values")
	pem := keys.Private[0]
	vk.Cases("stateless", vk.N(150*5, 1500*4), func(c *vk.Case) {
		m := dto.M{"a": 1, "b": "x", "c": []interface{}{1, 2}, "d": map[string]interface{}{"e": 1.5}}
		js := []byte(`{"a":1,"b":{"c":[1,2]}}`)
		cs := []fmt.Stringer{&confs.MysqlConf{Host: "h", Params: "a=b"}, &confs.PostgresqlConf{Host: "h"}, &confs.OracleConf{Host: "h"}, &confs.RedisConf{Host: "h"}, &confs.EsConf{}, &confs.FastHttpClientConf{}}
		pub, err := rsautil.ExtractPublicKeyPem(pem)
		if err != nil {
			c.Violate("no public key", err.Error())
			return
		}
		storm(c, 10, []op{
			{"MarshalM", func(r *rand.Rand) { dto.MarshalM(m) }},
			{"UnmarshalM", func(r *rand.Rand) {
				if x, err := dto.UnmarshalM(js); err == nil {
					x["a"] = 2
				}
			}},
			{"ExtractPublicKeyPem", func(r *rand.Rand) { rsautil.ExtractPublicKeyPem(pem) }},
			{"ReadPublicKey", func(r *rand.Rand) { rsautil.ReadPublicKey(pub) }},
			{"ReadPublicKeyBytes", func(r *rand.Rand) { rsautil.ReadPublicKeyBytes([]byte(pub)) }},
			{"read garbage", func(r *rand.Rand) { rsautil.ReadPrivateKey("x"); rsautil.ReadX509Certificate("y") }},
			{"String", func(r *rand.Rand) { _ = cs[r.Intn(len(cs))].String() }},
		})
	})
}
