// Monitor of P12: when the load policies load.
package p12

import (
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/chanjarster/gears/confstore"
	"github.com/go-redis/redis/v7"
	"verif/harness/fakeredis"
	"verif/harness/vk"
)

func TestMain(m *testing.M) { vk.Main(m, "P12") }

var errLoad = errors.New("injected load failure")

type load struct {
	start, end time.Time
	err        error
	version    int
	applied    bool
}

// src is the observing persister.
type src struct {
	mu      sync.Mutex
	version int
	keys    []string
	loads   []load
	fail    func(n int) (bool, bool) // fails, and after having applied the first key
	slow    func() time.Duration
}

func (p *src) set(v int) { p.mu.Lock(); p.version = v; p.mu.Unlock() }

func (p *src) Load(s confstore.Interface) error {
	p.mu.Lock()
	l := load{start: time.Now(), version: p.version}
	n := len(p.loads)
	p.mu.Unlock()
	if p.slow != nil {
		if d := p.slow(); d > 0 {
			time.Sleep(d)
		}
	}
	failing, half := false, false
	if p.fail != nil {
		failing, half = p.fail(n)
	}
	ks := p.keys
	if failing {
		l.err = fmt.Errorf("load %d: %w", n, errLoad)
		ks = nil
		if half {
			ks = p.keys[:1]
			l.applied = true
		}
	}
	for _, k := range ks {
		s.UpdateNoPersist(k, fmt.Sprint(l.version))
	}
	l.end = time.Now()
	p.mu.Lock()
	p.loads = append(p.loads, l)
	p.mu.Unlock()
	return l.err
}
func (p *src) Save(k, v string) error                 { return nil }
func (p *src) BatchSave(kvs []*confstore.KVStr) error { return nil }
func (p *src) Delete(k string) error                  { return nil }

func (p *src) snap() []load {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.loads[:len(p.loads):len(p.loads)]
}

var mins = []time.Duration{1, 2, time.Microsecond, time.Millisecond, 50 * time.Millisecond, time.Second, 10 * time.Second, time.Hour, 24 * 365 * time.Hour, 1<<63 - 1}

// read makes one read through any of the read methods and returns the values.
func read(s confstore.Interface, how int, keys []string, k string) map[string]string {
	out := map[string]string{}
	switch how {
	case 0:
		if v, hit := s.GetValueString(k); hit {
			out[k] = v
		}
	case 1:
		if v, hit := s.GetValue(k); hit {
			out[k] = v.(string)
		}
	case 2:
		out[k] = s.MustGetValueString(k)
	case 3:
		out[k] = s.MustGetValue(k).(string)
	case 4:
		for _, kv := range s.BatchGetValueString(keys) {
			out[kv.Key] = kv.Value
		}
	case 5:
		for _, kv := range s.BatchGetValues(keys) {
			out[kv.Key] = kv.Value.(string)
		}
	}
	return out
}

var hows = []string{"GetValueString", "GetValue", "MustGetValueString", "MustGetValue", "BatchGetValueString", "BatchGetValues", "DoLoad"}

func TestSequential(t *testing.T) {
	vk.Rule("sequential: one reader in virtual time makes reads of every kind and direct DoLoad calls at random instants including exactly minInterval after the last load and one nanosecond around it, over a persister that changes, is slow, fails or fails half way; every load start, end and result is recorded and each read is checked: whether a load had to, could or must not happen, what was served and what error came back; non-trivial when loads were both throttled and due, distinct by the history")
	vk.Cases("sequential", vk.N(8000, 250000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) { sequential(c) })
	})
}

func sequential(c *vk.Case) {
	p := &src{keys: []string{"a", "b", "c"}[:1+c.Intn(3)]}
	min := mins[c.Intn(len(mins))]
	if c.Intn(3) == 0 {
		min = 1 + time.Duration(c.Int63n(int64(time.Minute)))
	}
	var pol confstore.LoadPolicy
	always := false
	switch c.Intn(6) {
	case 0:
		pol, always, min = confstore.NewSimpleLoadPolicy(), true, 0
	case 1:
		min = -time.Duration(c.Int63n(5)) * time.Second
		pol, always = confstore.NewLoadPolicy(min), true
	default:
		pol = confstore.NewLoadPolicy(min)
	}
	failp, slowp := c.Intn(4), c.Intn(3)
	nextFail, nextHalf := false, false
	p.fail = func(int) (bool, bool) {
		nextFail = failp > 0 && c.Intn(6) < failp
		nextHalf = c.Intn(2) == 0
		return nextFail, nextHalf
	}
	p.slow = func() time.Duration {
		if slowp == 0 || c.Intn(3) > 0 {
			return 0
		}
		if c.Intn(2) == 0 && min > 0 && min < time.Hour {
			return 1 + time.Duration(c.Int63n(int64(min)*2))
		}
		return time.Duration(c.Int63n(int64(time.Second)))
	}
	s := confstore.NewStore(p, pol)
	mem := map[string]string{}
	for _, k := range p.keys {
		if err := s.RegisterKey(k, "default", confstore.String); err != nil {
			panic(err)
		}
		mem[k] = "default"
	}
	var hist []string
	failed := false
	bad := func(sig, f string, a ...interface{}) {
		if !failed {
			failed = true
			c.Violate(sig, map[string]interface{}{"what": fmt.Sprintf(f, a...), "minInterval": min.String(), "always": always, "history": hist[max(0, len(hist)-25):]})
		}
	}
	t0 := time.Now()
	var last time.Time // end of the last successful load
	has := false
	seen := 0
	throttled, due, fails := 0, 0, 0
	n := 6 + c.Intn(25)
	for i := 0; i < n && !failed; i++ {
		if c.Intn(3) > 0 {
			p.set(p.version + 1)
		}
		// wait
		var d time.Duration
		left := time.Duration(0)
		if has && !always {
			left = min - time.Since(last)
		}
		switch c.Intn(7) {
		case 0, 1:
		case 2:
			d = left
		case 3:
			d = left - 1
		case 4:
			d = left + 1
		case 5:
			if left > 1 {
				d = time.Duration(c.Int63n(int64(left)))
			}
		case 6:
			if left > 0 && left < 1<<60 {
				d = left + time.Duration(c.Int63n(int64(left)))
			} else {
				d = time.Duration(c.Int63n(int64(time.Minute)))
			}
		}
		if d > 0 && d < 60*365*24*time.Hour {
			time.Sleep(d)
		}
		if c.Intn(10) == 0 { // changed through the store: only memory here
			k := p.keys[c.Intn(len(p.keys))]
			v := fmt.Sprint("u", i)
			s.Update(k, v)
			mem[k] = v
			hist = append(hist, fmt.Sprintf("+%v update %s=%s", time.Since(t0), k, v))
		}
		now := time.Now()
		mustLoad := always || !has || now.Sub(last) >= min
		how := c.Intn(len(hows))
		k := p.keys[c.Intn(len(p.keys))]
		var got map[string]string
		var err error
		pn, panicked := vk.Catch(func() {
			if how == 6 {
				err = pol.DoLoad(s, p)
			} else {
				got = read(s, how, p.keys, k)
			}
		})
		if panicked {
			bad("panic", "%s: %v", hows[how], pn)
			return
		}
		all := p.snap()
		mine := all[seen:]
		seen = len(all)
		hist = append(hist, fmt.Sprintf("+%v %s %s loads=%d got=%v err=%v", now.Sub(t0), hows[how], k, len(mine), got, err))
		if mustLoad {
			due++
		} else {
			throttled++
		}
		if !mustLoad && len(mine) > 0 && mine[0].start.Equal(now) {
			bad("a load happened although the last successful one was less than minInterval ago", "")
		}
		if mustLoad && len(mine) == 0 {
			bad("no load happened although it was due", "since last %v", now.Sub(last))
		}
		ok := 0
		may := map[string]bool{} // what a batch read interleaved with its own loads may serve
		if len(mine) > 0 && mine[0].err != nil {
			for _, v := range mem {
				may[v] = true
			}
		}
		var lastErr error
		for _, l := range mine {
			if has && !always && l.start.Sub(last) < min {
				bad("a load happened although the last successful one was less than minInterval ago", "%v", l.start.Sub(last))
			}
			lastErr = l.err
			if l.err == nil || l.applied {
				may[fmt.Sprint(l.version)] = true
			}
			if l.err != nil {
				fails++
				if l.applied {
					mem[p.keys[0]] = fmt.Sprint(l.version)
				}
				continue
			}
			ok++
			last, has = l.end, true
			for _, k := range p.keys {
				mem[k] = fmt.Sprint(l.version)
			}
		}
		if how == 6 {
			if len(mine) > 1 {
				bad("DoLoad loaded more than once", "%d", len(mine))
			}
			if err != lastErr {
				bad("DoLoad does not return the load's error", "got %v want %v", err, lastErr)
			}
		}
		if mustLoad && ok == 0 && fails == 0 {
			bad("no load happened although it was due", "")
		}
		for k, v := range got {
			if v != mem[k] && !(how >= 4 && len(mine) > 1 && may[v]) {
				bad("a read does not serve what the last load brought", "%s: got %q want %q", k, v, mem[k])
			}
		}
		if how <= 5 && len(got) == 0 {
			bad("a read serves nothing", "")
		}
	}
	vk.Count("loads", len(p.loads))
	vk.Count("failed loads", fails)
	vk.Count("throttled triggers", throttled)
	key := ""
	if (throttled > 0 || always) && due > 0 {
		key = fmt.Sprint(min, always, hist)
	}
	c.Sample(hist[:min2(len(hist), 10)])
	c.Observed(key)
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// gaps checks the recorded loads of one throttling policy.
func gaps(c *vk.Case, ls []load, min time.Duration) {
	var last *load
	for i := range ls {
		l := &ls[i]
		if last != nil && l.err == nil && l.start.Sub(last.end) < min {
			c.Violate("two successful loads were closer than minInterval", map[string]interface{}{"minInterval": min.String(), "gap": l.start.Sub(last.end).String()})
			return
		}
		if l.err == nil {
			last = l
		}
	}
}

func TestCrowd(t *testing.T) {
	vk.Rule("crowd: many readers in virtual time, truly parallel at shared instants, over a persister whose content changes at known instants; loads take no time; after every read the last successful load must be younger than minInterval unless loads failed, and the read must not serve anything older than that load brought; non-trivial when several readers met at one instant at which a load was due")
	vk.Cases("crowd", vk.N(2500, 60000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) { crowd(c) })
	})
}

func crowd(c *vk.Case) {
	min := []time.Duration{time.Millisecond, 7 * time.Millisecond, 10 * time.Millisecond}[c.Intn(3)]
	p := &src{keys: []string{"a", "b"}}
	failing := c.Intn(3) == 0
	r0 := c.Int63()
	if failing {
		p.fail = func(n int) (bool, bool) { return (uint64(n+1)*0x9E3779B97F4A7C15+uint64(r0))>>62 == 0, false }
	}
	pol := confstore.NewLoadPolicy(min)
	s := confstore.NewStore(p, pol)
	for _, k := range p.keys {
		s.RegisterKey(k, "-1", confstore.String)
	}
	t0 := time.Now()
	ng := 2 + c.Intn(8)
	step := []time.Duration{min / 7, min / 2, min, min + 1}[c.Intn(4)]
	rounds := 20
	var wg sync.WaitGroup
	var reads, met atomic.Int64
	for g := 0; g < ng; g++ {
		seed := c.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed))
			for i := 0; i < rounds; i++ {
				time.Sleep(step * time.Duration(r.Intn(3)))
				now := time.Now()
				got := read(s, r.Intn(6), p.keys, p.keys[r.Intn(2)])
				reads.Add(1)
				ls := p.snap()
				var l *load
				tried := false
				for j := range ls {
					if ls[j].err == nil {
						l = &ls[j]
					} else if ls[j].start.Equal(now) {
						tried = true
					}
				}
				if !tried && (l == nil || now.Sub(l.end) >= min) {
					c.Violate("no load happened although it was due", map[string]interface{}{"at": now.Sub(t0).String(), "minInterval": min.String()})
					return
				}
				if l != nil && l.end.Equal(now) {
					met.Add(1)
				}
				// loads that had ended before this instant are served at least
				want := -1
				for j := range ls {
					if ls[j].err == nil && ls[j].end.Before(now) {
						want = ls[j].version
					}
				}
				if l != nil && !failing && l.end.Equal(now) {
					want = l.version // due at this very instant: everyone gets it
				}
				for k, v := range got {
					x := 0
					fmt.Sscan(v, &x)
					if x < want {
						c.Violate("a read serves older data than the last load brought", map[string]interface{}{"key": k, "got": v, "want at least": want, "at": now.Sub(t0).String()})
						return
					}
				}
			}
		}()
	}
	stop := make(chan struct{})
	done := make(chan struct{})
	go func() { // the persister changes between the readers' instants
		defer close(done)
		v := 0
		time.Sleep(step / 2)
		for {
			select {
			case <-stop:
				return
			default:
			}
			v++
			p.set(v)
			time.Sleep(step)
		}
	}()
	wg.Wait()
	close(stop)
	<-done
	ls := p.snap()
	gaps(c, ls, min)
	vk.Count("loads", len(ls))
	vk.Count("crowd reads", int(reads.Load()))
	key := ""
	if met.Load() > int64(len(ls)) {
		key = fmt.Sprint(min, ng, step, c.Index)
	}
	c.Observed(key)
}

func TestReal(t *testing.T) {
	vk.Rule("real: 4-16 goroutines read in a busy loop in real time while loads are slow and sometimes fail; recorded loads of a throttling policy must never be closer than minInterval (monotonic clock, end to start), a read that began after a load ended serves at least what that load brought; non-trivial when at least 3 loads happened and some read overlapped a load")
	vk.Cases("real", vk.N(160, 4000), func(c *vk.Case) {
		min := time.Duration(200+c.Intn(2500)) * time.Microsecond
		p := &src{keys: []string{"a", "b"}}
		slow := time.Duration(c.Intn(1500)) * time.Microsecond
		p.slow = func() time.Duration { return slow }
		if c.Intn(2) == 0 {
			p.fail = func(n int) (bool, bool) { return n%4 == 1, false }
		}
		pol := confstore.NewLoadPolicy(min)
		s := confstore.NewStore(p, pol)
		for _, k := range p.keys {
			s.RegisterKey(k, "-1", confstore.String)
		}
		ng := 4 + c.Intn(13)
		end := time.Now().Add(15 * time.Millisecond)
		var wg sync.WaitGroup
		var reads, over atomic.Int64
		for g := 0; g < ng; g++ {
			seed := c.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				for time.Now().Before(end) {
					ls := p.snap()
					want := -1
					for j := range ls {
						if ls[j].err == nil {
							want = ls[j].version
						}
					}
					if r.Intn(5) == 0 {
						p.mu.Lock()
						p.version++
						p.mu.Unlock()
					}
					a := time.Now()
					got := read(s, r.Intn(6), p.keys, p.keys[r.Intn(2)])
					if time.Since(a) > slow/2 {
						over.Add(1)
					}
					reads.Add(1)
					for k, v := range got {
						x := 0
						fmt.Sscan(v, &x)
						if x < want {
							c.Violate("a read serves older data than the last load brought", map[string]interface{}{"key": k, "got": v, "want at least": want})
							return
						}
					}
				}
			}()
		}
		wg.Wait()
		ls := p.snap()
		gaps(c, ls, min)
		vk.Count("loads", len(ls))
		vk.Count("real reads", int(reads.Load()))
		key := ""
		if len(ls) >= 3 && over.Load() > 0 {
			key = fmt.Sprint(c.Index, len(ls), reads.Load())
		}
		c.Observed(key)
	})
}

// the policies over the redis persister
func TestRedis(t *testing.T) {
	vk.Rule("redis: a throttling or simple policy over the redis persister whose server refuses or drops the load now and then; a refused load must be reported by DoLoad and tried again by the next read, the first one that works is served at once, and a throttled one asks the server nothing; non-trivial when refused, successful and throttled loads all occurred")
	vk.Cases("redis", vk.N(150, 2000), func(c *vk.Case) {
		srv := fakeredis.New()
		defer srv.Close()
		srv.NoLog = true
		var mu sync.Mutex
		asked, down, kind := 0, false, 0
		srv.OnCommand = func(args []string) fakeredis.Fault {
			mu.Lock()
			defer mu.Unlock()
			switch strings.ToUpper(args[0]) {
			case "HELLO", "SELECT", "CLIENT", "AUTH", "PING":
				return fakeredis.Fault{}
			}
			asked++
			if !down {
				return fakeredis.Fault{}
			}
			switch kind {
			case 0:
				return fakeredis.Fault{Kind: fakeredis.DropBefore}
			case 1:
				return fakeredis.Fault{Kind: fakeredis.ErrorReply, Text: "LOADING Redis is loading the dataset in memory"}
			}
			return fakeredis.Fault{Kind: fakeredis.Raw, Text: "?\r\n"}
		}
		cl := redis.NewClient(&redis.Options{Dialer: srv.Dial, MaxRetries: -1, ReadTimeout: 2 * time.Second})
		defer cl.Close()
		simple := c.Intn(4) == 0
		pol := confstore.NewLoadPolicy([]time.Duration{time.Hour, 24 * time.Hour, 300 * 24 * time.Hour}[c.Intn(3)])
		if simple {
			pol = confstore.NewLoadPolicy(-time.Duration(c.Intn(3)))
			if c.Intn(2) == 0 {
				pol = confstore.NewSimpleLoadPolicy()
			}
		}
		pe := confstore.NewRedisPersister(cl, "r")
		st := confstore.NewStore(pe, pol)
		if err := st.RegisterKey("k", "0", confstore.Int); err != nil {
			c.Violate("redis: registration refused", err.Error())
			return
		}
		serve, stored, done := "0", "", false
		var log []string
		refused, ok, throttled := 0, 0, 0
		for i := 6 + c.Intn(12); i > 0; i-- {
			mu.Lock()
			down, kind = c.Intn(3) == 0, c.Intn(3)
			asked = 0
			d := down
			mu.Unlock()
			if c.Intn(2) == 0 {
				stored = fmt.Sprint(1 + c.Intn(1000))
				srv.Do(0, "HSET", "r", "k", stored)
			}
			due := simple || !done
			if due && !d {
				if stored != "" {
					serve = stored
				}
				done = true
			}
			how := c.Intn(3)
			log = append(log, fmt.Sprintf("stored %s down %v due %v how %d", stored, d, due, how))
			det := map[string]interface{}{"trace": log, "simple": simple}
			got, err := "", error(nil)
			switch how {
			case 0:
				got, _ = st.GetValueString("k")
			case 1:
				v, _ := st.GetValue("k")
				got = fmt.Sprint(v)
			default:
				err = pol.DoLoad(st, pe)
				if (err != nil) != (due && d) {
					det["err"] = fmt.Sprint(err)
					c.Violate("redis: the result of a direct load is wrong", det)
					return
				}
				got = serve
			}
			mu.Lock()
			n := asked
			mu.Unlock()
			det["asked"], det["got"], det["want"] = n, got, serve
			switch {
			case due && n == 0:
				c.Violate("redis: a load that was due did not happen", det)
				return
			case !due && n > 0:
				c.Violate("redis: a throttled load reached the server", det)
				return
			case got != serve:
				c.Violate("redis: a read serves the wrong value", det)
				return
			}
			switch {
			case due && d:
				refused++
			case due:
				ok++
			default:
				throttled++
			}
		}
		vk.Count("redis loads refused", refused)
		vk.Count("redis loads", ok)
		key := ""
		if refused > 0 && ok > 0 && (throttled > 0 || simple) {
			key = fmt.Sprint(log)
		}
		c.Sample(log[:min(len(log), 8)])
		c.Observed(key)
	})
}

// stuck is a persister whose loads do not end until let go.
type stuck struct {
	src
	in  chan struct{}
	let chan struct{}
}

func (p *stuck) Load(s confstore.Interface) error {
	select {
	case p.in <- struct{}{}:
	default:
	}
	<-p.let
	return nil
}

func TestApart(t *testing.T) {
	vk.Rule("apart: stores with policies of their own (of any kind); while a load of one is stuck, reads and loads of the others, and updates without persisting of any, finish, with exactly the loads their own policy asks for; non-trivial each")
	vk.Cases("apart", vk.N(200, 4000), func(c *vk.Case) {
		pol := func() confstore.LoadPolicy {
			switch c.Intn(4) {
			case 0:
				return confstore.NewSimpleLoadPolicy()
			case 1:
				return confstore.NewLoadPolicy(0)
			}
			return confstore.NewLoadPolicy(time.Hour)
		}
		p := &stuck{in: make(chan struct{}, 1), let: make(chan struct{})}
		a := confstore.NewStore(p, pol())
		a.RegisterKey("k", "d", confstore.String)
		readers := sync.WaitGroup{}
		for i := 1 + c.Intn(3); i > 0; i-- {
			readers.Add(1)
			go func() { defer readers.Done(); a.GetValue("k") }()
		}
		<-p.in
		done := make(chan string, 1)
		go func() {
			for i := 1 + c.Intn(4); i > 0; i-- {
				q := &src{keys: []string{"k"}, version: i}
				kind := c.Intn(3)
				var lp confstore.LoadPolicy
				want := 1
				n := 1 + c.Intn(5)
				switch kind {
				case 0:
					lp, want = confstore.NewSimpleLoadPolicy(), n
				case 1:
					lp, want = confstore.NewLoadPolicy(-1), n
				default:
					lp = confstore.NewLoadPolicy(time.Hour)
				}
				b := confstore.NewStore(q, lp)
				b.RegisterKey("k", "d", confstore.String)
				for j := 0; j < n; j++ {
					b.GetValueString("k")
				}
				if got := len(q.snap()); got != want {
					done <- fmt.Sprintf("%d loads by %d reads, want %d (policy %d)", got, n, want, kind)
					return
				}
			}
			a.UpdateNoPersist("k", "x")
			done <- ""
		}()
		select {
		case s := <-done:
			if s != "" {
				c.Violate("a policy's loads depend on another store's", s)
			}
		case <-time.After(20 * time.Second):
			c.Violate("a store's reads wait for another store's load", "nothing for 20 s")
		}
		close(p.let)
		readers.Wait()
		c.Observed(fmt.Sprint(c.Index))
	})
}
