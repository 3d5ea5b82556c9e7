// Monitor of P04: the sliding window limiter and its reconfiguration.
package p04

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/chanjarster/gears/ratelimiter"
	"verif/harness/vk"
)

func TestMain(m *testing.M) { vk.Main(m, "P04") }

// model remembers the latest `capacity` grants.
type model struct {
	capacity int
	w        int64
	rec      []int64
}

func (m *model) acquire(now int64) bool {
	if m.capacity == 0 {
		return true
	}
	if len(m.rec) >= m.capacity {
		if now-m.rec[0] <= m.w {
			return false
		}
		m.rec = m.rec[1:]
	}
	m.rec = append(m.rec[:len(m.rec):len(m.rec)], now)
	return true
}

func (m *model) update(capacity int, w int64) {
	if capacity < 0 {
		capacity = 0
	}
	if len(m.rec) > capacity {
		m.rec = m.rec[len(m.rec)-capacity:]
	}
	m.capacity, m.w = capacity, w
}

func pickW(c *vk.Case) int64 {
	switch c.Intn(5) {
	case 0:
		return 1 + c.Int63n(20)
	case 1:
		return int64(time.Millisecond) * (1 + c.Int63n(1000))
	case 2:
		return int64([]time.Duration{time.Second, time.Minute, time.Hour, 24 * time.Hour}[c.Intn(4)])
	}
	return 50 + c.Int63n(1000)
}

func pickCap(c *vk.Case) int {
	switch c.Intn(12) {
	case 0:
		return 0
	case 1:
		return -1 - c.Intn(3)
	case 2:
		if c.Intn(16) == 0 {
			return 300 + c.Intn(1500)
		}
		return 20 + c.Intn(60)
	}
	return 1 + c.Intn(7)
}

func TestCalls(t *testing.T) {
	vk.Rule("calls: random capacity (incl. 0 and negative), window and virtual-time sequences of Acquire (single or truly parallel bursts), pauses at and around the expiry of remembered grants, and UpdateConfig; every result is compared with a model, and independently the number of grants in every window span under one configuration is counted; non-trivial when something was rejected and later granted")
	vk.Cases("calls", vk.N(20000, 200000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) { calls(c) })
	})
}

func calls(c *vk.Case) {
	m := &model{}
	cp, w := pickCap(c), pickW(c)
	l := ratelimiter.NewSyncSlidingWindow(cp, time.Duration(w))
	m.update(cp, w)
	var hist []string
	var grants []int64 // under the present configuration
	hist = append(hist, fmt.Sprintf("new(%d,%d)", cp, w))
	rejected, again, reconf := false, false, 0
	reconfig := c.Intn(3) > 0
	n := 5 + c.Intn(50)
	for i := 0; i < n; i++ {
		if l.Capacity() != m.capacity || l.WindowSize() != time.Duration(m.w) {
			c.Violate("Capacity or WindowSize not the latest configuration", map[string]interface{}{"history": hist, "capacity": l.Capacity(), "window": l.WindowSize()})
			return
		}
		if reconfig && c.Intn(7) == 0 {
			cp, w = pickCap(c), m.w
			if c.Intn(2) == 0 {
				w = pickW(c)
			} else if c.Intn(2) == 0 {
				w = m.w*2 + 1
			}
			if c.Intn(3) == 0 {
				cp = m.capacity
			}
			l.UpdateConfig(cp, time.Duration(w))
			m.update(cp, w)
			hist = append(hist, fmt.Sprintf("update(%d,%d)", cp, w))
			grants = nil
			reconf++
			continue
		}
		var d int64
		now := time.Now().UnixNano()
		switch c.Intn(8) {
		case 0, 1:
		case 2:
			if len(m.rec) > 0 {
				d = m.rec[c.Intn(len(m.rec))] + m.w - now + int64(c.Intn(3)-1)
			}
		case 3:
			if len(m.rec) > 0 {
				d = m.rec[0] + m.w - now + int64(c.Intn(2))
			}
		case 4:
			d = c.Int63n(m.w + 2)
		case 5:
			d = c.Int63n(4*m.w + 2)
		default:
			d = c.Int63n(m.w/8 + 2)
		}
		if d > 0 {
			time.Sleep(time.Duration(d))
		}
		now = time.Now().UnixNano()
		k := 1
		if c.Intn(3) == 0 {
			k = 1 + c.Intn(9)
			if m.capacity > 100 {
				k = 1 + c.Intn(m.capacity)
			}
		}
		var got int64
		if k > 1 && c.Intn(2) == 0 {
			var wg sync.WaitGroup
			gate := make(chan struct{})
			for j := 0; j < k; j++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-gate
					if l.Acquire() {
						atomic.AddInt64(&got, 1)
					}
				}()
			}
			synctest.Wait()
			close(gate)
			wg.Wait()
		} else {
			for j := 0; j < k; j++ {
				if l.Acquire() {
					got++
				}
			}
		}
		var want int64
		for j := 0; j < k; j++ {
			if m.acquire(now) {
				want++
			}
		}
		hist = append(hist, fmt.Sprintf("t=%d acquire x%d -> %d (expected %d)", now, k, got, want))
		vk.Count("acquire_calls", k)
		for j := int64(0); j < got; j++ {
			grants = append(grants, now)
		}
		if m.capacity > 0 {
			in := 0
			for _, g := range grants {
				if now-g <= m.w {
					in++
				}
			}
			if in > m.capacity {
				c.Violate("more than capacity grants within one window span", map[string]interface{}{"capacity": m.capacity, "window_ns": m.w, "history": hist})
				return
			}
		}
		if got != want {
			sig := "a call was rejected although fewer than capacity grants lie in its window"
			if got > want {
				sig = "a call was granted although capacity grants lie in its window"
			}
			c.Violate(sig, map[string]interface{}{"capacity": m.capacity, "window_ns": m.w, "history": hist})
			return
		}
		if want < int64(k) {
			rejected = true
		} else if rejected {
			again = true
		}
	}
	vk.Count("reconfigurations", reconf)
	key := ""
	if rejected && again {
		key = fmt.Sprint(hist)
	}
	c.Observed(key)
	if c.Index < 2 {
		c.Sample(hist)
	}
}

type in struct {
	Kind byte // A acquire, U update, C capacity, W window
	Now  int64
	Cap  int
	W    int64
}

func TestConcurrent(t *testing.T) {
	vk.Rule("concurrent: parallel Acquire, UpdateConfig, Capacity and WindowSize calls in several virtual-time phases; the recorded history must be linearizable for the sequential limiter (porcupine); non-trivial when an update overlapped another call")
	vk.Cases("concurrent", vk.N(10000, 60000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) { conc(c) })
	})
}

func conc(c *vk.Case) {
	cp, w := 1+c.Intn(4), 10+c.Int63n(30)
	l := ratelimiter.NewSyncSlidingWindow(cp, time.Duration(w))
	var clock atomic.Int64
	var mu sync.Mutex
	var ops []porcupine.Operation
	phases := 1 + c.Intn(4)
	for p := 0; p < phases; p++ {
		gate := make(chan struct{})
		var wg sync.WaitGroup
		clients := 2 + c.Intn(4)
		for g := 0; g < clients; g++ {
			g := g
			now := time.Now().UnixNano()
			var plan []in
			for i := 0; i < 1+c.Intn(4); i++ {
				switch r := c.Intn(8); {
				case r < 5:
					plan = append(plan, in{Kind: 'A', Now: now})
				case r < 6:
					plan = append(plan, in{Kind: 'U', Now: now, Cap: c.Intn(5), W: 5 + c.Int63n(40)})
				case r < 7:
					plan = append(plan, in{Kind: 'C', Now: now})
				default:
					plan = append(plan, in{Kind: 'W', Now: now})
				}
			}
			spins := c.Intn(30)
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				for _, x := range plan {
					for j := 0; j < spins; j++ {
						runtime.Gosched()
					}
					var out int64
					t0 := clock.Add(1)
					switch x.Kind {
					case 'A':
						if l.Acquire() {
							out = 1
						}
					case 'U':
						l.UpdateConfig(x.Cap, time.Duration(x.W))
					case 'C':
						out = int64(l.Capacity())
					case 'W':
						out = int64(l.WindowSize())
					}
					t1 := clock.Add(1)
					mu.Lock()
					ops = append(ops, porcupine.Operation{ClientId: g, Input: x, Output: out, Call: t0, Return: t1})
					mu.Unlock()
				}
			}()
		}
		synctest.Wait()
		close(gate)
		wg.Wait()
		time.Sleep(time.Duration(c.Intn(50)))
	}
	mod := porcupine.Model{
		Init: func() interface{} { return model{capacity: cp, w: w} },
		Step: func(st, input, output interface{}) (bool, interface{}) {
			m := st.(model)
			x := input.(in)
			out := output.(int64)
			switch x.Kind {
			case 'A':
				ok := m.acquire(x.Now)
				return ok == (out == 1), m
			case 'U':
				m.update(x.Cap, x.W)
				return true, m
			case 'C':
				return out == int64(m.capacity), m
			default:
				return out == m.w, m
			}
		},
		Equal: func(a, b interface{}) bool { return fmt.Sprint(a) == fmt.Sprint(b) },
	}
	var h strings.Builder
	over := false
	for i, o := range ops {
		fmt.Fprintf(&h, "[c%d %c t=%d cap=%d w=%d -> %v @%d-%d]", o.ClientId, o.Input.(in).Kind, o.Input.(in).Now, o.Input.(in).Cap, o.Input.(in).W, o.Output, o.Call, o.Return)
		for j := range ops {
			if i != j && o.Input.(in).Kind == 'U' && o.Call < ops[j].Return && ops[j].Call < o.Return {
				over = true
			}
		}
	}
	switch porcupine.CheckOperationsTimeout(mod, ops, 20*time.Second) {
	case porcupine.Illegal:
		c.Violate("concurrent history is not that of a sliding window limiter", map[string]interface{}{"capacity": cp, "window_ns": w, "history": h.String()})
	case porcupine.Unknown:
		vk.Count("concurrent_unknown", 1)
	}
	vk.Count("concurrent_ops", len(ops))
	key := ""
	if over {
		vk.Count("concurrent_overlapping_updates", 1)
		key = h.String()
	}
	c.Observed(key)
	if c.Index < 1 {
		c.Sample(h.String())
	}
}

// Real clock, truly parallel: callers overtake each other between reading the
// clock and being decided. The instant of a call lies between its start and
// its end, which is enough for both bounds.
func TestRealClock(t *testing.T) {
	vk.Rule("realclock: goroutines call Acquire on the real clock without a pause; of the grants whose calls lie completely within one span of windowSize there are never more than capacity, and a rejected call is preceded by capacity grants that may lie within windowSize of it; non-trivial when something was rejected and later granted")
	vk.Cases("realclock", vk.N(64, 600), func(c *vk.Case) {
		w := int64([]time.Duration{20 * time.Microsecond, 200 * time.Microsecond, time.Millisecond, 4 * time.Millisecond, time.Second}[c.Intn(5)])
		capacity := 1 + c.Intn(12)
		l := ratelimiter.NewSyncSlidingWindow(capacity, time.Duration(w))
		type call struct {
			a, b int64
			ok   bool
		}
		var mu sync.Mutex
		var calls []call
		var wg sync.WaitGroup
		gs := 3 + c.Intn(6)
		for g := 0; g < gs; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				own := make([]call, 0, 1500)
				for i := 0; i < 1500; i++ {
					a := time.Now().UnixNano()
					ok := l.Acquire()
					own = append(own, call{a, time.Now().UnixNano(), ok})
				}
				mu.Lock()
				calls = append(calls, own...)
				mu.Unlock()
			}()
		}
		wg.Wait()
		var grants []call
		rejected, first, late := 0, int64(0), 0
		for _, x := range calls {
			if x.ok {
				grants = append(grants, x)
			} else {
				rejected++
				if first == 0 || x.b < first {
					first = x.b
				}
			}
		}
		sort.Slice(grants, func(i, j int) bool { return grants[i].a < grants[j].a })
		ends := make([]int64, len(grants))
		starts := make([]int64, len(grants))
		for i, x := range grants {
			starts[i], ends[i] = x.a, x.b
			if first > 0 && x.a > first {
				late++
			}
		}
		sort.Slice(ends, func(i, j int) bool { return ends[i] < ends[j] })
		det := func(n int, at int64) map[string]interface{} {
			return map[string]interface{}{"capacity": capacity, "windowSize": time.Duration(w).String(), "goroutines": gs, "grants": n, "after": time.Duration(at - grants[0].a).String()}
		}
		for i, x := range grants { // the span begins with x
			n := 0
			for j := i; j < len(grants) && grants[j].a <= x.a+w && n <= capacity; j++ {
				if grants[j].b <= x.a+w {
					n++
				}
			}
			if n > capacity {
				c.Violate("more than capacity grants within windowSize on the real clock", det(n, x.a))
				return
			}
		}
		for _, x := range calls {
			if x.ok {
				continue
			}
			// grants that began by its end, without those that ended too early
			n := sort.Search(len(starts), func(i int) bool { return starts[i] > x.b }) - sort.Search(len(ends), func(i int) bool { return ends[i] >= x.a-w })
			if n < capacity {
				c.Violate("a call was rejected without capacity grants before it on the real clock", det(n, x.a))
				return
			}
		}
		vk.Count("real-clock grants", len(grants))
		vk.Count("real-clock rejections", rejected)
		key := ""
		if late > 0 {
			key = fmt.Sprint(c.Index, len(grants), rejected)
		}
		c.Observed(key)
	})
}

// The amount of capacity must not matter.
func TestLarge(t *testing.T) {
	vk.Rule("large: capacities of thousands to tens of thousands in virtual time: the capacity is used up in a few portions at different instants, with refused calls between, for several windows, also after growing and shrinking; every portion must be granted exactly as far as the portions of the window leave room; non-trivial when something was rejected and later granted")
	vk.Cases("large", vk.N(24, 400), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) { large(c) })
	})
}

func large(c *vk.Case) {
	cp, w := 2000+c.Intn(30000), 1000+c.Int63n(int64(time.Minute))
	l := ratelimiter.NewSyncSlidingWindow(cp, time.Duration(w))
	type portion struct {
		at int64
		n  int
	}
	var mem []portion // remembered grants, oldest first
	var hist []string
	rejected, again := false, false
	for i, n := 0, 6+c.Intn(20); i < n; i++ {
		switch c.Intn(6) {
		case 0, 1:
			time.Sleep(time.Duration(c.Int63n(w/3 + 1)))
		case 2:
			if len(mem) > 0 {
				d := mem[c.Intn(len(mem))].at + w - time.Now().UnixNano() + int64(c.Intn(3)) - 1
				if d > 0 {
					time.Sleep(time.Duration(d))
				}
			}
		case 3:
			if c.Intn(2) == 0 {
				cp = 2000 + c.Intn(30000)
				l.UpdateConfig(cp, time.Duration(w))
				over := -cp
				for _, p := range mem {
					over += p.n
				}
				for over > 0 { // the oldest are forgotten
					k := min(over, mem[0].n)
					if mem[0].n -= k; mem[0].n == 0 {
						mem = mem[1:]
					}
					over -= k
				}
				hist = append(hist, fmt.Sprintf("update(%d)", cp))
			}
		}
		now := time.Now().UnixNano()
		in := 0
		var live []portion
		all := 0
		for _, p := range mem {
			all += p.n
			if now-p.at <= w {
				in += p.n
				live = append(live, p)
			}
		}
		k := 1 + c.Intn(cp)
		if c.Intn(3) == 0 {
			k = cp - in + c.Intn(50)
		}
		got := 0
		for j := 0; j < k; j++ {
			if l.Acquire() {
				got++
			}
		}
		want := min(k, cp-in)
		hist = append(hist, fmt.Sprintf("t=%d acquire x%d -> %d (expected %d of %d)", now, k, got, want, cp))
		if got != want {
			sig := "a call was rejected although fewer than capacity grants lie in its window"
			if got > want {
				sig = "a call was granted although capacity grants lie in its window"
			}
			c.Violate(sig, map[string]interface{}{"capacity": cp, "window_ns": w, "history": hist})
			return
		}
		mem = append(live, portion{now, got})
		if got == 0 {
			mem = live
		}
		if got < k {
			rejected = true
		} else if rejected {
			again = true
		}
		vk.Count("acquire_calls", k)
	}
	key := ""
	if rejected && again {
		key = fmt.Sprint(hist)
	}
	c.Observed(key)
}
