// Monitor of P05: both token buckets.
package p05

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/chanjarster/gears/ratelimiter"
	"verif/harness/vk"
)

func TestMain(m *testing.M) { vk.Main(m, "P05") }

func mk(kind, capacity, rate int) (ratelimiter.TokenBucket, string) {
	if kind == 0 {
		return ratelimiter.NewSyncTokenBucket(capacity, rate), "sync"
	}
	return ratelimiter.NewAtomicTokenBucket(capacity, rate), "atomic"
}

// burst makes k calls at the present instant, in parallel by g goroutines when
// g > 1, and returns how many succeeded.
func burst(l ratelimiter.TokenBucket, k, g int) int {
	if g <= 1 {
		n := 0
		for i := 0; i < k; i++ {
			if l.Acquire() {
				n++
			}
		}
		return n
	}
	var got atomic.Int64
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for j := 0; j < g; j++ {
		calls := k / g
		if j < k%g {
			calls++
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			for i := 0; i < calls; i++ {
				if l.Acquire() {
					got.Add(1)
				}
			}
		}()
	}
	synctest.Wait()
	close(gate)
	wg.Wait()
	return int(got.Load())
}

// Whole-second histories: every correct bucket grants the same number.
func TestWhole(t *testing.T) {
	vk.Rule("whole: calls only at whole seconds after creation (virtual time), sequential or truly parallel; the grants at each instant must be exactly min(calls, min(capacity, left + rate*seconds)); non-trivial when the bucket ran empty and refilled")
	vk.Cases("whole", vk.N(6000, 200000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) { whole(c) })
	})
}

func whole(c *vk.Case) {
	kind := c.Intn(2)
	capacity, rate := 1+c.Intn(12), c.Intn(8)
	if c.Intn(6) == 0 {
		capacity, rate = 1+c.Intn(300), 1+c.Intn(300)
	}
	if c.Intn(12) == 0 {
		rate = []int{1000, 1000000, 1000000000, 1<<31 - 1}[c.Intn(4)]
	}
	if c.Intn(20) == 0 {
		capacity = 0
	}
	if c.Intn(3) == 0 {
		time.Sleep(time.Duration(c.Int63n(int64(3 * time.Second))))
	}
	l, name := mk(kind, capacity, rate)
	if l.Capacity() != capacity {
		c.Violate("Capacity not as configured ("+name+")", l.Capacity())
	}
	left := int64(capacity)
	var hist []string
	empty, refilled := false, false
	n := 3 + c.Intn(20)
	for i := 0; i < n; i++ {
		s := int64(0)
		switch c.Intn(8) {
		case 0, 1:
		case 2, 3, 4:
			s = 1
		case 5:
			s = 1 + c.Int63n(5)
		case 6:
			s = 1 + c.Int63n(100)
		case 7:
			s = c.Int63n(10 * 365 * 24 * 3600)
		}
		time.Sleep(time.Duration(s) * time.Second)
		was := left
		left += int64(rate) * s
		if left > int64(capacity) {
			left = int64(capacity)
		}
		if was == 0 && left > 0 {
			refilled = true
		}
		k := 1 + c.Intn(3)
		switch c.Intn(4) {
		case 0:
			k = capacity + 1 + c.Intn(capacity+3)
		case 1:
			k = 1 + c.Intn(2*capacity+2)
		}
		g := 1
		if c.Intn(2) == 0 {
			g = 2 + c.Intn(7)
		}
		got := int64(burst(l, k, g))
		want := left
		if want > int64(k) {
			want = int64(k)
		}
		hist = append(hist, fmt.Sprintf("+%ds: %d calls by %d goroutines -> %d (expected %d)", s, k, g, got, want))
		vk.Count("acquire_calls", k)
		if got != want {
			sig := "fewer calls granted than tokens are due"
			if got > want {
				sig = "more calls granted than tokens exist"
			}
			if g > 1 {
				sig += " under concurrency"
			}
			c.Violate(sig+" ("+name+")", map[string]interface{}{"capacity": capacity, "rate": rate, "history": hist})
			return
		}
		left -= got
		if left == 0 {
			empty = true
		}
	}
	key := ""
	if empty && refilled {
		key = fmt.Sprint(name, capacity, rate, hist)
	}
	c.Observed(key)
	if c.Index < 2 {
		c.Sample(map[string]interface{}{"impl": name, "capacity": capacity, "rate": rate, "history": hist})
	}
}

// Arbitrary instants: bounds that every correct bucket satisfies.
func TestAny(t *testing.T) {
	vk.Rule("any: calls at arbitrary nanosecond instants incl. sub-second polling and long idling; per-instant bound capacity, any-span bound capacity + rate*(span+1s), refill lower bounds after idling s whole seconds and within 2 s of polling; non-trivial when both grants and rejections occurred")
	vk.Cases("any", vk.N(6000, 200000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) { anyTimes(c) })
	})
}

func anyTimes(c *vk.Case) {
	kind := c.Intn(2)
	capacity, rate := 1+c.Intn(10), 1+c.Intn(12)
	if c.Intn(15) == 0 {
		rate = []int{1000, 1000000, 1000000000, 1<<31 - 1}[c.Intn(4)]
	}
	l, name := mk(kind, capacity, rate)
	type g struct {
		at int64
		n  int
	}
	var grants []g
	var hist []string
	fail := func(sig string) {
		c.Violate(sig+" ("+name+")", map[string]interface{}{"capacity": capacity, "rate": rate, "history": hist})
	}
	n := 5 + c.Intn(40)
	poll := c.Intn(3) == 0
	var pd time.Duration
	if poll {
		n += 40
		pd = []time.Duration{10 * time.Millisecond, 100 * time.Millisecond, 250 * time.Millisecond, 333 * time.Millisecond, 500 * time.Millisecond, 900 * time.Millisecond, 999999999}[c.Intn(7)]
		if pd < 100*time.Millisecond {
			n += 200
		}
	}
	low := int64(capacity) // tokens certainly left
	first := true
	rej, ok := 0, 0
	// polling: grants in the last two seconds
	start := time.Now().UnixNano()
	lastCall := start
	for i := 0; i < n; i++ {
		var d time.Duration
		if poll {
			d = pd
		} else {
			switch c.Intn(8) {
			case 0, 1:
			case 2:
				d = time.Duration(c.Int63n(int64(time.Second)))
			case 3:
				d = time.Second - 1
			case 4:
				d = time.Second + time.Duration(c.Intn(2))
			case 5:
				d = time.Duration(c.Int63n(int64(3 * time.Second)))
			case 6:
				d = time.Duration(c.Int63n(int64(200 * time.Second)))
			case 7:
				d = 1999999999
			}
		}
		time.Sleep(d)
		now := time.Now().UnixNano()
		k, gr := 1+c.Intn(3), 1
		if poll || c.Intn(3) == 0 {
			k = capacity + 2
		}
		if c.Intn(3) == 0 {
			gr = 2 + c.Intn(5)
		}
		low += int64(rate) * ((now - lastCall) / int64(time.Second))
		if low > int64(capacity) {
			low = int64(capacity)
		}
		lastCall = now
		got := burst(l, k, gr)
		hist = append(hist, fmt.Sprintf("t=+%v: %d calls by %d -> %d", time.Duration(now-start), k, gr, got))
		vk.Count("acquire_calls", k)
		if first {
			first = false
			if got != min(k, capacity) {
				fail("new bucket is not full")
				return
			}
		}
		if min(int64(k), low) > int64(got) {
			fail("starved: fewer calls granted than whole idle seconds are worth")
			return
		}
		low -= int64(got)
		if low < 0 {
			low = 0
		}
		grants = append(grants, g{now, got})
		// upper bounds, over every span that ends now
		sum := 0
		at := 0
		for j := len(grants) - 1; j >= 0; j-- {
			sum += grants[j].n
			span := now - grants[j].at
			if span == 0 {
				at = sum
			}
			limit := float64(capacity) + float64(rate)*(float64(span)/1e9+1)
			if span > 0 && float64(sum) > limit+1e-6 {
				fail(fmt.Sprintf("rate exceeded: more than capacity + rate*(span+1s) granted in a span"))
				return
			}
		}
		if at > capacity {
			fail("more than capacity calls granted at one instant")
			return
		}
		if poll && now-start >= int64(2*time.Second) {
			in := 0
			for _, x := range grants {
				if now-x.at < int64(2*time.Second) {
					in += x.n
				}
			}
			if in < min(rate, capacity) {
				fail("starved: polling got fewer than rate tokens in two seconds")
				return
			}
		}
		if got < k {
			rej++
		}
		if got > 0 {
			ok++
		}
	}
	key := ""
	if rej > 0 && ok > 1 {
		key = fmt.Sprint(name, capacity, rate, hist)
	}
	c.Observed(key)
	if c.Index < 2 {
		if len(hist) > 12 {
			hist = hist[:12]
		}
		c.Sample(map[string]interface{}{"impl": name, "capacity": capacity, "rate": rate, "history": hist})
	}
}

// Refill storms: parallel callers exactly at refill instants, many rounds, so
// that crediting and taking collide; conservation of tokens must be exact.
func TestStorm(t *testing.T) {
	vk.Rule("storm: many goroutines take tokens truly in parallel at every refill instant, for many rounds on one bucket; at each instant exactly min(capacity, left + rate*s) succeed; all such rounds are non-trivial")
	vk.Cases("storm", vk.N(960, 20000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) {
			kind := c.Intn(8) / 7 // mostly... decided below
			if c.Intn(4) > 0 {
				kind = 1
			}
			capacity, rate := 1+c.Intn(6), 1+c.Intn(6)
			l, name := mk(kind, capacity, rate)
			g := 4 + c.Intn(12)
			left := int64(capacity)
			var hist []string
			for r := 0; r < 40; r++ {
				s := int64(c.Intn(3))
				time.Sleep(time.Duration(s) * time.Second)
				left = min(int64(capacity), left+int64(rate)*s)
				var got atomic.Int64
				var wg sync.WaitGroup
				var ready atomic.Int64
				per := 1 + c.Intn(4)
				yields := c.Intn(3)
				for j := 0; j < g; j++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						ready.Add(1)
						for x := 0; ready.Load() < int64(g) && x < 100000; x++ {
							if x > 200 {
								runtime.Gosched()
							}
						}
						for i := 0; i < per; i++ {
							if l.Acquire() {
								got.Add(1)
							}
							for y := 0; y < yields; y++ {
								runtime.Gosched()
							}
						}
					}()
				}
				wg.Wait()
				want := min(int64(g*per), left)
				hist = append(hist, fmt.Sprintf("+%ds %dx%d calls left %d -> %d", s, g, per, left, got.Load()))
				if got.Load() != want {
					sig := "tokens lost under concurrency"
					if got.Load() > want {
						sig = "tokens created under concurrency"
					}
					c.Violate(sig+" ("+name+")", map[string]interface{}{"capacity": capacity, "rate": rate, "expected": want, "history": hist})
					return
				}
				left -= want
				vk.Count("storm_calls", g*per)
			}
			c.Observed(fmt.Sprint(name, capacity, rate, hist))
		})
	})
}

// Takers that are already under way when a refill falls due.
func TestStraddle(t *testing.T) {
	vk.Rule("straddle: real clock; on each of many buckets, several times, goroutines take without a pause from just before until just after a refill falls due, while the bucket is neither empty nor full; then it is drained: exactly capacity + rate*refills calls succeed in all; buckets whose drain was not over before the next refill are not counted, the others are non-trivial")
	vk.Cases("straddle", vk.N(16, 160), func(c *vk.Case) {
		const buckets, rounds, capacity, rate = 20, 4, 80000, 4000
		spacing := 40 * time.Millisecond
		var wg sync.WaitGroup
		var seen atomic.Int64
		for b := 0; b < buckets; b++ {
			kind := 1
			if c.Intn(6) == 0 {
				kind = 0
			}
			g := 3 + c.Intn(6)
			lead := time.Duration(50+c.Intn(200)) * time.Microsecond
			wg.Add(1)
			at := time.Duration(b) * spacing
			go func() {
				defer wg.Done()
				time.Sleep(at)
				// the last refill happened between early and last
				early := time.Now()
				l, name := mk(kind, capacity, rate)
				last := time.Now()
				var got atomic.Int64
				for i := 0; i < capacity*3/10; i++ {
					if l.Acquire() {
						got.Add(1)
					}
				}
				if time.Since(early) > 900*time.Millisecond {
					return // slow machine
				}
				for r := 0; r < rounds; r++ {
					due, sure := early.Add(time.Second), last.Add(time.Second)
					var in sync.WaitGroup
					for j := 0; j < g; j++ {
						in.Add(1)
						go func() {
							defer in.Done()
							time.Sleep(time.Until(due) - 2*time.Millisecond)
							for time.Until(due) > lead {
							}
							n := 0
							for i := 0; i < 600 || time.Since(sure) <= 0; i++ {
								if i >= 600 {
									time.Sleep(100 * time.Microsecond)
								}
								if l.Acquire() {
									n++
								}
							}
							got.Add(int64(n))
						}()
					}
					in.Wait()
					// one more, so that the refill surely happened
					if l.Acquire() {
						got.Add(1)
					}
					last = time.Now()
					if last.Sub(early) > 1900*time.Millisecond {
						return // slow machine: may have been credited for two seconds
					}
					early = due
				}
				for l.Acquire() && got.Load() < 2*capacity {
					got.Add(1)
				}
				if time.Since(early) > 950*time.Millisecond {
					return
				}
				seen.Add(1)
				if want := int64(capacity + rounds*rate); got.Load() != want {
					sig := "tokens lost under concurrency"
					if got.Load() > want {
						sig = "tokens created under concurrency"
					}
					c.Violate(sig+" ("+name+")", map[string]interface{}{"capacity": capacity, "rate": rate, "refills": rounds, "calls that succeeded until the bucket was empty": got.Load(), "expected": want, "goroutines": g})
				}
			}()
		}
		wg.Wait()
		vk.Count("buckets drained in time", int(seen.Load()))
		c.Observed(fmt.Sprint(c.Index, seen.Load()))
	})
}
