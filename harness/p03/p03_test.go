// Monitor of P03: the fixed window limiter, against exact window arithmetic.
package p03

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/chanjarster/gears/ratelimiter"
	"verif/harness/vk"
)

func TestMain(m *testing.M) { vk.Main(m, "P03") }

// window returns the number of the interval (k*w, (k+1)*w] that contains ts.
func window(ts, w int64) int64 {
	k := ts / w
	if ts%w == 0 {
		k--
	}
	return k
}

var sizes = []time.Duration{1, 2, 3, 7, 10, 100, 128, 1000, 12345, time.Microsecond * 17, time.Millisecond, 1500 * time.Microsecond,
	100 * time.Millisecond, time.Second, 1300 * time.Millisecond, 7 * time.Second, time.Minute, 10 * time.Minute, time.Hour, 24 * time.Hour}

func pickSize(c *vk.Case) time.Duration {
	switch c.Intn(4) {
	case 0:
		return time.Duration(1 + c.Int63n(int64(time.Hour)))
	case 1:
		return time.Duration(1 + c.Int63n(int64(time.Millisecond)))
	}
	return sizes[c.Intn(len(sizes))]
}

// delay picks the next pause: nothing, small, up to and around window
// boundaries, many windows.
func delay(c *vk.Case, w int64) int64 {
	now := time.Now().UnixNano()
	toEnd := (window(now, w)+1)*w - now // until the closed right end
	switch c.Intn(11) {
	case 0, 1:
		return 0
	case 2:
		return toEnd
	case 3:
		return toEnd + 1
	case 4:
		return toEnd - 1
	case 5:
		return toEnd + w*c.Int63n(1000)
	case 6:
		return toEnd + 1 + w*c.Int63n(1000)
	case 7:
		return toEnd + c.Int63n(64) - 32
	case 8:
		return c.Int63n(3*w + 1)
	case 9:
		// a long idle gap of some days up to 30 years, ending near a boundary
		gap := c.Int63n(int64(30*365*24)*int64(time.Hour)) / 16
		n := now + gap
		return gap + ((window(n, w)+1)*w - n) + c.Int63n(200) - 100
	default:
		return c.Int63n(w/4 + 2)
	}
}

func TestCalls(t *testing.T) {
	vk.Rule("calls: random capacity and window (1 ns .. 1 day), virtual-time call sequences with pauses of zero, around window boundaries (one ns either side), of many windows and of years; each instant sees 1..k sequential calls or a truly parallel burst; every grant is compared with exact integer window arithmetic; non-trivial when some window was exhausted and another one later granted")
	vk.Cases("calls", vk.N(20000, 200000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) { calls(c) })
	})
}

func calls(c *vk.Case) {
	w := int64(pickSize(c))
	capacity := c.Intn(7)
	if c.Intn(10) == 0 {
		capacity = c.Intn(200)
	}
	big := c.Intn(80) == 0
	if big {
		capacity = []int{1000, 10000, 70000, 1 << 31, 1 << 40, 1<<63 - 1}[c.Intn(6)]
	}
	if d := delay(c, w); d > 0 { // the first call near a boundary, too
		time.Sleep(time.Duration(d))
	}
	l := ratelimiter.NewSyncFixedWindow(capacity, time.Duration(w))
	if l.Capacity() != capacity || l.WindowSize() != time.Duration(w) {
		c.Violate("Capacity or WindowSize not as configured", fmt.Sprint(capacity, w, l.Capacity(), l.WindowSize()))
		return
	}
	granted := map[int64]int{}
	var hist []string
	exhausted, again := false, false
	total := int64(0)
	n := 3 + c.Intn(25)
	for i := 0; i < n; i++ {
		d := delay(c, w)
		if d > 0 && total+d < int64(200*365*24)*int64(time.Hour)/2 {
			time.Sleep(time.Duration(d))
			total += d
		}
		now := time.Now().UnixNano()
		k := window(now, w)
		calls := 0
		if big {
			calls = 1 + c.Intn(min(capacity, 70000)/3+2)
		} else {
			calls = 1 + c.Intn(capacity+3)
		}
		par := calls > 1 && calls < 5000 && c.Intn(2) == 0
		var got int64
		if par {
			var wg sync.WaitGroup
			gate := make(chan struct{})
			for j := 0; j < calls; j++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-gate
					if l.Acquire() {
						atomic.AddInt64(&got, 1)
					}
				}()
			}
			synctest.Wait()
			close(gate)
			wg.Wait()
		} else {
			for j := 0; j < calls; j++ {
				if l.Acquire() {
					got++
				}
			}
		}
		want := int64(capacity - granted[k])
		if want > int64(calls) {
			want = int64(calls)
		}
		granted[k] += int(got)
		hist = append(hist, fmt.Sprintf("t=%d window=%d calls=%d parallel=%v granted=%d expected=%d", now, k, calls, par, got, want))
		if got != want {
			sig := "a call was rejected although its window had room"
			if got > want {
				sig = "more than capacity calls granted in one window"
			}
			c.Violate(sig, map[string]interface{}{"capacity": capacity, "window_ns": w, "history": hist})
			return
		}
		if want < int64(calls) {
			exhausted = true
		} else if exhausted {
			again = true
		}
		vk.Count("acquire_calls", calls)
	}
	vk.Count("windows_touched", len(granted))
	key := ""
	if exhausted && again {
		key = fmt.Sprint(capacity, w, hist)
	}
	c.Observed(key)
	if c.Index < 2 {
		c.Sample(map[string]interface{}{"capacity": capacity, "window_ns": w, "history": hist})
	}
}

// Real clock, truly parallel: counts per wall-clock window can only be bounded
// from the outside (the instant used by a call lies between its start and end).
func TestRealClock(t *testing.T) {
	vk.Rule("realclock: goroutines call Acquire on the real clock; calls certainly inside one window are never granted more than capacity times")
	vk.Cases("realclock", vk.N(96, 600), func(c *vk.Case) {
		w := int64(time.Millisecond) * int64(1+c.Intn(4))
		capacity := 1 + c.Intn(50)
		l := ratelimiter.NewSyncFixedWindow(capacity, time.Duration(w))
		var mu sync.Mutex
		sure := map[int64]int{}
		granted := 0
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 400; i++ {
					a := time.Now().UnixNano()
					ok := l.Acquire()
					b := time.Now().UnixNano()
					if ok {
						mu.Lock()
						granted++
						if window(a, w) == window(b, w) {
							sure[window(a, w)]++
						}
						mu.Unlock()
					} else if i%8 == 0 {
						time.Sleep(50 * time.Microsecond)
					}
				}
			}()
		}
		wg.Wait()
		for k, n := range sure {
			// A caller that read the clock before the boundary and was then
			// overtaken is counted in the later window, so the bound is on
			// grants whose call lies completely inside the window.
			if n > capacity {
				c.Violate("more than capacity calls granted inside one wall-clock window", fmt.Sprint(k, n, capacity))
			}
		}
		vk.Count("realclock_granted", granted)
		c.Observed(fmt.Sprint(c.Index, granted))
	})
}
