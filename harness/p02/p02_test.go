// Monitor of P02: permits of both semaphores.
package p02

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/chanjarster/gears/concurrent"
	"verif/harness/vk"
)

func TestMain(m *testing.M) { vk.Main(m, "P02") }

func mk(kind int, permits int64) (concurrent.Semaphore, string) {
	if kind == 0 {
		return concurrent.NewChanSemaphore(permits), "chan"
	}
	return concurrent.NewLockSemaphore(permits), "lock"
}

// Scripts: one operation at a time, each observed at quiescence (no goroutine
// can move any more), against an exact counter model.
func TestScript(t *testing.T) {
	vk.Rule("script: random operations (blocking Acquire in its own goroutine, TryAcquire, Release incl. over-release, bursts of k at once) with exact quiescence after each; the set of returned calls is compared with a counter model; non-trivial when at least one Acquire had to wait")
	vk.Cases("script", vk.N(4000, 100000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) { script(c) })
	})
}

func script(c *vk.Case) {
	kind := c.Intn(2)
	permits := int64(1 + c.Intn(5))
	if c.Intn(12) == 0 {
		permits = int64(50 + c.Intn(200))
	}
	pre := 0
	if c.Intn(50) == 0 {
		permits = int64(2000 + c.Intn(6000))
		pre = int(permits) - c.Intn(20)
	} else if kind == 1 && c.Intn(40) == 0 {
		permits = []int64{1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 40, 1<<63 - 1}[c.Intn(6)]
	}
	s, name := mk(kind, permits)
	var count, waiting int64 // model
	var returned, started atomic.Int64
	var expReturned int64
	var hist []string
	waited := false
	n := 10 + c.Intn(60)
	if permits > 40 && permits < 300 {
		n = 400
	}
	fail := func(sig string) bool {
		c.Violate(sig+" ("+name+")", map[string]interface{}{"permits": permits, "history": hist, "model_held": count, "model_waiting": waiting, "returned": returned.Load(), "expected": expReturned})
		return false
	}
	acquire := func(k int) {
		for i := 0; i < k; i++ {
			started.Add(1)
			go func() { s.Acquire(); returned.Add(1) }()
			if count < permits {
				count++
				expReturned++
			} else {
				waiting++
				waited = true
			}
		}
	}
	release := func(k int) {
		var done atomic.Int64
		for i := 0; i < k; i++ {
			go func() { s.Release(); done.Add(1) }()
			if count == 0 {
				continue
			}
			if waiting > 0 {
				waiting--
				expReturned++
			} else {
				count--
			}
		}
		synctest.Wait()
		if done.Load() != int64(k) {
			fail("Release blocked")
		}
	}
	ok := true
	for i := 0; i < pre; i++ {
		if !s.TryAcquire() {
			fail("TryAcquire returned false, permits free: true")
			vk.Abort()
		}
		count++
	}
	bias := c.Intn(3)
	for i := 0; i < n && ok; i++ {
		r := c.Intn(12)
		switch {
		case r < 4+bias:
			k := 1
			if c.Intn(3) == 0 {
				k = 1 + c.Intn(8)
			}
			hist = append(hist, fmt.Sprintf("acquire x%d", k))
			acquire(k)
		case r < 7+bias:
			hist = append(hist, "try")
			var res, fin atomic.Int64
			go func() {
				if s.TryAcquire() {
					res.Store(1)
				}
				fin.Store(1)
			}()
			synctest.Wait()
			if fin.Load() == 0 {
				fail("TryAcquire blocked")
				vk.Abort()
			}
			want := int64(0)
			if count < permits {
				want = 1
				count++
			}
			if res.Load() != want {
				ok = fail(fmt.Sprintf("TryAcquire returned %v, permits free: %v", res.Load() == 1, want == 1))
			}
		default:
			k := 1
			if c.Intn(4) == 0 {
				// releases of a burst may all take effect before any waiter
				// moves, so only as many as are held have a fixed outcome
				k = 1 + c.Intn(8)
				if int64(k) > count {
					k = int(count)
				}
				if k == 0 {
					k = 1
				}
			}
			hist = append(hist, fmt.Sprintf("release x%d", k))
			release(k)
		}
		synctest.Wait()
		if ok && returned.Load() != expReturned {
			if returned.Load() > expReturned {
				ok = fail("more Acquire calls returned than permits allow")
			} else {
				ok = fail("an Acquire stays blocked although a permit is free")
			}
		}
		vk.Count("script_ops", 1)
	}
	if !ok {
		vk.Abort()
	}
	// let every goroutine end
	for i := int64(0); returned.Load() < started.Load(); i++ {
		s.Release()
		synctest.Wait()
		if i > 10*started.Load()+1000 {
			fail("waiters are never let through by releases")
			vk.Abort()
		}
	}
	key := ""
	if waited {
		key = fmt.Sprint(name, permits, hist)
	}
	c.Observed(key)
	if c.Index < 2 {
		c.Sample(map[string]interface{}{"impl": name, "permits": permits, "history": hist})
	}
}

// Histories: truly parallel clients; the recorded history must be
// linearizable for a counter that never exceeds permits.
type op struct {
	Kind byte // 'A' 'T' 'R'
}

func TestLinear(t *testing.T) {
	vk.Rule("linear: parallel clients mixing Acquire, TryAcquire and (over-)Release; the recorded call/return history is checked by porcupine against a bounded counter, and pending Acquires at quiescence require a full semaphore; non-trivial when operations overlapped")
	vk.Cases("linear", vk.N(6000, 60000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) { linear(c) })
	})
}

func linear(c *vk.Case) {
	kind := c.Intn(2)
	permits := int64(1 + c.Intn(3))
	s, name := mk(kind, permits)
	clients := 2 + c.Intn(5)
	per := 3 + c.Intn(6)
	var clock atomic.Int64
	var mu sync.Mutex
	var ops []porcupine.Operation
	gate := make(chan struct{})
	var pending, done atomic.Int64
	over := c.Intn(3)
	for g := 0; g < clients; g++ {
		g := g
		plan := make([]byte, per)
		held := 0
		for i := range plan {
			switch r := c.Intn(10); {
			case r < 3:
				plan[i] = 'A'
				held++
			case r < 6:
				plan[i] = 'T'
			default:
				if held > 0 || over > 0 {
					plan[i] = 'R'
				} else {
					plan[i] = 'T'
				}
			}
		}
		spins := c.Intn(50)
		go func() {
			<-gate
			for _, k := range plan {
				for j := 0; j < spins; j++ {
					runtime.Gosched()
				}
				t0 := clock.Add(1)
				out := true
				switch k {
				case 'A':
					pending.Add(1)
					s.Acquire()
					pending.Add(-1)
				case 'T':
					out = s.TryAcquire()
				case 'R':
					s.Release()
				}
				t1 := clock.Add(1)
				mu.Lock()
				ops = append(ops, porcupine.Operation{ClientId: g, Input: op{k}, Output: out, Call: t0, Return: t1})
				mu.Unlock()
			}
			done.Add(1)
		}()
	}
	synctest.Wait()
	close(gate)
	synctest.Wait()
	// quiescent
	t0 := clock.Add(1)
	p := pending.Load()
	got := s.TryAcquire()
	t1 := clock.Add(1)
	ops = append(ops, porcupine.Operation{ClientId: clients, Input: op{'T'}, Output: got, Call: t0, Return: t1})
	if p > 0 && got {
		c.Violate("an Acquire stays blocked although a permit is free ("+name+")", hist(ops))
		vk.Abort()
	}
	if done.Load()+p != int64(clients) {
		c.Violate("TryAcquire or Release blocked ("+name+")", hist(ops))
		vk.Abort()
	}
	check := append([]porcupine.Operation(nil), ops...)
	// drain so that all goroutines end; these are not part of the history
	for i := 0; done.Load() < int64(clients); i++ {
		s.Release()
		synctest.Wait()
		if i > 10000 {
			c.Violate("waiters are never let through by releases ("+name+")", hist(check))
			vk.Abort()
		}
	}
	model := porcupine.Model{
		Init: func() interface{} { return int64(0) },
		Step: func(st, in, out interface{}) (bool, interface{}) {
			n := st.(int64)
			switch in.(op).Kind {
			case 'A':
				return n < permits, n + 1
			case 'T':
				if out.(bool) {
					return n < permits, n + 1
				}
				return n >= permits, n
			default:
				if n > 0 {
					n--
				}
				return true, n
			}
		},
	}
	switch porcupine.CheckOperationsTimeout(model, check, 20*time.Second) {
	case porcupine.Illegal:
		c.Violate("history is not that of a semaphore with these permits ("+name+")", map[string]interface{}{"permits": permits, "history": hist(check)})
	case porcupine.Unknown:
		vk.Count("linear_unknown", 1)
	}
	overlap := 0
	for i := range check {
		for j := range check {
			if i != j && check[i].Call < check[j].Call && check[j].Call < check[i].Return {
				overlap++
			}
		}
	}
	vk.Count("linear_ops", len(check))
	vk.Count("linear_overlapping_pairs", overlap)
	key := ""
	if overlap > 0 {
		key = name + hist(check)
	}
	c.Observed(key)
	if c.Index < 2 {
		c.Sample(map[string]interface{}{"impl": name, "permits": permits, "history": hist(check)})
	}
}

func hist(ops []porcupine.Operation) string {
	var b strings.Builder
	for _, o := range ops {
		fmt.Fprintf(&b, "[c%d %c=%v %d-%d]", o.ClientId, o.Input.(op).Kind, o.Output, o.Call, o.Return)
	}
	return b.String()
}

// Stress: truly parallel critical sections; occupancy is measured from inside.
func TestStress(t *testing.T) {
	vk.Rule("stress: many goroutines enter and leave critical sections through Acquire/TryAcquire; occupancy measured inside never exceeds permits, everyone finishes (no lost wake-up), and afterwards exactly permits are free")
	vk.Cases("stress", vk.N(1200, 12000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) {
			kind := c.Intn(2)
			permits := int64(1 + c.Intn(6))
			s, name := mk(kind, permits)
			g := int(permits) + 1 + c.Intn(20)
			iters := 10 + c.Intn(40)
			var in, max, fin, tries atomic.Int64
			hold := c.Intn(3)
			for i := 0; i < g; i++ {
				try := c.Intn(4) == 0
				go func() {
					for k := 0; k < iters; k++ {
						if try {
							if !s.TryAcquire() {
								tries.Add(1)
								runtime.Gosched()
								continue
							}
						} else {
							s.Acquire()
						}
						n := in.Add(1)
						for {
							m := max.Load()
							if n <= m || max.CompareAndSwap(m, n) {
								break
							}
						}
						switch hold {
						case 0:
							runtime.Gosched()
						case 1:
							time.Sleep(time.Duration(k % 3))
						}
						in.Add(-1)
						s.Release()
					}
					fin.Add(1)
				}()
			}
			time.Sleep(time.Hour) // virtual: fires only when all are blocked or done
			if fin.Load() != int64(g) {
				c.Violate("lost wake-up: goroutines stay blocked although all permits are free ("+name+")", fmt.Sprint("permits ", permits, " goroutines ", g, " finished ", fin.Load()))
				vk.Abort()
			}
			if max.Load() > permits {
				c.Violate("more holders than permits ("+name+")", fmt.Sprint("permits ", permits, " holders ", max.Load()))
			}
			free := int64(0)
			for s.TryAcquire() && free <= permits {
				free++
			}
			if free != permits {
				c.Violate("permits lost or created ("+name+")", fmt.Sprint("permits ", permits, " free afterwards ", free))
			}
			// over-release never creates permits
			for i := int64(0); i < 3*permits+3; i++ {
				s.Release()
			}
			free = 0
			for s.TryAcquire() && free <= permits {
				free++
			}
			if free != permits {
				c.Violate("over-release created or lost permits ("+name+")", fmt.Sprint("permits ", permits, " free afterwards ", free))
			}
			vk.Max("max_holders", int(max.Load()))
			vk.Count("stress_sections", g*iters)
			c.Observed(fmt.Sprint(name, permits, g, iters, hold, max.Load(), tries.Load()))
		})
	})
}

// Zero permits: nothing is ever granted.  The goroutines that stay blocked are
// left behind, so this runs on the real clock; only a grant is a violation.
func TestZero(t *testing.T) {
	vk.Rule("zero: semaphores without permits: TryAcquire is always false and no Acquire ever returns, whatever is released")
	vk.Cases("zero", vk.N(32, 200), func(c *vk.Case) {
		s, name := mk(c.Index%2, 0)
		var granted atomic.Int64
		k := 1 + c.Intn(3)
		for i := 0; i < k; i++ {
			go func() { s.Acquire(); granted.Add(1) }()
		}
		for i := 0; i < 20; i++ {
			if s.TryAcquire() {
				granted.Add(1)
			}
			s.Release()
			time.Sleep(time.Millisecond / 2)
		}
		if granted.Load() != 0 {
			c.Violate("a semaphore with zero permits granted one ("+name+")", granted.Load())
		}
		c.Observed(fmt.Sprint(name, k, c.Index))
	})
}

// More releases than permits, all at one instant: none may block, none may
// create a permit.
func TestOverRelease(t *testing.T) {
	vk.Rule("overrelease: 1 to 4 permits of which some are taken, then several goroutines start from one barrier, more of them releasing than permits are taken, some trying to acquire; at exact quiescence every call has returned, and what is free is what the counter says; non-trivial each, distinct by parameters and outcome")
	vk.Cases("overrelease", vk.N(20000, 400000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) {
			kind := c.Intn(3) / 2
			permits := 1 + c.Intn(4)
			s, name := mk(kind, int64(permits))
			taken := c.Intn(permits + 1)
			if c.Intn(2) == 0 {
				taken = 1
			}
			for i := 0; i < taken; i++ {
				s.Acquire()
			}
			g := taken + 1 + c.Intn(4)
			tries := 0
			if c.Intn(3) == 0 {
				tries = 1 + c.Intn(2)
			}
			var ready, done, got atomic.Int64
			var do atomic.Bool
			for i := 0; i < g+tries; i++ {
				rel := i < g
				go func() {
					ready.Add(1)
					for n := 0; !do.Load(); n++ {
						if n > 2000 {
							runtime.Gosched()
						}
					}
					if rel {
						s.Release()
					} else if s.TryAcquire() {
						got.Add(1)
					}
					done.Add(1)
				}()
			}
			for ready.Load() != int64(g+tries) {
				runtime.Gosched()
			}
			do.Store(true)
			synctest.Wait()
			det := fmt.Sprint("permits ", permits, " taken ", taken, " releases ", g, " tries ", tries, " returned ", done.Load(), " got ", got.Load())
			if done.Load() != int64(g+tries) {
				c.Violate("Release or TryAcquire blocked ("+name+")", det)
				vk.Abort()
			}
			free := 0
			for s.TryAcquire() && free <= permits {
				free++
			}
			// what was got may have been released again by a later release
			if free > permits || tries == 0 && free != permits || free < permits-int(got.Load()) {
				c.Violate("permits lost or created by releasing too often ("+name+")", det+fmt.Sprint(" free afterwards ", free))
			}
			c.Observed(fmt.Sprint(name, permits, taken, g, tries, got.Load(), free))
		})
	})
}
