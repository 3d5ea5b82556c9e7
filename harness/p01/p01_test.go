// Monitor of P01: the circuit breaker's state machine.
//
// Every call of Do is observed at its boundary (which callbacks ran, with what,
// at which virtual instant) and the whole history is replayed against a small
// sequential model.
package p01

import (
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/chanjarster/gears/circuitbreaker"
	"verif/harness/vk"
)

func TestMain(m *testing.M) { vk.Main(m, "P01"); os.Exit(0) }

// model is the specification: consecutive failures and when the latest was.
type model struct {
	threshold int
	reset     time.Duration
	failures  int
	last      time.Time
}

func (m *model) open(now time.Time) bool {
	return m.failures >= m.threshold && now.Sub(m.last) <= m.reset
}
func (m *model) state(now time.Time) string {
	switch {
	case m.failures < m.threshold:
		return "closed"
	case m.open(now):
		return "open"
	default:
		return "half"
	}
}
func (m *model) record(ok bool, now time.Time) {
	if ok {
		m.failures = 0
		m.last = time.Time{}
	} else {
		m.failures++
		m.last = now
	}
}

var resets = []time.Duration{0, 1, 2, 100, time.Microsecond, 999 * time.Microsecond, time.Millisecond, 100 * time.Millisecond,
	time.Second, time.Second + 1, 30 * time.Second, time.Minute, 5 * time.Minute, time.Hour, 24 * time.Hour, 1000*24*time.Hour + 1}

func TestSequential(t *testing.T) {
	vk.Rule("sequential: random threshold, resetTimeout and history of Do(success/failure/slow/nested) and delays at and around resetTimeout, one caller, virtual time; non-trivial when the breaker opened at least once")
	vk.Cases("sequential", vk.N(8000, 200000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) { sequential(c) })
	})
}

func sequential(c *vk.Case) {
	th := 1 + c.Intn(5)
	if c.Intn(10) == 0 {
		th = 20 + c.Intn(100)
	}
	if c.Intn(60) == 0 {
		th = 300 + c.Intn(1200)
	}
	rt := resets[c.Intn(len(resets))]
	if c.Intn(3) == 0 {
		rt = time.Duration(c.Int63n(int64(10 * time.Second)))
	}
	b := circuitbreaker.NewSyncCircuitBreaker(th, rt)
	m := &model{threshold: th, reset: rt}
	var script []string
	states := map[string]bool{}
	bad := false
	fail := func(sig string) {
		if bad {
			return
		}
		bad = true
		c.Violate(sig, map[string]interface{}{"threshold": th, "resetTimeout": rt.String(), "history": script})
	}
	var do func(depth int)
	do = func(depth int) {
		exp := m.state(time.Now())
		states[exp] = true
		var nTask, nErr, nOpen int
		// failures dominate, so that the threshold is reached
		out := c.Intn(100) < 78
		var dur time.Duration
		if c.Intn(4) == 0 {
			dur = time.Duration(c.Int63n(int64(rt) + 10))
		}
		nest := ""
		if depth < 3 && c.Intn(8) == 0 {
			nest = []string{"task", "onError", "onOpen"}[c.Intn(3)]
		}
		theErr := fmt.Errorf("e%d", c.Int())
		script = append(script, fmt.Sprintf("%s%s Do(fail=%v dur=%v nest=%s) expect %s f=%d", strings.Repeat(" ", depth), time.Now().Format("15:04:05.000000000"), out, dur, nest, exp, m.failures))
		b.Do(func() error {
			nTask++
			time.Sleep(dur)
			if nest == "task" {
				do(depth + 1)
			}
			var e error
			if out {
				e = theErr
			}
			m.record(!out, time.Now())
			return e
		}, func(e error) {
			nErr++
			if e != theErr {
				fail("onError got another error")
			}
			if nest == "onError" {
				do(depth + 1)
			}
		}, func() {
			nOpen++
			if nest == "onOpen" {
				do(depth + 1)
			}
		})
		switch {
		case exp == "open" && (nTask != 0 || nErr != 0 || nOpen != 1):
			fail("open breaker: task or onError ran, or onOpen not called exactly once")
		case exp != "open" && (nTask != 1 || nOpen != 0):
			fail(exp + " breaker: task not run exactly once, or onOpen called")
		case exp != "open" && nErr != map[bool]int{true: 1, false: 0}[out]:
			fail("onError not called exactly when the task failed")
		}
		vk.Count("do_"+exp, 1)
	}
	n := 5 + c.Intn(60)
	for i := 0; i < n && !bad; i++ {
		if c.Intn(3) == 0 {
			d := time.Duration(0)
			switch c.Intn(7) {
			case 0:
				d = rt
			case 1:
				d = rt + 1
			case 2:
				d = rt - 1
			case 3:
				d = 2*rt + 5
			case 4: // to exactly the boundary of the pending block
				if m.failures > 0 {
					d = m.last.Add(rt).Sub(time.Now()) + time.Duration(c.Intn(3)-1)
				}
			default:
				d = time.Duration(c.Int63n(int64(rt) + 3))
			}
			if d > 0 {
				time.Sleep(d)
			}
			script = append(script, "sleep "+d.String())
		}
		do(0)
	}
	key := ""
	if states["open"] {
		key = fmt.Sprint(th, rt, script)
	}
	c.Observed(key)
	if c.Index < 2 {
		s := script
		if len(s) > 12 {
			s = s[:12]
		}
		c.Sample(map[string]interface{}{"threshold": th, "reset": rt.String(), "history": s})
	}
}

// Overlapping calls: every start and end has its own instant, so the order of
// all decisions and recordings is known and the model applies exactly.
func TestOverlap(t *testing.T) {
	vk.Rule("overlap: many goroutines with overlapping slow tasks, all start and end instants distinct in virtual time; the decision of every call is replayed against the model; non-trivial when some call met an open breaker while another task was in flight")
	vk.Cases("overlap", vk.N(6000, 150000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) { overlap(c) })
	})
}

type call struct {
	Start, Dur int64
	Fail       bool
	ran, nerr  int32
	nopen      int32
	wrong      int32
}

func overlap(c *vk.Case) {
	n := 3 + c.Intn(30)
	th := 1 + c.Intn(6)
	rt := int64(1 + c.Intn(400))
	span := int64(50 + c.Intn(2000))
	used := map[int64]bool{}
	fresh := func(lo, hi int64) int64 {
		for {
			v := lo + c.Int63n(hi-lo+1)
			if !used[v] {
				used[v] = true
				return v
			}
			hi++
		}
	}
	calls := make([]*call, n)
	for i := range calls {
		s := fresh(1, span+int64(2*n))
		e := fresh(s+1, s+1+int64(c.Intn(300)))
		calls[i] = &call{Start: s, Dur: e - s, Fail: c.Intn(100) < 75}
	}
	b := circuitbreaker.NewSyncCircuitBreaker(th, time.Duration(rt))
	t0 := time.Now()
	var wg sync.WaitGroup
	for _, k := range calls {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(k.Start))
			e := errors.New("x")
			b.Do(func() error {
				atomic.AddInt32(&k.ran, 1)
				time.Sleep(time.Duration(k.Dur))
				if k.Fail {
					return e
				}
				return nil
			}, func(g error) {
				atomic.AddInt32(&k.nerr, 1)
				if g != e {
					atomic.AddInt32(&k.wrong, 1)
				}
			}, func() { atomic.AddInt32(&k.nopen, 1) })
		}()
	}
	wg.Wait()
	// replay
	m := &model{threshold: th, reset: time.Duration(rt)}
	type ev struct {
		at  int64
		k   *call
		end bool
	}
	var evs []ev
	for _, k := range calls {
		evs = append(evs, ev{k.Start, k, false}, ev{k.Start + k.Dur, k, true})
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
	running := map[*call]bool{}
	inflight, openMet, met := 0, 0, false
	var hist []string
	for _, e := range evs {
		now := t0.Add(time.Duration(e.at))
		if e.end {
			if running[e.k] {
				inflight--
				m.record(!e.k.Fail, now)
				hist = append(hist, fmt.Sprintf("%d end fail=%v -> f=%d", e.at, e.k.Fail, m.failures))
			}
			continue
		}
		st := m.state(now)
		hist = append(hist, fmt.Sprintf("%d start: expect %s, observed task=%d open=%d err=%d", e.at, st, e.k.ran, e.k.nopen, e.k.nerr))
		wantErr := int32(0)
		if st != "open" && e.k.Fail {
			wantErr = 1
		}
		ok := e.k.nerr == wantErr && e.k.wrong == 0
		if st == "open" {
			openMet++
			if inflight > 0 {
				met = true
			}
			ok = ok && e.k.ran == 0 && e.k.nopen == 1
		} else {
			ok = ok && e.k.ran == 1 && e.k.nopen == 0
			running[e.k] = true
			inflight++
		}
		if !ok {
			c.Violate("overlapping calls: decision differs from the model ("+st+")", map[string]interface{}{"threshold": th, "reset_ns": rt, "calls": calls, "history": hist})
			break
		}
	}
	vk.Count("overlap_calls", n)
	vk.Count("overlap_open_decisions", openMet)
	key := ""
	if met {
		key = strings.Join(hist, ";")
	}
	c.Observed(key)
	if c.Index < 2 {
		c.Sample(map[string]interface{}{"threshold": th, "reset_ns": rt, "history": hist})
	}
}

// Bursts: N goroutines fail (or succeed) truly in parallel at one instant.
func TestBurst(t *testing.T) {
	vk.Rule("burst: N goroutines call Do at the same instant truly in parallel (race-instrumented); all failures must be counted: with N = threshold the breaker must be open afterwards, with N = threshold-1 closed; half-open and closing bursts likewise")
	vk.Cases("burst", vk.N(6000, 150000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) { burst(c) })
	})
}

func burst(c *vk.Case) {
	n := 2 + c.Intn(12)
	rt := time.Duration(1 + c.Intn(1000))
	extra := c.Intn(2) // 0: exactly n failures needed, 1: one more needed
	b := circuitbreaker.NewSyncCircuitBreaker(n+extra, rt)
	round := func(k int, fail bool) (ran, opened, errs int32) {
		gate := make(chan struct{})
		var wg sync.WaitGroup
		inTask := new(int32)
		for i := 0; i < k; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				b.Do(func() error {
					atomic.AddInt32(&ran, 1)
					atomic.AddInt32(inTask, 1)
					// all tasks finish together so that the recordings collide
					for j := 0; j < 2000 && atomic.LoadInt32(inTask) < int32(k); j++ {
					}
					if fail {
						return errors.New("x")
					}
					return nil
				}, func(error) { atomic.AddInt32(&errs, 1) }, func() { atomic.AddInt32(&opened, 1) })
			}()
		}
		synctest.Wait()
		close(gate)
		wg.Wait()
		return
	}
	var hist []string
	// A burst of successes racing nothing: nothing changes.
	if c.Intn(3) == 0 {
		if r, o, e := round(n, false); int(r) != n || o != 0 || e != 0 {
			c.Violate("burst of successes on a closed breaker rejected", fmt.Sprint(n, r, o, e))
			return
		}
	}
	// n failures: before the threshold-th recording calls may be admitted or,
	// after it, rejected; with threshold >= n all are admitted.
	r, o, e := round(n, true)
	hist = append(hist, fmt.Sprintf("%d concurrent failures (threshold %d): ran %d open %d onError %d", n, n+extra, r, o, e))
	if int(r) != n || o != 0 || int(e) != n {
		c.Violate("burst of failures below the threshold rejected", hist)
		return
	}
	if extra == 1 {
		if r, o, _ = round(1, true); r != 1 || o != 0 {
			c.Violate("breaker opened before the threshold", hist)
			return
		}
	}
	r, o, _ = round(n, false)
	hist = append(hist, fmt.Sprintf("then %d calls at once: ran %d open %d", n, r, o))
	if r != 0 || int(o) != n {
		c.Violate("recorded failures lost: breaker not open after threshold failures", hist)
		return
	}
	time.Sleep(rt)
	if r, o, _ = round(1, false); r != 0 || o != 1 {
		c.Violate("breaker admitted a task before resetTimeout passed", hist)
		return
	}
	time.Sleep(1)
	if c.Intn(2) == 0 { // failing probes re-open
		r, o, _ = round(n, true)
		hist = append(hist, fmt.Sprintf("half-open failing burst: ran %d open %d", r, o))
		if r < 1 || int(r+o) != n {
			c.Violate("half-open breaker ran no task", hist)
			return
		}
		time.Sleep(rt)
		if r, o, _ = round(n, true); r != 0 || int(o) != n {
			c.Violate("failed probe did not re-open for a full resetTimeout", hist)
			return
		}
		time.Sleep(1)
	}
	r, o, _ = round(1, false)
	if r != 1 || o != 0 {
		c.Violate("half-open breaker rejected a probe", hist)
		return
	}
	// closed again: n-1+extra failures do not open it
	if k := n - 1 + extra; k > 0 {
		r, o, _ = round(k, true)
		if int(r) != k || o != 0 {
			c.Violate("breaker did not close after a success", hist)
			return
		}
		if r, o, _ = round(1, true); r != 1 || o != 0 {
			c.Violate("failures before the success still counted", hist)
			return
		}
		if r, o, _ = round(1, true); r != 0 || o != 1 {
			c.Violate("breaker not open after threshold failures", hist)
			return
		}
	}
	vk.Count("burst_goroutines", n)
	c.Observed(fmt.Sprint(n, extra, rt, hist))
	if c.Index < 2 {
		c.Sample(hist)
	}
}

// Re-entrant use under contention, with a real clock: nothing hangs.
func TestReentrant(t *testing.T) {
	vk.Rule("reentrant: goroutines on the real clock whose task, onError and onOpen call the breaker again; every Do must return having made exactly one choice")
	vk.Cases("reentrant", vk.N(160, 2000), func(c *vk.Case) {
		th := 1 + c.Intn(4)
		b := circuitbreaker.NewSyncCircuitBreaker(th, time.Duration(c.Intn(3))*time.Microsecond)
		var bad, ran, opened atomic.Int64
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			seed := vk.NewCase(c.ID(), g)
			wg.Add(1)
			go func() {
				defer wg.Done()
				var do func(d int)
				do = func(d int) {
					var nt, ne, no int
					fail := seed.Intn(4) > 0
					where := seed.Intn(4)
					e := errors.New("x")
					b.Do(func() error {
						nt++
						ran.Add(1)
						if where == 0 && d < 3 {
							do(d + 1)
						}
						if fail {
							return e
						}
						return nil
					}, func(x error) {
						ne++
						if x != e {
							bad.Add(1)
						}
						if where == 1 && d < 3 {
							do(d + 1)
						}
					}, func() {
						no++
						opened.Add(1)
						if where == 2 && d < 3 {
							do(d + 1)
						}
					})
					if nt+no != 1 || (ne == 1) != (nt == 1 && fail) || ne > 1 {
						bad.Add(1)
					}
				}
				for i := 0; i < 60; i++ {
					do(0)
				}
			}()
		}
		wg.Wait()
		if bad.Load() > 0 {
			c.Violate("a Do did not make exactly one choice", bad.Load())
		}
		vk.Count("reentrant_ran", int(ran.Load()))
		vk.Count("reentrant_open", int(opened.Load()))
		c.Observed(fmt.Sprint(c.Index, ran.Load(), opened.Load()))
	})
}

func TestNeverOpen(t *testing.T) {
	vk.Rule("neveropen: NeverOpen with arbitrary failure runs always runs the task, calls onError with its error and never onOpen")
	vk.Cases("neveropen", vk.N(200, 2000), func(c *vk.Case) {
		n := 1 + c.Intn(200)
		for i := 0; i < n; i++ {
			var nt, ne, no int
			var e error
			if c.Intn(5) > 0 {
				e = errors.New("x")
			}
			var ifc circuitbreaker.Interface = circuitbreaker.NeverOpen
			ifc.Do(func() error { nt++; return e }, func(x error) {
				ne++
				if x != e {
					c.Violate("NeverOpen: wrong error", nil)
				}
			}, func() { no++ })
			if nt != 1 || no != 0 || (ne == 1) != (e != nil) {
				c.Violate("NeverOpen did not just run the task", fmt.Sprint(nt, ne, no, e))
				return
			}
		}
		c.Observed(fmt.Sprint(n, c.Int()))
	})
}

// Failures that arrive while the breaker is open, on the real clock.
func TestLate(t *testing.T) {
	vk.Rule("late: real clock; tasks begun while the breaker was closed fail one after the other after it has opened, and meanwhile goroutines call Do without a pause; none of their tasks may run, and each calls onOpen once; non-trivial when at least one late failure arrived between two such calls")
	vk.Cases("late", vk.N(48, 480), func(c *vk.Case) {
		threshold := 1 + c.Intn(4)
		slow, depth := 20+c.Intn(100), 1
		switch c.Index % 24 {
		case 5:
			depth = 600 + c.Intn(100) // nested calls, so more than 2^16 for sure
			slow = 110
		case 9:
			threshold = 66000 + c.Intn(2000)
		case 3, 11:
			slow = 300 + c.Intn(2000)
		case 7, 15:
			threshold = 100 + c.Intn(2000)
		}
		b := circuitbreaker.NewSyncCircuitBreaker(threshold, []time.Duration{time.Hour, 1000 * time.Hour}[c.Intn(2)])
		fail := errors.New("late failure")
		gate := make(chan struct{})
		var started sync.WaitGroup
		var wg sync.WaitGroup
		var onError atomic.Int64
		for i := 0; i < slow; i++ {
			started.Add(1)
			wg.Add(1)
			go func() {
				defer wg.Done()
				var do func(n int)
				do = func(n int) {
					b.Do(func() error {
						if n > 1 {
							do(n - 1)
						} else {
							started.Done()
							<-gate
						}
						return fail
					}, func(error) { onError.Add(1) }, func() {})
				}
				do(depth)
			}()
		}
		started.Wait()
		for i := 0; i < threshold; i++ {
			task := false
			b.Do(func() error { task = true; return fail }, func(error) {}, func() {})
			if !task {
				c.Violate("the task did not run although the breaker was closed", map[string]interface{}{"threshold": threshold, "failures before": i})
			}
		}
		var ran, opened, calls, done atomic.Int64
		g := 2 + c.Intn(5)
		var callers sync.WaitGroup
		for i := 0; i < g; i++ {
			callers.Add(1)
			go func() {
				defer callers.Done()
				for done.Load() == 0 {
					calls.Add(1)
					b.Do(func() error { ran.Add(1); return fail }, func(error) {}, func() { opened.Add(1) })
				}
			}()
		}
		for i := 0; i < slow; i++ {
			gate <- struct{}{}
			if c.Intn(2) == 0 && (slow < 200 || c.Intn(slow/100) == 0) {
				before := calls.Load()
				for x := 0; calls.Load() < before+int64(g) && x < 10000; x++ {
				}
			}
		}
		wg.Wait()
		done.Store(1)
		callers.Wait()
		det := map[string]interface{}{"threshold": threshold, "late failures": slow * depth, "calls": calls.Load(), "onOpen": opened.Load(), "tasks run": ran.Load(), "onError": onError.Load()}
		switch {
		case ran.Load() > 0:
			c.Violate("a task ran although the breaker was open and all that happened were failures", det)
		case opened.Load() != calls.Load():
			c.Violate("onOpen was not called once per call", det)
		case onError.Load() != int64(slow*depth):
			c.Violate("onError was not called once per failure", det)
		}
		vk.Count("late failures", slow*depth)
		key := ""
		if calls.Load() > int64(2*g) {
			key = fmt.Sprint(c.Index, threshold, slow, calls.Load())
		}
		c.Observed(key)
	})
}
