// Monitor of P17: life cycle of tasks.
package p17

import (
	"errors"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/chanjarster/gears/schedule"
	"verif/harness/sched"
	"verif/harness/vk"
)

func TestMain(m *testing.M) { vk.Main(m, "P17") }

func TestCancel(t *testing.T) {
	vk.Rule("cancel: scenarios of both task kinds in virtual time (see sched): the instant each running job saw its cancel channel close must be exactly min(start+timeout, stop), never earlier, and it must have closed if the job outlived that instant; Stop takes no time; after everything returned and a pending timer ran out no goroutine of the task is left; non-trivial when a job was cancelled, distinct by the scenario")
	vk.Cases("cancel", vk.N(12000, 400000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) {
			tr := sched.Run(c, c.Intn(2) == 0)
			bad := func(sig string) { c.Violate(sig, tr.Desc()) }
			if len(tr.Bad) > 0 {
				bad("a life cycle call misbehaved")
			}
			cancels := 0
			for _, j := range tr.Jobs {
				due := j.Start + tr.Timeout
				if tr.StopAt < due {
					due = tr.StopAt
				}
				if j.Start > tr.StopAt {
					bad("a job began after the stop")
				}
				if j.Cancel >= 0 {
					cancels++
				}
				switch {
				case j.Cancel >= 0 && j.Cancel < due:
					bad("a job was cancelled before its timeout and the stop")
				case j.Cancel > due:
					bad("a job was cancelled late")
				case j.Cancel < 0 && j.End > due:
					bad("a job outlived its timeout or the stop and was not cancelled")
				}
			}
			if g := vk.GearsGoroutines(); len(g) > 0 {
				// only this goroutine may have the library on its stack, and it has not
				c.Violate("a goroutine of the task is left after the stop", map[string]interface{}{"trace": tr.Desc(), "goroutines": g})
			}
			vk.Count("jobs", len(tr.Jobs))
			vk.Count("cancelled jobs", cancels)
			key := ""
			if cancels > 0 {
				key = tr.Key()
			}
			c.Sample(tr.Desc())
			c.Observed(key)
		})
	})
}

func mk(rate bool, name string, job schedule.JobFunc, iv, to time.Duration) schedule.Task {
	if rate {
		return schedule.NewFixedRateTask(name, job, iv, to)
	}
	return schedule.NewFixedDelayTask(name, job, iv, to)
}

func TestCalls(t *testing.T) {
	vk.Rule("calls: sequences of Start, MustStart, Stop and MustStop, alone and by up to 8 goroutines at once, while jobs run, block or have ended, in virtual time; exactly one Start succeeds, exactly one later Stop, every other call reports an error (Must: panics), no call takes time; non-trivial when calls of both kinds were refused, distinct by the sequence")
	vk.Cases("calls", vk.N(6000, 200000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) {
			block := make(chan struct{})
			mode := c.Intn(3)
			var begun atomic.Int64
			var stoppedAt atomic.Int64
			stoppedAt.Store(-1)
			late := atomic.Bool{}
			t0 := time.Now()
			task := mk(c.Intn(2) == 0, "t", func(cancel <-chan struct{}) error {
				begun.Add(1)
				if s := stoppedAt.Load(); s >= 0 && int64(time.Since(t0)) > s {
					late.Store(true)
				}
				switch mode {
				case 0:
					<-block
				case 1:
					<-cancel
				}
				return nil
			}, time.Second, time.Minute)
			state := 0 // 0 new, 1 started, 2 stopped
			var hist []string
			refStart, refStop := 0, 0
			bad := func(sig, what string) {
				c.Violate(sig, map[string]interface{}{"what": what, "history": hist})
			}
			call := func(op int) (ok bool) {
				var err error
				switch op {
				case 0:
					err = task.Start()
				case 1:
					err = task.Stop()
				case 2:
					_, p := vk.Catch(task.MustStart)
					return !p
				case 3:
					_, p := vk.Catch(task.MustStop)
					return !p
				}
				return err == nil
			}
			steps := 2 + c.Intn(6)
			for i := 0; i < steps; i++ {
				n := 1
				if c.Intn(2) == 0 {
					n = 2 + c.Intn(7)
				}
				only := -1
				if c.Intn(2) == 0 {
					only = c.Intn(2)
				}
				ops := make([]int, n)
				res := make([]bool, n)
				for k := range ops {
					ops[k] = c.Intn(4)
					if only >= 0 {
						ops[k] = only + 2*c.Intn(2)
					}
				}
				a := time.Now()
				gate := make(chan struct{})
				var wg sync.WaitGroup
				for k := range ops {
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-gate
						res[k] = call(ops[k])
					}()
				}
				close(gate)
				wg.Wait()
				if d := time.Since(a); d != 0 {
					bad("a life cycle call blocked", d.String())
				}
				hist = append(hist, fmt.Sprintf("ops %v -> %v (mode %d)", ops, res, mode))
				starts, stops, nst, nsp := 0, 0, 0, 0
				for k := range ops {
					if ops[k]%2 == 0 {
						nst++
						if res[k] {
							starts++
						} else {
							refStart++
						}
					} else {
						nsp++
						if res[k] {
							stops++
						} else {
							refStop++
						}
					}
				}
				switch state {
				case 0:
					if (nst > 0) != (starts == 1) || starts > 1 || stops > starts {
						bad("Start or Stop of a new task succeeded wrongly", "")
					}
				case 1:
					if starts > 0 || (nsp > 0) != (stops == 1) || stops > 1 {
						bad("Start or Stop of a started task succeeded wrongly", "")
					}
				case 2:
					if starts > 0 || stops > 0 {
						bad("Start or Stop of a stopped task succeeded", "")
					}
				}
				if starts > 0 {
					state = 1
				}
				if stops > 0 {
					state = 2
					stoppedAt.Store(int64(time.Since(t0)))
				}
				if c.Intn(2) == 0 {
					time.Sleep(time.Duration(c.Int63n(int64(3 * time.Second))))
				}
			}
			if state == 1 {
				synctest.Wait()
				if begun.Load() == 0 {
					bad("a started task ran nothing", "")
				}
				task.Stop()
				stoppedAt.Store(int64(time.Since(t0)))
			}
			if state == 0 && begun.Load() > 0 {
				bad("a task that was not started ran a job", "")
			}
			close(block)
			time.Sleep(10 * time.Second)
			synctest.Wait()
			if late.Load() {
				bad("a job began after the stop", "")
			}
			if g := vk.GearsGoroutines(); len(g) > 0 {
				bad("a goroutine of the task is left after the stop", fmt.Sprint(g))
			}
			key := ""
			if refStart > 0 && refStop > 0 {
				key = fmt.Sprint(hist)
			}
			c.Observed(key)
		})
	})
}

func TestNew(t *testing.T) {
	vk.Rule("new: constructors with blank names (all white space), non-positive intervals and timeouts and nil jobs alone and together must panic, with valid arguments they must not and the name is kept; non-trivial each")
	vk.Cases("new", vk.N(2000, 20000), func(c *vk.Case) {
		names := []string{"", " ", "\t\n", "\u00a0", "\u3000 ", "a", " a ", "任务", "a b", "\x00", "%s"}
		blank := 5
		durs := []time.Duration{0, -1, -time.Hour, -1 << 63, 1, time.Second, 1<<63 - 1}
		ni, ii, ti := c.Intn(len(names)), c.Intn(len(durs)), c.Intn(len(durs))
		if c.Intn(2) == 0 {
			ni = blank + c.Intn(len(names)-blank)
		}
		if c.Intn(2) == 0 {
			ii = 4 + c.Intn(3)
		}
		if c.Intn(2) == 0 {
			ti = 4 + c.Intn(3)
		}
		var job schedule.JobFunc
		if c.Intn(4) > 0 {
			job = func(<-chan struct{}) error { return nil }
		}
		rate := c.Intn(2) == 0
		wantPanic := ni < blank || ii < 4 || ti < 4 || job == nil
		var task schedule.Task
		_, p := vk.Catch(func() { task = mk(rate, names[ni], job, durs[ii], durs[ti]) })
		d := fmt.Sprintf("rate %v name %q interval %d timeout %d nil job %v", rate, names[ni], durs[ii], durs[ti], job == nil)
		if p != wantPanic {
			c.Violate("a constructor accepts or refuses its arguments wrongly", d)
		}
		if !p && task.Name() != names[ni] {
			c.Violate("a task has another name", d)
		}
		c.Observed(d)
	})
}

func TestReal(t *testing.T) {
	vk.Rule("real: tasks with microsecond intervals in real time, started and stopped by several goroutines at random moments; exactly one Start and one Stop succeed, jobs of a fixed-delay task never overlap, no goroutine remains; non-trivial when at least two jobs ran")
	vk.Cases("real", vk.N(400, 20000), func(c *vk.Case) {
		rate := c.Intn(2) == 0
		var jobs, cur atomic.Int64
		over := atomic.Bool{}
		iv := time.Duration(1+c.Intn(200)) * time.Microsecond
		task := mk(rate, "t", func(cancel <-chan struct{}) error {
			jobs.Add(1)
			if cur.Add(1) > 1 && !rate {
				over.Store(true)
			}
			defer cur.Add(-1)
			select {
			case <-cancel:
			case <-time.After(iv / 2):
			}
			return nil
		}, iv, iv*time.Duration(1+c.Intn(5)))
		var starts, stops atomic.Int64
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			d := time.Duration(1000+c.Intn(4000)) * time.Microsecond
			wg.Add(1)
			go func() {
				defer wg.Done()
				if task.Start() == nil {
					starts.Add(1)
				}
				time.Sleep(d)
				if task.Stop() == nil {
					stops.Add(1)
				}
			}()
		}
		wg.Wait()
		if starts.Load() != 1 || stops.Load() != 1 {
			c.Violate("Start or Stop succeeded more or less than once", fmt.Sprint(starts.Load(), stops.Load()))
		}
		if over.Load() {
			c.Violate("two jobs of one task overlapped", iv.String())
		}
		ok := false
		for i := 0; i < 2000 && !ok; i++ { // settle
			ok = len(vk.GearsGoroutines()) == 0
			if !ok {
				time.Sleep(time.Millisecond)
			}
		}
		if !ok {
			c.Violate("a goroutine of the task is left after the stop", vk.GearsGoroutines())
		}
		n := jobs.Load()
		time.Sleep(2 * iv)
		if jobs.Load() != n {
			c.Violate("a job began after the stop", "")
		}
		key := ""
		if n > 1 {
			key = fmt.Sprint(c.Index, n)
		}
		vk.Count("real jobs", int(n))
		c.Observed(key)
	})
}

// Timers are invisible, but what they keep alive is not: the heap is measured
// around many jobs that end long before their timeout, and around many stopped
// tasks whose timeout is far away.
func TestTimers(t *testing.T) {
	vk.Rule("timers: thousands of jobs of one task, or of tasks started and stopped one after another, that end long before their timeout, in virtual time; live heap objects are counted between rounds and may not grow with the number of jobs, as the timer of each ended job would make them; a growth counts if a second, twice as long round shows it again; non-trivial each")
	live := func() int64 {
		var m runtime.MemStats
		for i := 0; i < 3; i++ {
			runtime.GC()
		}
		runtime.ReadMemStats(&m)
		return int64(m.Mallocs - m.Frees)
	}
	vk.Cases("timers", vk.N(40, 1000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) {
			rate, fresh, style := c.Intn(2) == 0, c.Intn(2) == 0, c.Intn(3)
			timeout := time.Duration(1000+c.Intn(1000)) * time.Hour
			var jobs atomic.Int64
			job := func(cancel <-chan struct{}) error {
				jobs.Add(1)
				switch style {
				case 1:
					time.Sleep(time.Millisecond)
				case 2:
					return errors.New("no")
				}
				return nil
			}
			var task schedule.Task
			if !fresh {
				task = mk(rate, "t", job, time.Second, timeout)
				task.MustStart()
			}
			do := func(n int) {
				for i := 0; i < n; i++ {
					if fresh {
						x := mk(rate, "t", job, time.Second, timeout)
						x.MustStart()
						time.Sleep(1500 * time.Millisecond)
						x.MustStop()
						time.Sleep(1500 * time.Millisecond)
					} else {
						time.Sleep(1002 * time.Millisecond)
					}
					if i%100 == 0 {
						vk.Tick()
					}
				}
				synctest.Wait()
			}
			n := 300 + c.Intn(300)
			do(n)
			growth := func(n int) int64 {
				a := live()
				do(n)
				return live() - a
			}
			if g1 := growth(n); g1*2 > int64(n) {
				g2 := growth(2 * n)
				if g3 := growth(4 * n); g2*2 > 2*int64(n) && g3*2 > 4*int64(n) {
					c.Violate("ended jobs keep something alive until their timeout", map[string]interface{}{"rate": rate, "tasks made anew": fresh, "job": style, "objects more after n jobs": g1, "after 2n more": g2, "after 4n more": g3, "n": n})
				}
			}
			if task != nil {
				task.MustStop()
				time.Sleep(2 * time.Second)
			}
			synctest.Wait()
			vk.Count("jobs with a far timeout", int(jobs.Load()))
			c.Observed(fmt.Sprint(rate, fresh, style, n, timeout))
		})
	})
}
