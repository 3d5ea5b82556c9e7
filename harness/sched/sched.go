// Package sched drives scheduled tasks in virtual time and records what their
// jobs saw. It must be used inside a synctest bubble.
package sched

import (
	"errors"
	"fmt"
	"sync"
	"testing/synctest"
	"time"

	"github.com/chanjarster/gears/schedule"
	"verif/harness/vk"
)

// Job is one run of a job.
type Job struct {
	Start, End time.Duration // since the start of the task; End -1: still running
	Cancel     time.Duration // when the cancel channel was seen closed while the job ran, -1: never
	Plan       Plan
}

// Plan is how a run behaves.
type Plan struct {
	Dur     time.Duration // how long it works
	Obey    bool          // returns when cancelled
	Linger  time.Duration // how long it takes to return after being cancelled
	Err     bool
	SelfEnd bool // stops its own task at its end
}

// Trace is what one scenario did.
type Trace struct {
	Rate              bool
	Interval, Timeout time.Duration
	StopAt            time.Duration // virtual instant of the successful Stop
	Jobs              []*Job
	SelfStopped       bool
	mu                sync.Mutex
	t0                time.Time
	plans             []Plan
	Bad               []string
	overlap, MaxOver  int
}

func (tr *Trace) now() time.Duration { return time.Since(tr.t0) }

// Desc is a short rendering.
func (tr *Trace) Desc() map[string]interface{} {
	var js []string
	for i, j := range tr.Jobs {
		if i > 30 {
			break
		}
		js = append(js, fmt.Sprintf("#%d start %v end %v cancel %v plan %+v", i, j.Start, j.End, j.Cancel, j.Plan))
	}
	return map[string]interface{}{"rate": tr.Rate, "interval": tr.Interval.String(), "timeout": tr.Timeout.String(), "stopAt": tr.StopAt.String(), "jobs": js, "notes": tr.Bad}
}

// Key identifies the scenario.
func (tr *Trace) Key() string {
	return fmt.Sprint(tr.Rate, tr.Interval, tr.Timeout, tr.StopAt, tr.plans)
}

// PickInterval makes an interval or timeout.
func PickInterval(c *vk.Case) time.Duration {
	ds := []time.Duration{1, 2, time.Microsecond, time.Millisecond, 7 * time.Millisecond, time.Second, time.Minute, time.Hour, 24 * time.Hour, 999999937}
	switch c.Intn(6) {
	case 0, 1:
		return 1 + time.Duration(c.Int63n(int64(time.Minute)))
	case 2:
		// odd to the nanosecond, up to several days
		return 1 + time.Duration(c.Int63n(int64(100*time.Hour)))
	}
	return ds[c.Intn(len(ds))]
}

func around(c *vk.Case, d time.Duration) time.Duration {
	switch c.Intn(8) {
	case 0:
		return 0
	case 1:
		return d
	case 2:
		return d + 1
	case 3:
		return d - 1
	case 4:
		return time.Duration(c.Int63n(int64(d) + 1))
	case 5:
		return d + time.Duration(c.Int63n(int64(d)*3+1))
	case 6:
		return d * time.Duration(1+c.Intn(4))
	}
	return d / 2
}

// Run makes one scenario: build, start, let it run, stop, and wait for the end.
func Run(c *vk.Case, rate bool) *Trace {
	tr := &Trace{Rate: rate, Interval: PickInterval(c)}
	switch c.Intn(5) {
	case 0:
		tr.Timeout = tr.Interval
	case 1:
		tr.Timeout = tr.Interval + time.Duration(c.Int63n(int64(tr.Interval)*3+1))
	case 2:
		tr.Timeout = 1 + time.Duration(c.Int63n(int64(tr.Interval)))
	case 3:
		tr.Timeout = PickInterval(c)
		if tr.Timeout/tr.Interval > 200 {
			tr.Timeout = 200 * tr.Interval
		}
	default:
		tr.Timeout = tr.Interval * 10
	}
	// now and then a run of thousands of jobs, sometimes with many at once
	long := c.Intn(150) == 0
	if long && c.Intn(2) == 0 {
		tr.Timeout = tr.Interval * time.Duration(1+c.Intn(1500))
	}
	n := 1 + c.Intn(8)
	for i := 0; i < n; i++ {
		p := Plan{Dur: around(c, tr.Interval), Obey: c.Intn(2) == 0, Err: c.Intn(3) == 0}
		if c.Intn(2) == 0 {
			p.Dur = around(c, tr.Timeout)
		}
		if p.Obey && c.Intn(4) == 0 {
			p.Linger = around(c, tr.Interval)
		}
		if c.Intn(40) == 0 && !long {
			p.SelfEnd = true
		}
		tr.plans = append(tr.plans, p)
	}
	var task schedule.Task
	job := func(cancel <-chan struct{}) error { return tr.job(task, cancel) }
	if rate {
		task = schedule.NewFixedRateTask("t", job, tr.Interval, tr.Timeout)
	} else {
		task = schedule.NewFixedDelayTask("t", job, tr.Interval, tr.Timeout)
	}
	if c.Intn(3) == 0 {
		time.Sleep(time.Duration(c.Int63n(int64(tr.Interval) + 1)))
	}
	tr.t0 = time.Now()
	var err error
	if c.Intn(2) == 0 {
		err = task.Start()
	} else if p, bad := vk.Catch(task.MustStart); bad {
		err = fmt.Errorf("%v", p)
	}
	if err != nil {
		tr.Bad = append(tr.Bad, "Start: "+err.Error())
		return tr
	}
	// how long to let it run
	span := time.Duration(0)
	switch c.Intn(6) {
	case 0:
		span = tr.Interval * time.Duration(c.Intn(30)) // exactly at a tick
	case 1:
		span = tr.Timeout
	case 2:
		span = 0
	default:
		span = time.Duration(c.Int63n(int64(tr.Interval) * 40))
	}
	if long {
		span = time.Duration(300+c.Intn(2700))*tr.Interval + time.Duration(c.Int63n(int64(tr.Interval)))
	}
	if span > 0 {
		time.Sleep(span)
	}
	if c.Intn(2) == 0 {
		synctest.Wait()
	}
	tr.mu.Lock()
	stopAt := tr.now()
	if !tr.SelfStopped {
		tr.StopAt = stopAt
	}
	tr.mu.Unlock()
	if c.Intn(2) == 0 {
		err = task.Stop()
	} else if p, bad := vk.Catch(task.MustStop); bad {
		err = fmt.Errorf("%v", p)
	}
	if d := tr.now(); d != stopAt {
		tr.Bad = append(tr.Bad, fmt.Sprintf("Stop blocked for %v", d-stopAt))
	}
	tr.mu.Lock()
	self := tr.SelfStopped
	tr.mu.Unlock()
	if (err == nil) == self {
		tr.Bad = append(tr.Bad, fmt.Sprintf("Stop: %v, stopped by a job: %v", err, self))
	}
	// everything must come to rest: jobs, then one more interval for a pending timer
	for {
		synctest.Wait()
		tr.mu.Lock()
		open := tr.overlap
		tr.mu.Unlock()
		if open == 0 {
			break
		}
		time.Sleep(tr.Interval)
	}
	time.Sleep(3*tr.Interval + 1)
	synctest.Wait()
	return tr
}

func (tr *Trace) job(task schedule.Task, cancel <-chan struct{}) error {
	tr.mu.Lock()
	j := &Job{Start: tr.now(), End: -1, Cancel: -1, Plan: tr.plans[len(tr.Jobs)%len(tr.plans)]}
	tr.Jobs = append(tr.Jobs, j)
	tr.overlap++
	if tr.overlap > tr.MaxOver {
		tr.MaxOver = tr.overlap
	}
	tr.mu.Unlock()
	over := make(chan struct{})
	seen := make(chan struct{})
	watched := make(chan struct{})
	go func() {
		defer close(watched)
		select {
		case <-cancel:
			tr.mu.Lock()
			j.Cancel = tr.now()
			tr.mu.Unlock()
			close(seen)
		case <-over:
		}
	}()
	p := j.Plan
	timer := time.NewTimer(p.Dur)
	if p.Dur <= 0 {
		timer.Stop()
	} else if p.Obey {
		select {
		case <-timer.C:
		case <-seen:
			timer.Stop()
			if p.Linger > 0 {
				time.Sleep(p.Linger)
			}
		}
	} else {
		<-timer.C
	}
	if p.SelfEnd {
		tr.mu.Lock()
		at := tr.now()
		tr.mu.Unlock()
		err := task.Stop()
		tr.mu.Lock()
		if err == nil {
			tr.SelfStopped = true
			tr.StopAt = at
		}
		if tr.now() != at {
			tr.Bad = append(tr.Bad, "Stop from a job blocked")
		}
		tr.mu.Unlock()
	}
	close(over)
	<-watched
	tr.mu.Lock()
	j.End = tr.now()
	tr.overlap--
	tr.mu.Unlock()
	if p.Err {
		return errors.New("job failed")
	}
	return nil
}
