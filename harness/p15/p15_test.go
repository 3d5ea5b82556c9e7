// Monitor of P15: fixed-delay scheduling.
package p15

import (
	"testing"
	"testing/synctest"

	"verif/harness/sched"
	"verif/harness/vk"
)

func TestMain(m *testing.M) { vk.Main(m, "P15") }

func TestDelay(t *testing.T) {
	vk.Rule("delay: a fixed-delay task in virtual time with random interval, timeout, job durations around interval and timeout (0, equal, one nanosecond off, multiples), errors, obeyed, ignored or slowly obeyed cancellation, stop instants on and off ticks; recorded job starts and ends must satisfy start[0]=0, start[k+1]=end[k]+interval, no overlap, and exactly the jobs due before the stop; non-trivial when at least two jobs ran, distinct by the scenario")
	vk.Cases("delay", vk.N(60000, 2000000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) {
			tr := sched.Run(c, false)
			bad := func(sig string) { c.Violate(sig, tr.Desc()) }
			if tr.MaxOver > 1 {
				bad("two jobs of one task overlapped")
			}
			for i, j := range tr.Jobs {
				switch {
				case i == 0 && j.Start != 0:
					bad("the first job did not begin immediately")
				case i > 0 && j.Start < tr.Jobs[i-1].End+tr.Interval:
					bad("a job began earlier than interval after the previous one ended")
				case i > 0 && j.Start > tr.Jobs[i-1].End+tr.Interval:
					bad("a job began later than interval after the previous one ended")
				case j.Start > tr.StopAt:
					bad("a job began after the stop")
				}
			}
			if n := len(tr.Jobs); n == 0 {
				if tr.StopAt > 0 {
					bad("no job began although the task was started")
				}
			} else if last := tr.Jobs[n-1]; last.End+tr.Interval < tr.StopAt {
				bad("the task ceased running jobs before it was stopped")
			}
			vk.Count("jobs", len(tr.Jobs))
			key := ""
			if len(tr.Jobs) > 1 {
				key = tr.Key()
			}
			c.Sample(tr.Desc())
			c.Observed(key)
		})
	})
}
