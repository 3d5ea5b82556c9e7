// Monitor of P16: fixed-rate scheduling.
package p16

import (
	"testing"
	"testing/synctest"
	"time"

	"verif/harness/sched"
	"verif/harness/vk"
)

func TestMain(m *testing.M) { vk.Main(m, "P16") }

func TestRate(t *testing.T) {
	vk.Rule("rate: a fixed-rate task in virtual time with random interval, timeout, job durations around interval and timeout (0, equal, one nanosecond off, multiples), errors, obeyed, ignored or slowly obeyed cancellation, stop instants on and off ticks; the recorded starts must be exactly k*interval for every k before the stop; non-trivial when at least three jobs ran, distinct by the scenario")
	vk.Cases("rate", vk.N(40000, 1200000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) {
			tr := sched.Run(c, true)
			bad := func(sig string) { c.Violate(sig, tr.Desc()) }
			for i, j := range tr.Jobs {
				want := time.Duration(i) * tr.Interval
				if j.Start > tr.StopAt {
					bad("a job began after the stop")
				} else if j.Start < want {
					bad("a job began before its tick")
				} else if j.Start > want {
					bad("a tick was skipped or drifted")
				}
			}
			if next := time.Duration(len(tr.Jobs)) * tr.Interval; next < tr.StopAt {
				bad("a tick before the stop started no job")
			}
			// overlapping needs a job that outlived the interval
			if tr.MaxOver > 1 {
				long := false
				for _, j := range tr.Jobs {
					long = long || j.End-j.Start >= tr.Interval
				}
				if !long {
					bad("jobs overlapped although none outlived the interval")
				}
				vk.Count("scenarios with overlapping jobs", 1)
			}
			vk.Count("jobs", len(tr.Jobs))
			key := ""
			if len(tr.Jobs) > 2 {
				key = tr.Key()
			}
			c.Sample(tr.Desc())
			c.Observed(key)
		})
	})
}
