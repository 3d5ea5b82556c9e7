// Monitor of P08: delivery order, exactly-once and drop rules of the event bus.
package p08

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/chanjarster/gears/event"
	"verif/harness/vk"
)

func TestMain(m *testing.M) { vk.Main(m, "P08") }

// rcv is a receiver under observation with the model of what it holds.
type rcv struct {
	r     *event.Receiver
	block bool
	cap   int
	buf   []interface{} // model: buffered now (Drop)
	want  []interface{} // model: everything delivered so far (Block)
	wait  []*oneShot
	got   []interface{} // consumer's log (Block)
	mu    sync.Mutex
	coll  *collect
	name  string
	gone  bool // replaced by another receiver of its name
}

type oneShot struct {
	done atomic.Bool
	v    interface{}
	want interface{}
	has  bool
}

type collect struct {
	until time.Time
	want  []interface{}
	got   []interface{}
	done  atomic.Bool
	end   time.Time
}

func eq(a, b []interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type hist struct {
	c    *vk.Case
	log  []string
	fail bool
}

func (h *hist) add(f string, a ...interface{}) { h.log = append(h.log, fmt.Sprintf(f, a...)) }
func (h *hist) bad(sig string, f string, a ...interface{}) {
	lo := max(0, len(h.log)-40)
	h.c.Violate(sig, map[string]interface{}{"what": fmt.Sprintf(f, a...), "trace": h.log[lo:]})
	h.fail = true
}

// guarded runs an operation that must not block and reports when it does.
func guarded(h *hist, what string, f func()) bool {
	var done atomic.Bool
	var p interface{}
	go func() {
		v, bad := vk.Catch(f)
		if bad {
			p = v
		}
		done.Store(true)
	}()
	synctest.Wait()
	if !done.Load() {
		h.bad(what+" blocks", "%s", vk.GearsGoroutines())
		vk.Abort()
	}
	if p != nil {
		h.bad(what+" panics", "%v", p)
		vk.Abort()
	}
	return true
}

func TestExact(t *testing.T) {
	vk.Rule("exact: scripted steps with exact quiescence after each (send bursts from one or several goroutines, one-shot readers, channel reads, Drain, CollectTimeout, receivers created on the fly) over Drop receivers of every small capacity and Block receivers with a live consumer, against a model of every buffer; non-trivial when something was dropped, drained and collected")
	vk.Cases("exact", vk.N(4000, 150000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) { exact(c) })
	})
}

func exact(c *vk.Case) {
	h := &hist{c: c}
	bcap := c.Intn(4)
	bus := event.NewFanOutBus(bcap)
	bus.GoDispatch()
	var rs []*rcv
	var wg sync.WaitGroup
	create := func(block bool, cp int) {
		name := fmt.Sprintf("r%d", len(rs))
		if len(rs) == 2 {
			name = ""
		}
		// now and then the name of another one, which is closed by that
		if len(rs) > 1 && c.Intn(3) == 0 {
			if y := rs[1+c.Intn(len(rs)-1)]; !y.gone && y.coll == nil && len(y.wait) == 0 {
				y.gone = true
				name = y.name
			}
		}
		x := &rcv{block: block, cap: cp, name: name}
		h.add("create %s block=%v cap=%d", name, block, cp)
		guarded(h, "creating a receiver", func() {
			switch {
			case block:
				x.r = bus.NewRecvStrategy(name, cp, event.Block)
			case c.Intn(2) == 0:
				x.r = bus.NewRecv(name, cp)
			default:
				x.r = bus.NewRecvStrategy(name, cp, event.Drop)
			}
		})
		if cap(x.r.C) != cp {
			h.bad("receiver capacity is not as asked", "%d want %d", cap(x.r.C), cp)
		}
		if block {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for v := range x.r.C {
					x.mu.Lock()
					x.got = append(x.got, v)
					x.mu.Unlock()
				}
			}()
		}
		rs = append(rs, x)
		synctest.Wait()
	}
	create(true, c.Intn(3)) // reference
	for i, n := 0, c.Intn(4); i < n; i++ {
		create(c.Intn(4) == 0, c.Intn(5))
	}
	next := 0
	drops, drained, collected, sent := 0, 0, 0, 0
	// apply one event to the model
	apply := func(v interface{}) {
		sent++
		now := time.Now()
		for _, x := range rs {
			if x.gone {
				continue
			}
			if x.block {
				x.want = append(x.want, v)
				continue
			}
			if x.coll != nil && now.Before(x.coll.until) {
				x.coll.want = append(x.coll.want, v)
				continue
			}
			given := false
			for _, o := range x.wait {
				if !o.has {
					o.has, o.want, given = true, v, true
					break
				}
			}
			if given {
				continue
			}
			if len(x.buf) < x.cap {
				x.buf = append(x.buf, v)
			} else {
				drops++
			}
		}
	}
	check := func() {
		for i, x := range rs {
			if h.fail {
				return
			}
			if x.block {
				x.mu.Lock()
				got := append([]interface{}(nil), x.got...)
				x.mu.Unlock()
				if !eq(got, x.want) {
					h.bad("a Block receiver did not get exactly the events sent since its creation, in order", "r%d got %v want %v", i, got, x.want)
				}
				continue
			}
			if x.gone {
				continue
			}
			if len(x.r.C) != len(x.buf) {
				h.bad("a Drop receiver buffers another number of events than a full-only drop allows", "r%d holds %d want %v (cap %d)", i, len(x.r.C), x.buf, x.cap)
			}
			if x.coll != nil && x.coll.done.Load() {
				if !eq(x.coll.got, x.coll.want) {
					h.bad("CollectTimeout did not return exactly the events that arrived until its timeout", "r%d got %v want %v", i, x.coll.got, x.coll.want)
				}
				if !x.coll.end.Equal(x.coll.until) {
					h.bad("CollectTimeout did not return at its timeout", "r%d returned at %v instead of %v", i, x.coll.end, x.coll.until)
				}
				collected += len(x.coll.got)
				x.coll = nil
			} else if x.coll != nil && time.Now().After(x.coll.until) {
				h.bad("CollectTimeout did not return at its timeout", "r%d", i)
			}
			var keep []*oneShot
			for _, o := range x.wait {
				if o.done.Load() != o.has {
					h.bad("a waiting reader got an event or missed one", "r%d has %v, want %v %v", i, o.done.Load(), o.has, o.want)
				} else if !o.has {
					keep = append(keep, o)
				}
			}
			if !h.fail && len(keep) < len(x.wait) {
				// readers are served in the order they wait: compare as sets
				var g, w []interface{}
				for _, o := range x.wait {
					if o.has {
						g, w = append(g, o.v), append(w, o.want)
					}
				}
				for _, v := range w {
					found := false
					for _, u := range g {
						found = found || u == v
					}
					if !found {
						h.bad("a waiting reader got another event", "r%d got %v want %v", i, g, w)
					}
				}
			}
			x.wait = keep
		}
	}
	mk := func() interface{} {
		next++
		if next == 7 || next == 19 {
			return fmt.Sprintf("s%d", next)
		}
		return next
	}
	// any value can be an event
	odd := func() interface{} {
		switch c.Intn(60) {
		case 0, 1:
			return nil
		case 2:
			return ""
		case 3:
			return false
		case 4:
			return 0
		case 5:
			return struct{}{}
		case 6:
			return (*int)(nil)
		case 7:
			return fmt.Errorf("event")
		case 8:
			return event.Block
		case 9:
			return time.Time{}
		}
		return mk()
	}
	n := 8 + c.Intn(40)
	for i := 0; i < n && !h.fail; i++ {
		busy := false
		for _, x := range rs {
			busy = busy || x.coll != nil || len(x.wait) > 1
		}
		x := rs[c.Intn(len(rs))]
		switch op := c.Intn(12); {
		case x.gone && op >= 8 && op <= 10:
			continue
		case op <= 4 || (busy && op <= 6): // single events
			v := odd()
			h.add("send %v", v)
			guarded(h, "sending", func() { bus.C <- v })
			apply(v)
		case op <= 6: // a burst by one sender
			k := 1 + c.Intn(6)
			vs := make([]interface{}, k)
			for j := range vs {
				vs[j] = odd()
			}
			h.add("burst %v", vs)
			guarded(h, "sending", func() {
				for _, v := range vs {
					bus.C <- v
				}
			})
			for _, v := range vs {
				apply(v)
			}
		case op == 7 && !busy: // several senders: the reference receiver tells the order
			k := 2 + c.Intn(4)
			before := len(rs[0].want)
			vs := map[interface{}]bool{}
			for j := 0; j < k; j++ {
				v := mk()
				vs[v] = true
				go func() { bus.C <- v }()
			}
			synctest.Wait()
			h.add("parallel senders %v", vs)
			rs[0].mu.Lock()
			order := append([]interface{}(nil), rs[0].got[min(before, len(rs[0].got)):]...)
			rs[0].mu.Unlock()
			if len(order) != k {
				h.bad("a Block receiver did not get exactly the events sent since its creation, in order", "r0 got %v of %v", order, vs)
			}
			for _, v := range order {
				if !vs[v] {
					h.bad("an event was delivered twice or was never sent", "r0 got %v of %v", order, vs)
				}
				delete(vs, v)
			}
			if !h.fail {
				for _, v := range order {
					apply(v)
				}
			}
		case op == 8 && !x.block && x.coll == nil && len(x.wait) == 0:
			h.add("drain")
			var got []interface{}
			t0 := time.Now()
			guarded(h, "Drain", func() { got = x.r.Drain() })
			if !eq(got, x.buf) || !time.Now().Equal(t0) {
				h.bad("Drain did not return exactly the buffered events", "got %v want %v", got, x.buf)
			}
			drained += len(got)
			x.buf = nil
		case op == 9 && !x.block && x.coll == nil && len(x.wait) == 0:
			d := time.Duration(1+c.Intn(20)) * time.Millisecond
			h.add("collect %v", d)
			cl := &collect{until: time.Now().Add(d), want: append([]interface{}(nil), x.buf...)}
			x.buf = nil
			x.coll = cl
			go func() {
				cl.got = x.r.CollectTimeout(d)
				cl.end = time.Now()
				cl.done.Store(true)
			}()
		case op == 10 && !x.block && x.coll == nil:
			if len(x.buf) > 0 {
				var v interface{}
				guarded(h, "reading a buffered event", func() { v = <-x.r.C })
				h.add("read %v", v)
				if v != x.buf[0] {
					h.bad("events are not delivered in bus order", "read %v want %v", v, x.buf[0])
				}
				x.buf = x.buf[1:]
			} else {
				h.add("post a reader")
				o := &oneShot{}
				x.wait = append(x.wait, o)
				go func() { o.v = <-x.r.C; o.done.Store(true) }()
			}
		case op == 11 && len(rs) < 7:
			create(c.Intn(3) == 0, c.Intn(4))
		default:
			d := time.Duration(c.Intn(9000))*time.Microsecond + 1
			h.add("sleep %v", d)
			time.Sleep(d)
		}
		synctest.Wait()
		check()
	}
	if h.fail {
		vk.Abort()
	}
	time.Sleep(time.Second)
	synctest.Wait()
	check()
	if h.fail {
		vk.Abort()
	}
	guarded(h, "closing the bus", bus.Close)
	wg.Wait()
	key := ""
	if drops > 0 && drained > 0 {
		key = fmt.Sprint(h.log)
	}
	vk.Count("events", sent)
	vk.Count("dropped", drops)
	vk.Count("drained", drained)
	vk.Count("collected", collected)
	c.Sample(h.log[:min(len(h.log), 15)])
	c.Observed(key)
}

func TestStall(t *testing.T) {
	vk.Rule("stall: Block receivers that stop reading, with any capacity, next to roomy Drop receivers and senders that run into the full bus; at every quiescent point the dispatcher may only be stalled by a full Block receiver, no receiver is ever more than one event ahead, sequences are gapless; after the stall everything arrives exactly once; non-trivial when the dispatcher stalled at least once")
	vk.Cases("stall", vk.N(3000, 100000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) { stall(c) })
	})
}

type seqRcv struct {
	r     *event.Receiver
	block bool
	cap   int
	got   []interface{}
	from  int // index of the first event it is owed
}

func stall(c *vk.Case) {
	h := &hist{c: c}
	bus := event.NewFanOutBus(c.Intn(4))
	bus.GoDispatch()
	var rs []*seqRcv
	var order []int // events in the order of the (single) sender
	var sendDone atomic.Int64
	queue := make(chan int, 10000)
	go func() {
		for v := range queue {
			bus.C <- v
			sendDone.Add(1)
		}
	}()
	create := func(block bool, cp int) {
		x := &seqRcv{block: block, cap: cp, from: len(order)}
		name := fmt.Sprintf("r%d", len(rs))
		h.add("create %s block=%v cap=%d", name, block, cp)
		if block {
			x.r = bus.NewRecvStrategy(name, cp, event.Block)
		} else {
			x.r = bus.NewRecv(name, cp)
		}
		rs = append(rs, x)
	}
	for i, n := 0, 1+c.Intn(3); i < n; i++ {
		create(true, c.Intn(4))
	}
	for i, n := 0, c.Intn(3); i < n; i++ {
		create(false, 2000)
	}
	stalls := 0
	check := func() {
		full := false
		for _, x := range rs {
			if x.block && len(x.r.C) == x.cap {
				full = true
			}
		}
		lo, hi := 1<<30, -1
		for i, x := range rs {
			for j, v := range x.got {
				if x.from+j >= len(order) || v != order[x.from+j] {
					h.bad("a receiver got an event twice, out of order, not sent, or with a gap", "r%d at %d got %v of %v", i, j, x.got, order[x.from:])
					return
				}
			}
			d := x.from + len(x.got) + len(x.r.C)
			lo, hi = min(lo, d), max(hi, d)
		}
		if hi > lo+1 {
			h.bad("a receiver is more than one event ahead of another, or an event was lost", "delivered between %d and %d", lo, hi)
			return
		}
		if lo < len(order) {
			stalls++
			if !full {
				h.bad("events are held up although no Block receiver is full", "%d of %d events delivered, %d sends done", lo, len(order), sendDone.Load())
			}
		}
	}
	n := 10 + c.Intn(50)
	for i := 0; i < n && !h.fail; i++ {
		x := rs[c.Intn(len(rs))]
		switch c.Intn(6) {
		case 0, 1, 2:
			for k := 1 + c.Intn(3); k > 0; k-- {
				order = append(order, len(order))
				h.add("send %d", len(order)-1)
				queue <- len(order) - 1
			}
		case 3:
			select {
			case v := <-x.r.C:
				h.add("read %v", v)
				x.got = append(x.got, v)
			default:
			}
		case 4:
			before := len(x.r.C)
			var d []interface{}
			guarded(h, "Drain", func() { d = x.r.Drain() })
			h.add("drain %v", d)
			if len(d) < before {
				h.bad("Drain returned fewer events than were buffered", "%d of %d", len(d), before)
			}
			x.got = append(x.got, d...)
		case 5:
			time.Sleep([]time.Duration{time.Millisecond, time.Second, time.Hour, 1000 * time.Hour}[c.Intn(4)])
		}
		synctest.Wait()
		check()
	}
	if h.fail {
		vk.Abort()
	}
	// let go
	var wg sync.WaitGroup
	for _, x := range rs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for v := range x.r.C {
				x.got = append(x.got, v)
			}
		}()
	}
	synctest.Wait()
	for i, x := range rs {
		if len(x.r.C) > 0 || len(x.got) != len(order)-x.from {
			h.bad("not every event reached a receiver after all receivers read again", "r%d has %d of %d", i, len(x.got), len(order)-x.from)
		}
	}
	check()
	if h.fail {
		vk.Abort()
	}
	close(queue)
	guarded(h, "closing the bus", bus.Close)
	wg.Wait()
	key := ""
	if stalls > 0 {
		key = fmt.Sprint(h.log)
	}
	vk.Count("events", len(order))
	vk.Count("stalled quiescent points", stalls)
	c.Observed(key)
}

type ev struct{ s, k int }

func TestRace(t *testing.T) {
	vk.Rule("race: several senders, consumers that range, Drain or CollectTimeout with random pauses, Drop receivers of small and sufficient capacity, receivers created while events flow; one common order must explain all receivers; run in virtual time and, for true parallelism and receivers created in between, in real time; non-trivial with more than one sender")
	vk.Cases("race", vk.N(600, 20000), func(c *vk.Case) {
		if c.Index%3 > 0 {
			race(c, false)
		} else {
			synctest.Test(t, func(t *testing.T) { race(c, true) })
		}
	})
}

func race(c *vk.Case, virtual bool) {
	h := &hist{c: c}
	bus := event.NewFanOutBus(c.Intn(5))
	ns, ne := 1+c.Intn(4), 5+c.Intn(40)
	total := ns * ne
	type R struct {
		r     *event.Receiver
		block bool
		roomy bool
		got   []interface{}
		owed  map[ev]bool
	}
	var mu sync.Mutex // guards rs
	var rs []*R
	var cons sync.WaitGroup
	var started [8]atomic.Int64 // per sender: sends begun
	pause := func(k int) {
		switch k % 4 {
		case 0:
			runtime.Gosched()
		case 1:
			time.Sleep(time.Duration(k%7) * time.Microsecond)
		}
	}
	create := func(i int, block bool, cp int, mode int, seed int) {
		x := &R{block: block, roomy: cp >= total, owed: map[ev]bool{}}
		name := fmt.Sprintf("r%d", i)
		if block {
			x.r = bus.NewRecvStrategy(name, cp, event.Block)
		} else {
			x.r = bus.NewRecv(name, cp)
		}
		for s := 0; s < ns; s++ {
			// sends not yet begun now are owed
			for k := int(started[s].Load()); k < ne; k++ {
				x.owed[ev{s, k}] = true
			}
		}
		mu.Lock()
		rs = append(rs, x)
		mu.Unlock()
		cons.Add(1)
		go func() {
			defer cons.Done()
			if mode == 1 {
				for j := 0; j < 5; j++ {
					x.got = append(x.got, x.r.Drain()...)
					pause(seed + j)
				}
			}
			if mode == 2 {
				for j := 0; j < 3; j++ {
					x.got = append(x.got, x.r.CollectTimeout(time.Duration(1+seed%50)*time.Microsecond)...)
				}
			}
			for v := range x.r.C {
				x.got = append(x.got, v)
				seed++
				pause(seed)
			}
		}()
	}
	create(0, true, c.Intn(4), 0, c.Intn(100))
	pick := func() (bool, int) {
		switch c.Intn(4) {
		case 0:
			return false, total + 5
		case 1:
			return false, c.Intn(4)
		}
		return true, c.Intn(6)
	}
	i := 1
	for n := c.Intn(3); n > 0; n-- {
		b, cp := pick()
		create(i, b, cp, c.Intn(3), c.Intn(100))
		i++
	}
	bus.GoDispatch()
	var senders sync.WaitGroup
	for s := 0; s < ns; s++ {
		seed := c.Intn(1000)
		senders.Add(1)
		go func() {
			defer senders.Done()
			for k := 0; k < ne; k++ {
				started[s].Add(1)
				bus.C <- ev{s, k}
				pause(seed + k*k)
			}
		}()
	}
	late := 0
	nl := c.Intn(4)
	if virtual {
		nl = 0 // a creation that waits for a lock would stop virtual time
	}
	for n := nl; n > 0; n-- {
		b, cp := pick()
		for k := c.Intn(20); k > 0; k-- {
			pause(k)
		}
		create(i, b, cp, c.Intn(3), c.Intn(100))
		i++
		late++
	}
	senders.Wait()
	if virtual {
		synctest.Wait() // consumers may still be pausing
		time.Sleep(time.Second)
		synctest.Wait()
	} else {
		// wait for the Block receivers and roomy Drop receivers to have what
		// they are owed; the watchdog decides when that never happens
		sentinel := struct{}{}
		bus.C <- sentinel
		for j := 0; j < 4+cap(bus.C); j++ {
			bus.C <- sentinel // all events before it were dispatched once these went through
		}
	}
	bus.Close()
	cons.Wait()
	ref := rs[0].got
	pos := map[interface{}]int{}
	var clean []interface{}
	for _, v := range ref {
		if e, ok := v.(ev); ok {
			if _, dup := pos[e]; dup {
				h.bad("an event was delivered twice", "%v", e)
			}
			pos[e] = len(clean)
			clean = append(clean, e)
		} else if v == nil {
			h.bad("a value was delivered that nobody sent", "%v", v)
		}
	}
	if len(clean) != total {
		h.bad("a Block receiver lost events", "%d of %d", len(clean), total)
	}
	last := map[int]int{}
	for _, v := range clean {
		e := v.(ev)
		if e.k != last[e.s] {
			h.bad("events of one sender were reordered", "%v after %d", e, last[e.s])
			break
		}
		last[e.s]++
	}
	for i, x := range rs {
		if h.fail {
			break
		}
		prev := -1
		seen := map[ev]bool{}
		first := -1
		for _, v := range x.got {
			e, ok := v.(ev)
			if !ok {
				if v == nil {
					h.bad("a value was delivered that nobody sent", "r%d: %v", i, v)
				}
				continue
			}
			p, known := pos[e]
			if !known || p <= prev {
				h.bad("receivers disagree about the order, or an event was duplicated", "r%d: %v at %d after %d", i, e, p, prev)
				break
			}
			if first < 0 {
				first = p
			}
			if (x.block || x.roomy) && prev >= 0 && p != prev+1 {
				h.bad("a receiver with room lost an event", "r%d: %v follows position %d", i, e, prev)
				break
			}
			prev = p
			seen[e] = true
		}
		if x.block || x.roomy {
			for e := range x.owed {
				if !seen[e] {
					h.bad("a receiver with room lost an event sent after its creation", "r%d block=%v: %v", i, x.block, e)
					break
				}
			}
		}
	}
	key := ""
	if ns > 1 {
		key = fmt.Sprint(c.Index, clean)
	}
	vk.Count("racing events", total)
	vk.Count("receivers", len(rs))
	c.Observed(key)
}

func TestShared(t *testing.T) {
	vk.Rule("shared: several goroutines take from one receiver at the same moment by Drain, CollectTimeout and reads, while events may still be arriving; no Drain may ever block, and together they take every delivered event exactly once, each in order; non-trivial when two of them took something")
	vk.Cases("shared", vk.N(16000, 400000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) { shared(c) })
	})
}

func shared(c *vk.Case) {
	h := &hist{c: c}
	bus := event.NewFanOutBus(c.Intn(3))
	bus.GoDispatch()
	strategy := event.Drop
	if c.Intn(2) == 0 {
		strategy = event.Block
	}
	fill, more := c.Intn(6), c.Intn(3)*c.Intn(6)
	r := bus.NewRecvStrategy("shared", fill+more+c.Intn(2), strategy)
	for i := 0; i < fill; i++ {
		bus.C <- i
	}
	synctest.Wait()
	k := 2 + c.Intn(4)
	var ready atomic.Int64
	got := make([][]interface{}, k)
	drained := make([]atomic.Bool, k)
	kinds := make([]int, k)
	var wg sync.WaitGroup
	for i := 0; i < k; i++ {
		kinds[i] = max(0, c.Intn(5)-2) // mostly Drain
		d := time.Duration(c.Intn(5)) * time.Microsecond
		wg.Add(1)
		go func() {
			defer wg.Done()
			ready.Add(1)
			for ready.Load() < int64(k) {
				runtime.Gosched()
			}
			switch kinds[i] {
			case 0:
				got[i] = r.Drain()
				drained[i].Store(true)
			case 1:
				got[i] = r.CollectTimeout(d)
			case 2:
				select {
				case v := <-r.C:
					got[i] = append(got[i], v)
				default:
				}
			}
		}()
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		for ready.Load() < int64(k) {
			runtime.Gosched()
		}
		for i := 0; i < more; i++ {
			bus.C <- fill + i
		}
	}()
	synctest.Wait()
	for i := range kinds {
		if kinds[i] == 0 && !drained[i].Load() {
			h.bad("Drain blocks when others take from the receiver too", "%d takers %v of %d events", k, kinds, fill)
			vk.Abort()
		}
	}
	time.Sleep(time.Millisecond)
	wg.Wait()
	synctest.Wait()
	rest := r.Drain()
	seen := map[interface{}]int{}
	takers := 0
	for _, g := range append(got, rest) {
		last := -1
		if len(g) > 0 {
			takers++
		}
		for _, v := range g {
			n, ok := v.(int)
			if !ok || n <= last {
				h.bad("a taker got events out of order, or one nobody sent", "%v", got)
				break
			}
			last = n
			seen[v]++
		}
	}
	for i := 0; i < fill+more && !h.fail; i++ {
		if seen[i] != 1 {
			h.bad("the takers of a receiver together did not get every event exactly once", "event %d %d times: %v rest %v", i, seen[i], got, rest)
		}
	}
	guarded(h, "closing the bus", bus.Close)
	vk.Count("events taken by several", len(seen))
	key := ""
	if takers > 1 {
		key = fmt.Sprint(c.Index, got)
	}
	c.Observed(key)
}

// Buffers of any size: the amount waiting must not matter.
func TestBig(t *testing.T) {
	vk.Rule("big: receivers with buffers of thousands to tens of thousands of events, bus buffers likewise; everything sent fits, so Drain, CollectTimeout or reading must give all of it in order, and events beyond the buffer are dropped only from the end; non-trivial when more than 4000 events waited at once")
	vk.Cases("big", vk.N(60, 1500), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) { big(c) })
	})
}

func big(c *vk.Case) {
	size := []int{1000, 5000, 12000, 40000, 80000}[c.Intn(5)] + c.Intn(1000)
	bus := event.NewFanOutBus([]int{0, 10, size, 2 * size}[c.Intn(4)])
	bus.GoDispatch()
	var rs []*event.Receiver
	n := 1 + c.Intn(3)
	for i := 0; i < n; i++ {
		st := event.Drop
		if c.Intn(3) == 0 {
			st = event.Block
		}
		rs = append(rs, bus.NewRecvStrategy(fmt.Sprint("r", i), size, st))
	}
	send := size - c.Intn(3)
	over := 0
	if n == 1 && c.Intn(2) == 0 {
		over = 1 + c.Intn(500) // a Drop receiver loses these, a Block receiver gets them later
	}
	go func() {
		for i := 0; i < send+over; i++ {
			bus.C <- i
		}
	}()
	synctest.Wait()
	for i, r := range rs {
		want := send
		if over > 0 && send+over > size {
			want = size
		} else {
			want = send + over
		}
		var got []interface{}
		how := c.Intn(3)
		if waiting := len(r.C); waiting != want {
			c.Violate("an event was dropped although the buffer had room, or the buffer holds more than it should", fmt.Sprintf("receiver %d: %d of %d waiting, capacity %d", i, waiting, want, size))
			break
		}
		take := want
		switch how {
		case 0:
			got = r.Drain()
		case 1:
			got = r.CollectTimeout(time.Second)
		case 2:
			for j := 0; j < take; j++ {
				got = append(got, <-r.C)
			}
		}
		// a Block receiver may hand out the events behind it, too
		if len(got) < take || len(got) > send+over {
			c.Violate("taking everything gave too little", fmt.Sprintf("%d of %d events by %s, capacity %d", len(got), take, []string{"Drain", "CollectTimeout", "reading"}[how], size))
			break
		}
		for j, v := range got {
			if v != j {
				c.Violate("events out of order, twice or missing", fmt.Sprintf("at %d: %v", j, v))
				break
			}
		}
	}
	synctest.Wait()
	done := make(chan struct{})
	go func() {
		for _, r := range rs {
			for len(r.Drain()) > 0 {
			}
		}
		close(done)
	}()
	<-done
	synctest.Wait()
	bus.Close()
	synctest.Wait()
	key := ""
	if send > 4000 {
		key = fmt.Sprint(size, n, send, over, c.Index)
	}
	vk.Count("events taken from big buffers", send)
	c.Observed(key)
}

// Any number of receivers: how many there are must not matter.
func TestWide(t *testing.T) {
	vk.Rule("wide: tens to thousands of receivers on one bus, some closed or replaced before, between and after the events; every receiver open for an event gets exactly that event, in order, and none gets another one; non-trivial when more than 300 receivers were open at once")
	vk.Cases("wide", vk.N(60, 1500), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) { wide(c) })
	})
}

func wide(c *vk.Case) {
	bus := event.NewFanOutBus([]int{0, 10, 1000}[c.Intn(3)])
	bus.GoDispatch()
	type rv struct {
		r    *event.Receiver
		want []interface{}
		open bool
	}
	var all []*rv
	live := map[int]*rv{}
	total := []int{40, 270, 700, 1500, 3000}[c.Intn(5)] + c.Intn(40)
	next := 0
	mk := func(name int) {
		st := event.Drop
		if c.Intn(2) == 0 {
			st = event.Block
		}
		x := &rv{r: bus.NewRecvStrategy(fmt.Sprint("r", name), 64, st), open: true}
		if old := live[name]; old != nil {
			old.open = false
		}
		live[name] = x
		all = append(all, x)
	}
	for i := 0; i < total; i++ {
		mk(i)
	}
	most := len(live)
	rounds := 2 + c.Intn(4)
	for k := 0; k < rounds; k++ {
		for j := c.Intn(10); j > 0; j-- {
			v := next
			next++
			bus.C <- v
			for _, x := range live {
				x.want = append(x.want, v)
			}
		}
		synctest.Wait() // delivered
		for j := c.Intn(total / 4); j > 0; j-- {
			i := c.Intn(total)
			x := live[i]
			switch {
			case c.Intn(3) == 0 || x == nil:
				mk(i)
			default:
				x.r.Close()
				x.open = false
				delete(live, i)
			}
		}
		if c.Intn(3) == 0 {
			for j := c.Intn(200); j > 0; j-- {
				mk(total)
				total++
			}
		}
		if len(live) > most {
			most = len(live)
		}
	}
	bus.C <- -1
	synctest.Wait()
	for _, x := range live {
		x.want = append(x.want, -1)
	}
	for i, x := range all {
		if got := x.r.Drain(); !eq(got, x.want) && len(got)+len(x.want) > 0 {
			c.Violate("with many receivers one did not get exactly its events", fmt.Sprintf("receiver %d of %d (open: %v): got %v, want %v", i, len(all), x.open, got, x.want))
			break
		}
	}
	bus.Close()
	synctest.Wait()
	vk.Count("receivers on wide buses", len(all))
	key := ""
	if most > 300 {
		key = fmt.Sprint(most, next, rounds, c.Index)
	}
	c.Observed(key)
}
