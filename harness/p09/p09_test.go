// Monitor of P09: closing receivers and the bus at any moment.
package p09

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/chanjarster/gears/event"
	"verif/harness/vk"
)

func TestMain(m *testing.M) { vk.Main(m, "P09") }

type hist struct {
	c    *vk.Case
	log  []string
	fail bool
}

func (h *hist) add(f string, a ...interface{}) { h.log = append(h.log, fmt.Sprintf(f, a...)) }
func (h *hist) bad(sig string, f string, a ...interface{}) {
	lo := max(0, len(h.log)-40)
	h.c.Violate(sig, map[string]interface{}{"what": fmt.Sprintf(f, a...), "trace": h.log[lo:]})
	h.fail = true
}

// guarded runs an operation that must return promptly, without a panic.
func (h *hist) guarded(what string, f func()) {
	var done atomic.Bool
	var p interface{}
	bad := false
	go func() {
		p, bad = vk.Catch(f)
		done.Store(true)
	}()
	synctest.Wait()
	if !done.Load() {
		h.bad(what+" hangs", "%s", vk.GearsGoroutines())
		vk.Abort()
	}
	if bad {
		h.bad(what+" panics", "%v", p)
		vk.Abort()
	}
}

type rcv struct {
	r      *event.Receiver
	name   string
	block  bool
	cap    int
	from   int
	got    []interface{}
	closed bool // by us
	reused bool // its name was taken by a newer one
	seenEv int  // events dispatched at most when it was closed
	rd     []*reader
}

type reader struct {
	v    interface{}
	ok   bool
	done atomic.Bool
}

func TestScript(t *testing.T) {
	vk.Rule("script: steps with exact quiescence after each: sends, reads, posted readers, Close of idle, stalled-on, other and already closed receivers, new receivers under fresh and reused names, Drain and CollectTimeout on closed ones, then the bus is closed in whatever state it is (also twice, also with receivers closed afterwards); each operation must have returned at quiescence without a panic, everybody not closed must get every event without gaps, closed channels must end; non-trivial when the dispatcher was stalled during a close")
	vk.Cases("script", vk.N(14000, 200000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) { script(c) })
	})
}

func script(c *vk.Case) {
	h := &hist{c: c}
	bus := event.NewFanOutBus(c.Intn(4))
	bus.GoDispatch()
	var rs []*rcv
	var order []int
	var accepted atomic.Int64
	stop := make(chan struct{})
	queue := make(chan int, 10000)
	var sender sync.WaitGroup
	sender.Add(1)
	go func() {
		defer sender.Done()
		for v := range queue {
			select {
			case bus.C <- v:
				accepted.Add(1)
			case <-stop:
				return
			}
		}
	}()
	live := func(x *rcv) bool { return !x.closed && !x.reused }
	create := func(name string, block bool, cp int) {
		x := &rcv{name: name, block: block, cap: cp, from: len(order)}
		h.add("create %s block=%v cap=%d", name, block, cp)
		h.guarded("creating a receiver", func() {
			if block {
				x.r = bus.NewRecvStrategy(name, cp, event.Block)
			} else {
				x.r = bus.NewRecv(name, cp)
			}
		})
		for _, o := range rs {
			if o.name == name {
				o.reused = true
			}
		}
		rs = append(rs, x)
	}
	shape := func() (bool, int) {
		if c.Intn(3) == 0 {
			return false, 5000
		}
		return true, c.Intn(4)
	}
	stalled := func() bool {
		for _, x := range rs {
			if live(x) && x.block && len(x.r.C) == x.cap && x.from+len(x.got)+len(x.r.C) < int(accepted.Load()) {
				return true
			}
		}
		return false
	}
	for i, n := 0, 1+c.Intn(4); i < n; i++ {
		b, cp := shape()
		create(fmt.Sprintf("r%d", len(rs)), b, cp)
	}
	seq := func(i int, x *rcv) {
		// events accepted but not yet dispatched at its creation may reach it
		if len(x.got) > 0 {
			if f, ok := x.got[0].(int); ok && f < x.from && f >= 0 {
				x.from = f
			}
		}
		for j, v := range x.got {
			if x.from+j >= len(order) || v != order[x.from+j] {
				h.bad("a receiver lost, repeated or invented an event", "r%d(%s) got %v from %d on", i, x.name, x.got, x.from)
				return
			}
		}
	}
	closesWhileStalled, closes := 0, 0
	closeOne := func(i int, x *rcv) {
		st := stalled()
		h.add("close r%d (%s, closed=%v reused=%v stalled=%v)", i, x.name, x.closed, x.reused, st)
		if st {
			closesWhileStalled++
		}
		closes++
		what := "closing a receiver"
		switch {
		case x.closed:
			what = "closing a receiver twice"
		case x.reused:
			what = "closing a receiver whose name was reused"
		}
		buffered := len(x.r.C)
		h.guarded(what, x.r.Close)
		for _, rd := range x.rd {
			if !rd.done.Load() {
				h.bad("a reader stays blocked after its receiver was closed", "r%d", i)
				vk.Abort()
			}
		}
		if buffered == 0 && len(x.rd) == 0 && !x.closed && !x.block {
			// nothing was buffered: the channel must read as closed, unless an
			// event slipped in before
			select {
			case v, ok := <-x.r.C:
				if ok {
					x.got = append(x.got, v)
				}
			default:
				h.bad("the channel of a closed receiver is not closed", "r%d", i)
			}
		}
		x.closed = true
	}
	settle := func(x *rcv) {
		var keep []*reader
		for _, rd := range x.rd {
			if rd.done.Load() {
				if rd.ok {
					x.got = append(x.got, rd.v)
				}
			} else {
				keep = append(keep, rd)
			}
		}
		x.rd = keep
	}
	n := 8 + c.Intn(40)
	for s := 0; s < n && !h.fail; s++ {
		i := c.Intn(len(rs))
		x := rs[i]
		switch c.Intn(12) {
		case 0, 1, 2, 3:
			for k := 1 + c.Intn(4); k > 0; k-- {
				order = append(order, len(order))
				h.add("send %d", len(order)-1)
				queue <- len(order) - 1
			}
		case 4, 5:
			if len(x.rd) > 0 {
				break
			}
			select {
			case v, ok := <-x.r.C:
				h.add("read r%d %v %v", i, v, ok)
				if ok {
					x.got = append(x.got, v)
				} else if live(x) {
					h.bad("the channel of a receiver was closed though nobody closed it", "r%d(%s)", i, x.name)
				}
			default:
				if x.closed {
					h.bad("the channel of a closed receiver is not closed", "r%d", i)
				}
				if len(x.rd) == 0 {
					h.add("post reader r%d", i)
					rd := &reader{}
					x.rd = append(x.rd, rd)
					go func() { rd.v, rd.ok = <-x.r.C; rd.done.Store(true) }()
				}
			}
		case 6, 7:
			closeOne(i, x)
		case 8:
			b, cp := shape()
			create(fmt.Sprintf("r%d", len(rs)), b, cp)
		case 9:
			b, cp := shape()
			create(x.name, b, cp)
		case 10:
			if len(x.rd) > 0 {
				break
			}
			var d []interface{}
			h.guarded("Drain", func() { d = x.r.Drain() })
			h.add("drain r%d %v", i, d)
			x.got = append(x.got, d...)
		case 11:
			if len(x.rd) > 0 {
				break
			}
			if x.closed {
				d := time.Duration(1+c.Intn(5)) * time.Millisecond
				t0 := time.Now()
				var got []interface{}
				p, bad := vk.Catch(func() { got = x.r.CollectTimeout(d) })
				h.add("collect closed r%d: %d values", i, len(got))
				if bad {
					h.bad("collecting from a closed receiver panics", "%v", p)
				}
				if time.Since(t0) > d {
					h.bad("collecting from a closed receiver takes longer than its timeout", "%v", time.Since(t0))
				}
				if len(got) > len(order) {
					h.bad("collecting from a closed receiver produces values nobody sent", "%d values", len(got))
					vk.Abort()
				}
				x.got = append(x.got, got...)
			}
		}
		synctest.Wait()
		for i, x := range rs {
			settle(x)
			seq(i, x)
			if h.fail {
				break
			}
		}
	}
	if h.fail {
		vk.Abort()
	}
	if c.Intn(2) == 0 {
		// let everybody read: all that is owed must arrive
		h.add("everybody reads")
		for i, x := range rs {
			for x := x; ; {
				progress := false
				for _, y := range rs {
					if len(y.rd) > 0 {
						settle(y)
						continue
					}
					select {
					case v, ok := <-y.r.C:
						if ok {
							y.got = append(y.got, v)
							progress = true
						} else if live(y) {
							h.bad("the channel of a receiver was closed though nobody closed it", "%s", y.name)
						}
					default:
					}
				}
				synctest.Wait()
				for _, y := range rs {
					if len(y.rd) > 0 && y.rd[0].done.Load() {
						progress = true
					}
					settle(y)
				}
				if !progress || h.fail {
					break
				}
				_ = x
			}
			_ = i
			break
		}
		for i, x := range rs {
			seq(i, x)
			if live(x) && len(x.got) != len(order)-x.from {
				h.bad("events meant for an open receiver were lost", "r%d(%s) block=%v got %d of %d (%v)", i, x.name, x.block, len(x.got), len(order)-x.from, vk.GearsGoroutines())
			}
		}
		if int(accepted.Load()) != len(order) {
			h.bad("the bus does not accept events although every receiver reads", "%d of %d", accepted.Load(), len(order))
		}
	}
	if h.fail {
		vk.Abort()
	}
	// close the bus as it is
	close(stop)
	synctest.Wait()
	close(queue)
	sender.Wait()
	st := stalled()
	h.add("close the bus stalled=%v accepted=%d of %d", st, accepted.Load(), len(order))
	if st {
		closesWhileStalled++
	}
	h.guarded("closing the bus", bus.Close)
	for i, x := range rs {
		settle(x)
		if len(x.rd) > 0 {
			h.bad("a reader stays blocked after the bus was closed", "r%d(%s)", i, x.name)
			vk.Abort()
		}
		if c.Intn(3) == 0 {
			h.guarded("closing a receiver after the bus was closed", x.r.Close)
		}
		if c.Intn(4) == 0 {
			var d []interface{}
			h.guarded("Drain after the bus was closed", func() { d = x.r.Drain() })
			x.got = append(x.got, d...)
		}
		end := false
		for !end {
			select {
			case v, ok := <-x.r.C:
				if ok {
					x.got = append(x.got, v)
				}
				end = !ok
			default:
				h.bad("closing the bus left a receiver's channel open", "r%d(%s) reused=%v closed=%v", i, x.name, x.reused, x.closed)
				end = true
			}
			if len(x.got) > len(order) {
				break
			}
		}
		seq(i, x)
		if len(x.got) > 0 && len(x.got)+x.from > int(accepted.Load()) {
			h.bad("more events were delivered than the bus accepted", "r%d %d of %d", i, len(x.got)+x.from, accepted.Load())
		}
	}
	if c.Intn(2) == 0 {
		h.guarded("closing the bus twice", bus.Close)
	}
	for _, x := range rs {
		if c.Intn(3) == 0 {
			h.guarded("closing a receiver after the bus was closed", x.r.Close)
		}
	}
	if h.fail {
		vk.Abort()
	}
	key := ""
	if closesWhileStalled > 0 {
		key = fmt.Sprint(h.log)
	}
	vk.Count("receiver closes", closes)
	vk.Count("closes while the dispatcher was stalled", closesWhileStalled)
	vk.Count("events", len(order))
	c.Sample(h.log[:min(len(h.log), 20)])
	c.Observed(key)
}

func TestStorm(t *testing.T) {
	vk.Rule("storm (real time, truly parallel): senders, consumers, several goroutines closing the same and different receivers, receivers created under fresh and shared names, then the bus and receivers closed by several goroutines at once; receivers nobody closed must get every event sent after their creation in the common order, nothing may panic, every channel must end; non-trivial when receivers were closed while events flowed")
	vk.Cases("storm", vk.N(2000, 30000), func(c *vk.Case) { storm(c) })
}

type ev struct{ s, k int }

func storm(c *vk.Case) {
	h := &hist{c: c}
	var hm sync.Mutex
	bad := func(sig, f string, a ...interface{}) { hm.Lock(); h.bad(sig, f, a...); hm.Unlock() }
	bus := event.NewFanOutBus(c.Intn(5))
	bus.GoDispatch()
	ns, ne := 1+c.Intn(3), 10+c.Intn(40)
	type R struct {
		r      *event.Receiver
		keep   bool // nobody closes it
		block  bool
		got    []interface{}
		owed   map[ev]bool
		closed bool
	}
	var mu sync.Mutex
	var all []*R
	var started [8]atomic.Int64
	var cons, senders, others sync.WaitGroup
	pause := func(k int) {
		switch k % 5 {
		case 0, 1:
			runtime.Gosched()
		case 2:
			time.Sleep(time.Duration(k%11) * time.Microsecond)
		}
	}
	create := func(name string, keep, block bool, cp, seed int) *R {
		x := &R{keep: keep, block: block, owed: map[ev]bool{}}
		if block {
			x.r = bus.NewRecvStrategy(name, cp, event.Block)
		} else {
			x.r = bus.NewRecv(name, cp)
		}
		for s := 0; s < ns; s++ {
			for k := int(started[s].Load()); k < ne; k++ {
				x.owed[ev{s, k}] = true
			}
		}
		mu.Lock()
		all = append(all, x)
		mu.Unlock()
		cons.Add(1)
		go func() {
			defer cons.Done()
			if p, b := vk.Catch(func() {
				if seed%4 == 0 {
					x.got = append(x.got, x.r.CollectTimeout(time.Duration(seed)*time.Microsecond)...)
				}
				for v := range x.r.C {
					x.got = append(x.got, v)
					seed++
					pause(seed)
					if !keep && seed%3 == 0 {
						// a reader that gives up while the dispatcher may wait for it
						if seed%2 == 0 {
							x.r.Close()
						}
						pause(seed / 3)
					}
				}
				x.got = append(x.got, x.r.CollectTimeout(time.Microsecond)...)
				x.got = append(x.got, x.r.Drain()...)
			}); b {
				bad("panic in a consumer", "%v", p)
			}
		}()
		return x
	}
	ref := create("ref", true, true, c.Intn(4), 1)
	for i, n := 0, c.Intn(3); i < n; i++ {
		create(fmt.Sprintf("k%d", i), true, true, c.Intn(4), c.Intn(100))
	}
	for s := 0; s < ns; s++ {
		seed := c.Intn(1000)
		senders.Add(1)
		go func() {
			defer senders.Done()
			for k := 0; k < ne; k++ {
				started[s].Add(1)
				bus.C <- ev{s, k}
				pause(seed + k*k)
			}
		}()
	}
	ng := 1 + c.Intn(4)
	var closes atomic.Int64
	for g := 0; g < ng; g++ {
		seed := c.Intn(10000)
		others.Add(1)
		go func() {
			defer others.Done()
			for j := 0; j < 6; j++ {
				name := fmt.Sprintf("g%d.%d", g, j)
				if (seed+j)%3 == 0 {
					name = "shared"
				}
				p, b := vk.Catch(func() {
					x := create(name, false, (seed+j)%4 > 0, (seed/7+j)%4, seed+j)
					pause(seed + 3*j)
					closes.Add(1)
					if (seed+j)%5 == 0 {
						var w sync.WaitGroup
						for q := 0; q < 3; q++ {
							w.Add(1)
							go func() {
								defer w.Done()
								if p, b := vk.Catch(x.r.Close); b {
									bad("closing a receiver several times at once panics", "%v", p)
								}
							}()
						}
						w.Wait()
					} else if (seed+j)%7 > 0 {
						x.r.Close()
						x.r.Close()
					} // else left to the bus
				})
				if b {
					bad("panic while receivers come and go", "%v", p)
				}
			}
		}()
	}
	senders.Wait()
	others.Wait()
	if h.fail {
		vk.Abort()
	}
	for j := 0; j < 3+cap(bus.C); j++ {
		bus.C <- "end" // once these went through, all events before were dispatched
	}
	var closers sync.WaitGroup
	for g := 0; g < 1+c.Intn(3); g++ {
		closers.Add(1)
		go func() {
			defer closers.Done()
			if p, b := vk.Catch(bus.Close); b {
				bad("closing the bus several times panics", "%v", p)
			}
		}()
	}
	mu.Lock()
	snap := append([]*R(nil), all...)
	mu.Unlock()
	for _, x := range snap {
		if !x.keep && c.Intn(2) == 0 {
			closers.Add(1)
			go func() {
				defer closers.Done()
				if p, b := vk.Catch(x.r.Close); b {
					bad("closing a receiver next to the bus panics", "%v", p)
				}
			}()
		}
	}
	closers.Wait()
	if h.fail {
		vk.Abort()
	}
	cons.Wait() // a channel that never ends is found by the watchdog
	pos := map[interface{}]int{}
	n := 0
	for _, v := range ref.got {
		if e, ok := v.(ev); ok {
			if _, dup := pos[e]; dup {
				bad("an event was delivered twice", "%v", e)
			}
			pos[e] = n
			n++
		}
	}
	if n != ns*ne {
		bad("events meant for an open receiver were lost", "%d of %d", n, ns*ne)
	}
	for i, x := range snap {
		if h.fail {
			break
		}
		prev := -1
		seen := map[ev]bool{}
		for _, v := range x.got {
			if v == nil {
				bad("a value was produced that nobody sent", "receiver %d", i)
				break
			}
			e, ok := v.(ev)
			if !ok {
				continue
			}
			p, known := pos[e]
			if !known || p <= prev || (x.block && prev >= 0 && p != prev+1) {
				bad("a receiver lost, repeated or reordered an event", "receiver %d: %v at %d after %d", i, e, p, prev)
				break
			}
			prev = p
			seen[e] = true
		}
		if x.keep {
			for e := range x.owed {
				if !seen[e] {
					bad("events meant for an open receiver were lost", "receiver %d: %v", i, e)
					break
				}
			}
		}
	}
	if h.fail {
		vk.Abort()
	}
	vk.Count("closes under load", int(closes.Load()))
	c.Observed(fmt.Sprint(c.Index, ns, ne, ng, len(snap)))
}

// Receivers made, replaced and closed at the very moment the bus closes.
func TestEdge(t *testing.T) {
	vk.Rule("edge (real time, truly parallel): goroutines released at one moment create receivers under fresh and shared names, close some of them and close the bus; once all of it returned every channel must end, every call must return and nothing may panic; non-trivial when more than one goroutine took part")
	vk.Cases("edge", vk.N(3000, 40000), func(c *vk.Case) {
		for round := 0; round < 30; round++ {
			if !edge(c) {
				return
			}
		}
		c.Observed(fmt.Sprint("edge", c.Index))
	})
}

func edge(c *vk.Case) bool {
	bus := event.NewFanOutBus(c.Intn(3))
	if c.Intn(4) > 0 {
		bus.GoDispatch()
	}
	for i := c.Intn(3); i > 0; i-- {
		bus.NewRecv(fmt.Sprint("old", i), c.Intn(2))
	}
	ng := 1 + c.Intn(4)
	var ready, fin sync.WaitGroup
	var gate atomic.Bool
	var mu sync.Mutex
	made := []*event.Receiver{}
	okay := true
	bad := func(sig string, d interface{}) {
		mu.Lock()
		defer mu.Unlock()
		okay = false
		c.Violate(sig, d)
	}
	run := func(what string, spin int, f func()) {
		ready.Add(1)
		fin.Add(1)
		go func() {
			defer fin.Done()
			ready.Done()
			for !gate.Load() {
				runtime.Gosched()
			}
			for i := 0; i < spin; i++ {
				gate.Load()
			}
			if p, b := vk.Catch(f); b {
				bad("panic while "+what, fmt.Sprint(p))
			}
		}()
	}
	for g := 0; g < ng; g++ {
		n, shared, cl, block := 1+c.Intn(4), c.Intn(3) == 0, c.Intn(4), c.Intn(2) == 0
		run("receivers are made as the bus closes", c.Intn(200), func() {
			for j := 0; j < n; j++ {
				name := fmt.Sprintf("g%d.%d", g, j)
				if shared {
					name = "shared"
				}
				st := event.Drop
				if block {
					st = event.Block
				}
				r := bus.NewRecvStrategy(name, j, st)
				mu.Lock()
				made = append(made, r)
				mu.Unlock()
				if cl == j {
					r.Close()
				}
			}
		})
	}
	for i := 1 + c.Intn(2); i > 0; i-- {
		run("the bus closes", c.Intn(400), bus.Close)
	}
	ready.Wait()
	gate.Store(true)
	fin.Wait() // a call that never returns is found by the watchdog
	for _, r := range made {
		tm := time.NewTimer(20 * time.Second)
		select {
		case v, open := <-r.C:
			if open {
				bad("a value was produced that nobody sent", fmt.Sprint(v))
			}
		case <-tm.C:
			bad("a receiver made as the bus closed never ends", "")
		}
		tm.Stop()
	}
	vk.Count("receivers made at the edge", len(made))
	mu.Lock()
	defer mu.Unlock()
	return okay
}

// Any number of receivers: closing must reach every one of them.
func TestWide(t *testing.T) {
	vk.Rule("wide: a bus with tens to thousands of receivers is closed, with events still waiting in their buffers, some receivers closed before; every receiver's channel must hand out what it held and then be closed, and closing receivers afterwards or creating new ones must neither panic nor hang; non-trivial when more than 300 receivers were open")
	vk.Cases("wide", vk.N(60, 1500), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) { wide(c) })
	})
}

func wide(c *vk.Case) {
	defer func() {
		if e := recover(); e != nil {
			c.Violate("closing a bus with many receivers panics", fmt.Sprint(e))
		}
	}()
	bus := event.NewFanOutBus([]int{0, 10, 1000}[c.Intn(3)])
	bus.GoDispatch()
	n := []int{20, 130, 300, 1100, 2500}[c.Intn(5)] + c.Intn(60)
	var rs []*event.Receiver
	held := make([]int, n)
	for i := 0; i < n; i++ {
		st := event.Drop
		if c.Intn(2) == 0 {
			st = event.Block
		}
		rs = append(rs, bus.NewRecvStrategy(fmt.Sprint("r", i), 4, st))
	}
	ev := c.Intn(4)
	for i := 0; i < ev; i++ {
		bus.C <- i
	}
	synctest.Wait()
	for i := range held {
		held[i] = ev
	}
	for j := c.Intn(20); j > 0; j-- {
		rs[c.Intn(n)].Close()
	}
	bus.Close()
	synctest.Wait()
	closed := func(i int, r *event.Receiver, want int) bool {
		for k := 0; ; k++ {
			select {
			case _, ok := <-r.C:
				if !ok {
					if k != want {
						c.Violate("a closed receiver did not hand out what it held", fmt.Sprintf("receiver %d of %d: %d events, want %d", i, n, k, want))
						return false
					}
					return true
				}
			default:
				c.Violate("closing the bus left a receiver open", fmt.Sprintf("receiver %d of %d", i, n))
				return false
			}
		}
	}
	for i, r := range rs {
		if !closed(i, r, held[i]) {
			break
		}
	}
	for j := c.Intn(20); j > 0; j-- {
		rs[c.Intn(n)].Close()
	}
	closed(n, bus.NewRecv("late", 3), 0)
	bus.Close()
	vk.Count("receivers on wide buses", n)
	key := ""
	if n > 300 {
		key = fmt.Sprint(n, ev, c.Index)
	}
	c.Observed(key)
}
