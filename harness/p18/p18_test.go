// Monitor of P18: the task manager.
package p18

import (
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/chanjarster/gears/schedule"
	"verif/harness/vk"
)

func TestMain(m *testing.M) { vk.Main(m, "P18") }

// board counts running tasks per name.
type board struct {
	mu      sync.Mutex
	running map[string]int
	bad     string
}

func (b *board) add(name string, d int) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.running[name] += d
	if b.running[name] > 1 && b.bad == "" {
		b.bad = "two tasks named " + name + " are running"
	}
}

// task is an observing task of its own.
type task struct {
	name   string
	id     int
	b      *board
	refuse bool // cannot be started
	slow   bool
	mu     sync.Mutex
	state  int // 0 new 1 started 2 stopped
	starts int
	stops  int
}

func (t *task) Name() string { return t.name }
func (t *task) Start() error {
	if t.slow {
		for i := 0; i < 5; i++ {
			runtime.Gosched()
		}
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.refuse || t.state != 0 {
		return errors.New("cannot start")
	}
	t.state = 1
	t.starts++
	t.b.add(t.name, 1)
	return nil
}
func (t *task) MustStart() {
	if err := t.Start(); err != nil {
		panic(err)
	}
}
func (t *task) Stop() error {
	if t.slow {
		for i := 0; i < 5; i++ {
			runtime.Gosched()
		}
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.state != 1 {
		return errors.New("cannot stop")
	}
	t.state = 2
	t.stops++
	t.b.add(t.name, -1)
	return nil
}
func (t *task) MustStop() {
	if err := t.Stop(); err != nil {
		panic(err)
	}
}
func (t *task) status() int { t.mu.Lock(); defer t.mu.Unlock(); return t.state }

// register calls Register and tells whether it succeeded; a panic counts as a
// failed registration.
func register(m schedule.TaskManager, t schedule.Task) (ok, panicked bool) {
	var err error
	_, panicked = vk.Catch(func() { err = m.Register(t) })
	return err == nil && !panicked, panicked
}

var names = []string{"A", "a", "a "}

func TestSequence(t *testing.T) {
	vk.Rule("sequence: random Register (fresh tasks, tasks that cannot start, tasks already started elsewhere, taken names), tasks stopped from outside while registered, Unregister (known and unknown names) and UnregisterAll over observing tasks; after every call the state of every task ever made is compared with a map model; non-trivial when a duplicate was refused, a task unregistered and its name reused")
	vk.Cases("sequence", vk.N(40000, 1500000), func(c *vk.Case) {
		b := &board{running: map[string]int{}}
		m := schedule.NewTaskManager()
		model := map[string]*task{}
		var all []*task
		want := map[*task]int{}
		var hist []string
		dup, unreg, reuse, failed, outside := 0, 0, 0, 0, 0
		used := map[string]bool{}
		bad := func(sig, what string) {
			c.Violate(sig, map[string]interface{}{"what": what, "history": hist})
		}
		ok := true
		n := 5 + c.Intn(25)
		for i := 0; i < n && ok; i++ {
			name := names[c.Intn(3)]
			switch c.Intn(9) {
			case 8:
				// its owner stops it behind the manager's back: the manager's
				// own Stop of it will fail
				if x := model[name]; x != nil && x.status() == 1 {
					hist = append(hist, fmt.Sprintf("stop %s#%d from outside", name, x.id))
					x.Stop()
					want[x] = 2
					outside++
				}
			case 0, 1, 2, 3:
				x := &task{name: name, id: len(all), b: &board{running: map[string]int{}}}
				kind := c.Intn(8)
				if kind == 0 {
					x.refuse = true
				} else if kind == 1 {
					x.Start() // someone else started it
					want[x] = 1
				}
				x.b = b
				all = append(all, x)
				hist = append(hist, fmt.Sprintf("register %s#%d kind %d", name, x.id, kind))
				good, panicked := register(m, x)
				hist[len(hist)-1] += fmt.Sprintf(" -> %v panic %v", good, panicked)
				switch {
				case model[name] != nil:
					dup++
					if good {
						bad("a taken name was registered again", name)
						ok = false
					} else if panicked {
						bad("registering a taken name does not return an error", name)
						ok = false
					}
				case kind <= 1:
					failed++
					if good {
						bad("registering a task that cannot be started succeeded", name)
						ok = false
					}
				default:
					if !good {
						bad("a free name could not be registered", name)
						ok = false
						break
					}
					model[name] = x
					want[x] = 1
					if used[name] {
						reuse++
					}
					used[name] = true
				}
			case 4, 5, 6:
				if c.Intn(6) == 0 {
					name = []string{"", "zz", "A"}[c.Intn(3)]
				}
				hist = append(hist, "unregister "+name)
				if p, panicked := vk.Catch(func() { m.Unregister(name) }); panicked {
					bad("panic", fmt.Sprint(p))
					ok = false
				}
				if x := model[name]; x != nil {
					want[x] = 2
					delete(model, name)
					unreg++
				}
			case 7:
				hist = append(hist, "unregisterAll")
				if p, panicked := vk.Catch(m.UnregisterAll); panicked {
					bad("panic", fmt.Sprint(p))
					ok = false
				}
				for k, x := range model {
					want[x] = 2
					delete(model, k)
					unreg++
				}
			}
			for _, x := range all {
				if s := x.status(); s != want[x] {
					bad("a task is not in the state its registration demands", fmt.Sprintf("%s#%d is in state %d, want %d", x.name, x.id, s, want[x]))
					ok = false
					break
				}
			}
		}
		vk.Count("duplicates refused", dup)
		vk.Count("registrations that failed", failed)
		vk.Count("unregistered", unreg)
		vk.Count("stopped from outside", outside)
		key := ""
		if dup > 0 && unreg > 0 && reuse > 0 {
			key = fmt.Sprint(hist)
		}
		c.Sample(hist)
		c.Observed(key)
	})
}

type in struct {
	Kind string // reg unreg all
	Name string
	ID   int
}

type st [3]int // id+1 of the task registered for each name

func idx(n string) int { return sort.SearchStrings(names, n) }

var model = porcupine.Model{
	Init: func() interface{} { return st{} },
	Step: func(s, i, o interface{}) (bool, interface{}) {
		x, a, ok := s.(st), i.(in), o.(bool)
		switch a.Kind {
		case "reg":
			if x[idx(a.Name)] != 0 {
				return !ok, x
			}
			x[idx(a.Name)] = a.ID + 1
			return ok, x
		case "unreg":
			x[idx(a.Name)] = 0
			return true, x
		}
		return true, st{}
	},
	Equal: func(a, b interface{}) bool { return a == b },
}

func TestParallel(t *testing.T) {
	vk.Rule("parallel: 2-6 goroutines register, unregister and unregister all over three names with scheduling points inside starting and stopping; at every moment at most one task per name runs, the recorded history is linearizable with respect to the map model, after a final UnregisterAll every task that was registered has been started once and stopped once and no other was touched; non-trivial when calls overlapped")
	vk.Cases("parallel", vk.N(8000, 300000), func(c *vk.Case) {
		b := &board{running: map[string]int{}}
		m := schedule.NewTaskManager()
		var clock atomic.Int64
		var mu sync.Mutex
		var ops []porcupine.Operation
		var all []*task
		reg := map[int]bool{}
		var ids atomic.Int64
		ng, per := 2+c.Intn(5), 2+c.Intn(5)
		gate := make(chan struct{})
		var wg sync.WaitGroup
		for g := 0; g < ng; g++ {
			r := rand.New(rand.NewSource(c.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				for k := 0; k < per; k++ {
					name := names[r.Intn(3)]
					a := in{Kind: "reg", Name: name}
					var x *task
					switch r.Intn(7) {
					case 0, 1:
						a.Kind = "unreg"
					case 2:
						a.Kind = "all"
					default:
						x = &task{name: name, id: int(ids.Add(1)), b: b, slow: r.Intn(2) == 0}
						a.ID = x.id
					}
					call := clock.Add(1)
					ok := true
					switch a.Kind {
					case "reg":
						var p bool
						if ok, p = register(m, x); p {
							c.Violate("panic", "Register")
						}
					case "unreg":
						m.Unregister(name)
					default:
						m.UnregisterAll()
					}
					ret := clock.Add(1)
					mu.Lock()
					ops = append(ops, porcupine.Operation{ClientId: g, Input: a, Output: ok, Call: call, Return: ret})
					if x != nil {
						all = append(all, x)
						reg[x.id] = ok
					}
					mu.Unlock()
				}
			}()
		}
		close(gate)
		wg.Wait()
		m.UnregisterAll()
		d := func() interface{} {
			var r []string
			for _, o := range ops {
				r = append(r, fmt.Sprintf("[%d,%d] g%d %+v -> %v", o.Call, o.Return, o.ClientId, o.Input, o.Output))
			}
			return r
		}
		if b.bad != "" {
			c.Violate("two tasks of one name run at once", d())
		}
		for _, x := range all {
			w := 0
			if reg[x.id] {
				w = 1
			}
			if x.starts != w || x.stops != w {
				c.Violate("a registered task was not started and stopped exactly once, or a refused one was touched", map[string]interface{}{"task": fmt.Sprintf("%s#%d registered %v starts %d stops %d", x.name, x.id, reg[x.id], x.starts, x.stops), "history": d()})
				break
			}
		}
		switch porcupine.CheckOperationsTimeout(model, ops, 20*time.Second) {
		case porcupine.Illegal:
			c.Violate("the results of concurrent calls fit no order", d())
		case porcupine.Unknown:
			vk.Inconclusive("%s: the checker did not finish", c.ID())
		}
		over := false
		for i := range ops {
			for k := i + 1; k < len(ops); k++ {
				over = over || (ops[i].Call < ops[k].Return && ops[k].Call < ops[i].Return)
			}
		}
		key := ""
		if over {
			key = fmt.Sprint(d())
		}
		vk.Count("operations", len(ops))
		c.Observed(key)
	})
}

func TestReal(t *testing.T) {
	vk.Rule("live: the library's own fixed-delay and fixed-rate tasks in virtual time under one manager: only registered tasks run jobs, an unregistered one starts none later, a refused one none at all, jobs keep their schedule whatever happens to other names; non-trivial when tasks were refused and unregistered")
	vk.Cases("live", vk.N(6000, 200000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) {
			m := schedule.NewTaskManager()
			type rec struct {
				name  string
				from  time.Time
				to    time.Time
				on    bool
				iv    time.Duration
				count int
				last  time.Time
			}
			var mu sync.Mutex
			var all []*rec
			cur := map[string]*rec{}
			var hist []string
			refused, unreg := 0, 0
			t0 := time.Now()
			for i := 0; i < 6+c.Intn(12); i++ {
				name := names[c.Intn(3)]
				switch c.Intn(6) {
				case 0, 1, 2:
					r := &rec{name: name, iv: time.Duration(1+c.Intn(20)) * 100 * time.Millisecond}
					job := func(cancel <-chan struct{}) error {
						mu.Lock()
						r.count++
						r.last = time.Now()
						mu.Unlock()
						return nil
					}
					var x schedule.Task
					if c.Intn(2) == 0 {
						x = schedule.NewFixedDelayTask(name, job, r.iv, time.Second)
					} else {
						x = schedule.NewFixedRateTask(name, job, r.iv, time.Second)
					}
					failing := c.Intn(6) == 0
					if failing { // used up
						x.Start()
						x.Stop()
						synctest.Wait()
						mu.Lock()
						r.count = 0
						mu.Unlock()
					}
					good, _ := register(m, x)
					all = append(all, r)
					hist = append(hist, fmt.Sprintf("+%v register %s interval %v used up %v -> %v", time.Since(t0), name, r.iv, failing, good))
					if wantOk := cur[name] == nil && !failing; good != wantOk {
						c.Violate("a registration succeeded or failed wrongly", hist)
						m.UnregisterAll()
						return
					}
					if good {
						r.from, r.on = time.Now(), true
						cur[name] = r
					} else {
						refused++
					}
				case 3:
					m.Unregister(name)
					hist = append(hist, fmt.Sprintf("+%v unregister %s", time.Since(t0), name))
					if r := cur[name]; r != nil {
						r.to = time.Now()
						delete(cur, name)
						unreg++
					}
				case 4:
					if c.Intn(3) == 0 {
						m.UnregisterAll()
						hist = append(hist, fmt.Sprintf("+%v unregisterAll", time.Since(t0)))
						for k, r := range cur {
							r.to = time.Now()
							delete(cur, k)
							unreg++
						}
					}
				}
				if c.Intn(2) == 0 {
					time.Sleep(time.Duration(c.Int63n(int64(3 * time.Second))))
				}
			}
			m.UnregisterAll()
			for _, r := range cur {
				r.to = time.Now()
			}
			time.Sleep(10 * time.Second)
			synctest.Wait()
			for _, r := range all {
				want := 0
				if r.on {
					want = int(r.to.Sub(r.from)/r.iv) + 1
				}
				// at the very instant of the stop a job may or may not begin
				slack := r.on && r.to.Sub(r.from)%r.iv == 0
				if !(r.count == want || (slack && r.count == want-1)) || (r.on && r.count > 0 && r.last.After(r.to)) {
					c.Violate("a task's jobs do not fit its registration", map[string]interface{}{"task": r.name, "interval": r.iv.String(), "jobs": r.count, "want": want, "history": hist})
					return
				}
			}
			key := ""
			if refused > 0 && unreg > 0 {
				key = fmt.Sprint(hist)
			}
			c.Observed(key)
		})
	})
}

// Any number of tasks: how many there are must not matter.
func TestManyTasks(t *testing.T) {
	vk.Rule("many: hundreds of observing tasks under one manager, some unregistered one by one and their names taken again, then all unregistered at once; the state of every task made is compared with a map after each phase; non-trivial when more than 150 were registered at once")
	vk.Cases("many", vk.N(100, 3000), func(c *vk.Case) {
		m := schedule.NewTaskManager()
		b := &board{running: map[string]int{}}
		var all []*task
		want := map[*task]int{}
		model := map[string]*task{}
		check := func(phase string) bool {
			for _, x := range all {
				if got := x.status(); got != want[x] {
					c.Violate("among many tasks one is not in the state its registration asks for", fmt.Sprintf("%s: %s#%d of %d state %d, want %d", phase, x.name, x.id, len(all), got, want[x]))
					return false
				}
			}
			return true
		}
		n := 20 + c.Intn(600)
		most := 0
		for r := 1 + c.Intn(3); r > 0; r-- {
			for i := 0; i < n; i++ {
				x := &task{name: fmt.Sprint("task", i), id: len(all), b: b}
				all = append(all, x)
				good, panicked := register(m, x)
				if panicked || good != (model[x.name] == nil) {
					c.Violate("a registration among many succeeded or failed wrongly", fmt.Sprintf("%s of %d: %v panic %v", x.name, n, good, panicked))
					return
				}
				if good {
					model[x.name] = x
					want[x] = 1
				}
			}
			if len(model) > most {
				most = len(model)
			}
			if !check("registered") {
				return
			}
			for j := c.Intn(n); j > 0; j-- {
				name := fmt.Sprint("task", c.Intn(n+5))
				m.Unregister(name)
				if x := model[name]; x != nil {
					want[x] = 2
					delete(model, name)
				}
			}
			if !check("unregistered") {
				return
			}
			if c.Intn(2) == 0 || r == 1 {
				m.UnregisterAll()
				for k, x := range model {
					want[x] = 2
					delete(model, k)
				}
				if !check("unregistered all") {
					return
				}
			}
		}
		vk.Count("tasks among many", len(all))
		k := ""
		if most > 150 {
			k = fmt.Sprint(n, len(all), c.Index)
		}
		c.Observed(k)
	})
}
