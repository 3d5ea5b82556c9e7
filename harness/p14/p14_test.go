// Monitor of P14: per-key linearizability of the config store.
package p14

import (
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/chanjarster/gears/confstore"
	"verif/harness/vk"
)

func TestMain(m *testing.M) { vk.Main(m, "P14") }

type in struct {
	Kind string // reg dereg reset upd get getS must mustS
	Key  string
	Val  string
	Proc int
}
type out struct {
	Ok  bool
	Val string
}
type state struct {
	Proc int // 0: not registered
	Def  string
	Val  string
	Has  bool
}

func accepts(proc int, v string) bool {
	return proc == 1 || !strings.HasPrefix(v, fmt.Sprint("o", proc))
}

func typed(proc int, v string) string { return fmt.Sprintf("c%d:%s", proc, v) }

// step is the sequential specification of one key.
func step(s state, i in, o out) (bool, state) {
	switch i.Kind {
	case "reg":
		if s.Proc != 0 {
			return !o.Ok, s
		}
		return o.Ok, state{Proc: i.Proc, Def: i.Val}
	case "dereg":
		return true, state{}
	case "reset":
		s.Val, s.Has = "", false
		return true, s
	case "upd":
		if s.Proc == 0 || !accepts(s.Proc, i.Val) {
			return !o.Ok, s
		}
		s.Val, s.Has = i.Val, true
		return o.Ok, s
	}
	// reads
	if s.Proc == 0 {
		return !o.Ok, s
	}
	v := s.Def
	if s.Has {
		v = s.Val
	}
	if i.Kind == "get" || i.Kind == "must" {
		v = typed(s.Proc, v)
	}
	return o.Ok && o.Val == v, s
}

var model = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[string][]porcupine.Operation{}
		var ks []string
		for _, o := range h {
			k := o.Input.(in).Key
			if m[k] == nil {
				ks = append(ks, k)
			}
			m[k] = append(m[k], o)
		}
		var r [][]porcupine.Operation
		for _, k := range ks {
			r = append(r, m[k])
		}
		return r
	},
	Init: func() interface{} { return state{} },
	Step: func(s, i, o interface{}) (bool, interface{}) {
		ok, n := step(s.(state), i.(in), o.(out))
		return ok, n
	},
	Equal: func(a, b interface{}) bool { return a == b },
}

type hist struct {
	clock atomic.Int64
	mu    sync.Mutex
	ops   []porcupine.Operation
}

func (h *hist) rec(client int, i in, f func() out) {
	call := h.clock.Add(1)
	o := f()
	ret := h.clock.Add(1)
	h.add(client, i, o, call, ret)
}
func (h *hist) add(client int, i in, o out, call, ret int64) {
	h.mu.Lock()
	h.ops = append(h.ops, porcupine.Operation{ClientId: client, Input: i, Output: o, Call: call, Return: ret})
	h.mu.Unlock()
}

type jitter struct {
	n     atomic.Int64
	level int
	salt  int64
}

// wait gives the scheduler a chance to switch at a place the library calls out to.
func (j *jitter) wait() {
	if j.level == 0 {
		return
	}
	x := uint64(j.n.Add(1)+j.salt) * 0x9E3779B97F4A7C15
	switch k := (x >> 40) % 8; {
	case k < 4:
		for i := uint64(0); i <= k; i++ {
			runtime.Gosched()
		}
	case k == 4 && j.level > 1:
		time.Sleep(time.Duration(x>>50%30) * time.Microsecond)
	}
}

type proc struct {
	id int
	j  *jitter
}

func (p *proc) Validate(v string) (bool, string) {
	p.j.wait()
	if !accepts(p.id, v) {
		return false, "refused"
	}
	return true, ""
}
func (p *proc) Convert(v string) interface{} {
	p.j.wait()
	return typed(p.id, v)
}

// store is the persister; what Load does to the config store is recorded as
// updates of their own.
type persist struct {
	mu     sync.Mutex
	data   map[string]string
	h      *hist
	j      *jitter
	client int
	loads  atomic.Int64
}

func (p *persist) Load(s confstore.Interface) error {
	n := p.loads.Add(1)
	p.j.wait()
	cp := map[string]string{}
	p.mu.Lock()
	for k, v := range p.data {
		cp[k] = v
	}
	p.mu.Unlock()
	p.j.wait()
	for k, v := range cp {
		p.h.rec(p.client+int(n), in{Kind: "upd", Key: k, Val: v}, func() out { return out{Ok: s.UpdateNoPersist(k, v) == nil} })
	}
	return nil
}
func (p *persist) Save(k, v string) error {
	p.j.wait()
	p.mu.Lock()
	defer p.mu.Unlock()
	p.data[k] = v
	return nil
}
func (p *persist) BatchSave(kvs []*confstore.KVStr) error {
	p.j.wait()
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, kv := range kvs {
		p.data[kv.Key] = kv.Value
	}
	return nil
}
func (p *persist) Delete(k string) error {
	p.j.wait()
	p.mu.Lock()
	defer p.mu.Unlock()
	delete(p.data, k)
	return nil
}

func TestLinearizable(t *testing.T) {
	vk.Rule("linearizable: 2-6 goroutines run random register (two processors with different domains and types) / deregister / update / batch update / update without persisting / reset / typed, string, Must and batch reads over 1-3 keys and with no, throttled or permanent loading, with scheduling points inside every processor and persister call; each recorded history (call and return order, loads recorded as updates) is decided per key by a linearizability checker; non-trivial when operations on one key overlapped, distinct by the observed history")
	vk.Cases("linearizable", vk.N(24000, 300000), func(c *vk.Case) {
		h := &hist{}
		j := &jitter{level: c.Intn(3), salt: c.Int63n(1 << 30)}
		p := &persist{data: map[string]string{}, h: h, j: j, client: 100}
		var pol confstore.LoadPolicy
		polName := ""
		switch c.Intn(4) {
		case 0:
			pol, polName = confstore.NewSimpleLoadPolicy(), "simple"
		case 1:
			pol, polName = confstore.NewLoadPolicy(time.Duration(c.Intn(40))*time.Microsecond), "throttled"
		default:
			pol, polName = confstore.NoopLoadPolicy, "noop"
		}
		s := confstore.NewStore(p, pol)
		keys := []string{"k1", "k2", "k3"}[:1+c.Intn(3)]
		style := c.Intn(3) // 0 all, 1 mostly re-registration, 2 mostly writes and reads
		ng := 2 + c.Intn(5)
		per := 4 + c.Intn(6)
		if polName != "noop" {
			ng, per = 2+c.Intn(3), 3+c.Intn(4)
		}
		var seq atomic.Int64
		for _, k := range keys {
			if c.Intn(4) > 0 {
				i := in{Kind: "reg", Key: k, Val: fmt.Sprint("d", seq.Add(1)), Proc: 1 + c.Intn(2)}
				h.rec(0, i, func() out { return out{Ok: s.RegisterKey(k, i.Val, &proc{i.Proc, j}) == nil} })
			}
		}
		gate := make(chan struct{})
		var wg sync.WaitGroup
		for g := 0; g < ng; g++ {
			seed := c.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				<-gate
				for n := 0; n < per; n++ {
					k := keys[r.Intn(len(keys))]
					v := fmt.Sprint([]string{"v", "o1", "o2"}[r.Intn(3)], ".", seq.Add(1))
					op := r.Intn(16)
					if style == 1 && r.Intn(2) == 0 {
						op = 14 + r.Intn(2)
					}
					if style == 2 && op >= 13 {
						op = r.Intn(12)
					}
					pn, bad := vk.Catch(func() { one(h, s, j, g, r, keys, k, v, op) })
					if bad {
						c.Violate("panic", map[string]interface{}{"op": op, "panic": fmt.Sprint(pn)})
						return
					}
				}
			}()
		}
		close(gate)
		wg.Wait()
		for _, k := range keys { // final state
			h.rec(0, in{Kind: "getS", Key: k}, func() out { v, hit := s.GetValueString(k); return out{hit, v} })
			h.rec(0, in{Kind: "get", Key: k}, func() out { return conv(s.GetValue(k)) })
		}
		switch porcupine.CheckOperationsTimeout(model, h.ops, 20*time.Second) {
		case porcupine.Illegal:
			c.Violate("a history of one key is not linearizable", map[string]interface{}{"policy": polName, "history": render(h.ops)})
		case porcupine.Unknown:
			vk.Inconclusive("%s: the checker did not finish", c.ID())
		}
		over := false
		var sb strings.Builder
		for a := range h.ops {
			for b := a + 1; b < len(h.ops) && !over; b++ {
				x, y := h.ops[a], h.ops[b]
				over = x.Input.(in).Key == y.Input.(in).Key && x.Call < y.Return && y.Call < x.Return
			}
			fmt.Fprint(&sb, h.ops[a].ClientId, h.ops[a].Input, h.ops[a].Output, h.ops[a].Call, h.ops[a].Return, ";")
		}
		vk.Count("operations", len(h.ops))
		if over {
			vk.Count("histories with overlap", 1)
			c.Observed(sb.String())
		} else {
			c.Observed("")
		}
		if c.Index < 3 {
			c.Sample(render(h.ops))
		}
	})
}

func conv(v interface{}, hit bool) out {
	if !hit {
		return out{}
	}
	s, ok := v.(string)
	if !ok {
		s = fmt.Sprintf("%T %v", v, v)
	}
	return out{true, s}
}

func one(h *hist, s confstore.Interface, j *jitter, g int, r *rand.Rand, keys []string, k, v string, op int) {
	switch op {
	case 0, 1, 2:
		h.rec(g, in{Kind: "upd", Key: k, Val: v}, func() out { return out{Ok: s.Update(k, v) == nil} })
	case 3:
		h.rec(g, in{Kind: "upd", Key: k, Val: v}, func() out { return out{Ok: s.UpdateNoPersist(k, v) == nil} })
	case 4, 5:
		var kvs []*confstore.KVStr
		for _, x := range keys {
			kvs = append(kvs, &confstore.KVStr{Key: x, Value: v})
		}
		call := h.clock.Add(1)
		errs := s.BatchUpdate(kvs)
		ret := h.clock.Add(1)
		refused := map[string]bool{}
		for _, e := range errs {
			refused[e.Key] = true
		}
		for _, x := range keys {
			h.add(g, in{Kind: "upd", Key: x, Val: v}, out{Ok: !refused[x]}, call, ret)
		}
	case 6, 7:
		h.rec(g, in{Kind: "getS", Key: k}, func() out { v, hit := s.GetValueString(k); return out{hit, v} })
	case 8, 9:
		h.rec(g, in{Kind: "get", Key: k}, func() out { return conv(s.GetValue(k)) })
	case 10:
		h.rec(g, in{Kind: "mustS", Key: k}, func() (o out) {
			if _, bad := vk.Catch(func() { o.Val = s.MustGetValueString(k) }); !bad {
				o.Ok = true
			}
			return o
		})
	case 11:
		h.rec(g, in{Kind: "must", Key: k}, func() (o out) {
			if _, bad := vk.Catch(func() { o = conv(s.MustGetValue(k), true) }); bad {
				o = out{}
			}
			return o
		})
	case 12:
		h.rec(g, in{Kind: "reset", Key: k}, func() out { s.ResetKey(k); return out{} })
	case 13:
		call := h.clock.Add(1)
		got := map[string]out{}
		kind := "get"
		if r.Intn(2) == 0 {
			kind = "getS"
			for _, kv := range s.BatchGetValueString(keys) {
				got[kv.Key] = out{true, kv.Value}
			}
		} else {
			for _, kv := range s.BatchGetValues(keys) {
				got[kv.Key] = conv(kv.Value, true)
			}
		}
		ret := h.clock.Add(1)
		for _, x := range keys {
			h.add(g, in{Kind: kind, Key: x}, got[x], call, ret)
		}
	case 14:
		h.rec(g, in{Kind: "dereg", Key: k}, func() out { s.DeregisterKey(k); return out{} })
	case 15:
		i := in{Kind: "reg", Key: k, Val: "d" + v, Proc: 1 + r.Intn(2)}
		h.rec(g, i, func() out { return out{Ok: s.RegisterKey(k, i.Val, &proc{i.Proc, j}) == nil} })
	}
}

func render(ops []porcupine.Operation) []string {
	var r []string
	for _, o := range ops {
		r = append(r, fmt.Sprintf("[%d,%d] g%d %+v -> %+v", o.Call, o.Return, o.ClientId, o.Input, o.Output))
	}
	return r
}
