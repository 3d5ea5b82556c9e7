// Monitor of P11: what the config store persists, with restarts and faults.
package p11

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/chanjarster/gears/confstore"
	"github.com/go-redis/redis/v7"
	"verif/harness/fakeredis"
	"verif/harness/vk"
)

func TestMain(m *testing.M) { vk.Main(m, "P11") }

var errFault = errors.New("injected persister fault")

// mem is a persister that remembers everything and fails on demand.
type mem struct {
	mu    sync.Mutex
	data  map[string]string
	fail  string // "", "save", "batch", "delete", "load", "loadHalf", "all"
	rnd   *rand.Rand
	calls int
	slow  bool
	pause []time.Duration // real waits around the calls, in turn
	turn  atomic.Int64
}

// around waits before or after a call.
func (p *mem) around() {
	if len(p.pause) > 0 {
		if d := p.pause[int(p.turn.Add(1))%len(p.pause)]; d > 0 {
			time.Sleep(d)
		}
	}
}

func (p *mem) hit(op string) bool {
	p.calls++
	if p.slow {
		for i := 0; i < 3; i++ {
			runtime.Gosched()
		}
	}
	return p.fail == op || p.fail == "all"
}

func (p *mem) Load(s confstore.Interface) error {
	p.mu.Lock()
	bad := p.hit("load")
	half := p.fail == "loadHalf"
	var ks []string
	cp := map[string]string{}
	for k, v := range p.data {
		ks = append(ks, k)
		cp[k] = v
	}
	p.mu.Unlock()
	if bad {
		return errFault
	}
	for i, k := range ks {
		if half && i == len(ks)/2 {
			return errFault
		}
		s.UpdateNoPersist(k, cp[k])
	}
	if half {
		return errFault
	}
	return nil
}
func (p *mem) Save(key, value string) error {
	p.around()
	defer p.around()
	if p.slow {
		runtime.Gosched()
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.hit("save") {
		return errFault
	}
	p.data[key] = value
	return nil
}
func (p *mem) BatchSave(kvs []*confstore.KVStr) error {
	p.around()
	defer p.around()
	if p.slow {
		runtime.Gosched()
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.hit("batch") {
		return errFault
	}
	for _, kv := range kvs {
		p.data[kv.Key] = kv.Value
	}
	return nil
}
func (p *mem) Delete(key string) error {
	p.around()
	defer p.around()
	if p.slow {
		runtime.Gosched()
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.hit("delete") {
		return errFault
	}
	delete(p.data, key)
	return nil
}

// back is the persister under the store, with a way to look at it and break it.
type back interface {
	persister() confstore.Persister
	dump() map[string]string
	seed(k, v string)
	fault(kind string)
	others() string // data that must stay untouched
	close()
}

type memBack struct{ p *mem }

func (b *memBack) persister() confstore.Persister { return b.p }
func (b *memBack) dump() map[string]string {
	m := map[string]string{}
	for k, v := range b.p.data {
		m[k] = v
	}
	return m
}
func (b *memBack) seed(k, v string) { b.p.data[k] = v }
func (b *memBack) fault(k string)   { b.p.fail = k }
func (b *memBack) others() string   { return "" }
func (b *memBack) close()           {}

type redisBack struct {
	srv  *fakeredis.Server
	cl   *redis.Client
	root string
	mu   sync.Mutex
	kind string
	c    *vk.Case
}

func newRedisBack(c *vk.Case) *redisBack {
	b := &redisBack{srv: fakeredis.New(), root: []string{"root", "conf:app", "键", "a b", "r\x00t"}[c.Intn(5)], c: c}
	b.srv.NoLog = true
	db := c.Intn(3)
	b.cl = redis.NewClient(&redis.Options{Dialer: b.srv.Dial, PoolSize: 20, MaxRetries: -1, DB: db, ReadTimeout: 2 * time.Second})
	for _, d := range []int{0, 1, 2, 3} {
		b.srv.Do(d, "SET", "other", "x")
		b.srv.Do(d, "HSET", b.root+"2", "k", "v")
		b.srv.Do(d, "HSET", "conf", "k", "v")
	}
	b.srv.OnCommand = func(args []string) fakeredis.Fault {
		b.mu.Lock()
		k := b.kind
		b.mu.Unlock()
		n := strings.ToUpper(args[0])
		match := k == "all" || (k == "load" && n == "HGETALL") || ((k == "save" || k == "batch") && (n == "HMSET" || n == "HSET")) || (k == "delete" && n == "HDEL") || (k == "loadHalf" && n == "HGETALL")
		if !match || n == "SELECT" {
			return fakeredis.Fault{}
		}
		switch len(args) % 3 {
		case 0:
			return fakeredis.Fault{Kind: fakeredis.DropBefore}
		case 1:
			return fakeredis.Fault{Kind: fakeredis.ErrorReply, Text: "ERR injected"}
		}
		return fakeredis.Fault{Kind: fakeredis.Raw, Text: "?\r\n"}
	}
	return b
}
func (b *redisBack) persister() confstore.Persister { return confstore.NewRedisPersister(b.cl, b.root) }
func (b *redisBack) db() int                        { return b.cl.Options().DB }
func (b *redisBack) dump() map[string]string {
	m := map[string]string{}
	r, ok := b.srv.Do(b.db(), "HGETALL", b.root).([]string)
	if ttl := fmt.Sprint(b.srv.Do(b.db(), "TTL", b.root)); ttl != "-1" && ttl != "-2" {
		m["!ttl"] = "the root expires in " + ttl
	}
	if !ok {
		m["!"] = "root is not a hash"
	}
	for i := 0; i+1 < len(r); i += 2 {
		m[r[i]] = r[i+1]
	}
	return m
}
func (b *redisBack) seed(k, v string) { b.srv.Do(b.db(), "HSET", b.root, k, v) }
func (b *redisBack) fault(k string)   { b.mu.Lock(); b.kind = k; b.mu.Unlock() }
func (b *redisBack) others() string {
	out := ""
	for d := 0; d < 4; d++ {
		m := b.srv.Dump(d)
		if d == b.db() {
			delete(m, b.root)
		}
		out += fmt.Sprintln(d, m)
	}
	return out
}
func (b *redisBack) close() { b.cl.Close(); b.srv.Close() }

// lenProc accepts up to n bytes and nothing starting with '!'.
type lenProc struct{ n int }

func (p *lenProc) Validate(v string) (bool, string) {
	if len(v) > p.n || strings.HasPrefix(v, "!") {
		return false, "refused"
	}
	return true, ""
}
func (p *lenProc) Convert(v string) interface{} { return "c:" + v }

type ent struct {
	reg  bool
	n    int
	def  string
	val  string
	has  bool
	live bool // value came through the persister or was persisted
}

func (e *ent) ok(v string) bool { return e.reg && len(v) <= e.n && !strings.HasPrefix(v, "!") }

var keyPool = []string{"k1", "k2", "a.b", "键", "\x00\xff", "with space", "k:1", "*", "%s", "$5\r\nhello", strings.Repeat("L", 300)}

func TestHistory(t *testing.T) {
	vk.Rule("history: random operation sequences over an observing in-memory persister or the redis persister (in-memory redis with foreign data around), stored junk (unknown keys, refused values) seeded, faults per persister call switched on and off, the redis persister also called directly (its answer must tell whether the call took effect), restarts into a new store with the same or changed registrations; after every operation the persister's whole content and every in-memory read are compared with the model; non-trivial when something was accepted, something refused and a restart served persisted values")
	vk.Cases("history", vk.N(6000, 200000), history)
}

func history(c *vk.Case) {
	var b back
	if c.Intn(2) == 0 {
		b = newRedisBack(c)
	} else {
		b = &memBack{&mem{data: map[string]string{}, rnd: c.Rand}}
	}
	defer b.close()
	perm := c.Perm(len(keyPool))
	nk := 2 + c.Intn(4)
	keys := make([]string, nk)
	m := map[string]*ent{}
	for i := range keys {
		keys[i] = keyPool[perm[i]]
		m[keys[i]] = &ent{}
	}
	store := map[string]string{} // model of the persister
	var log []string
	failed := false
	bad := func(sig, f string, a ...interface{}) {
		failed = true
		c.Violate(sig, map[string]interface{}{"what": fmt.Sprintf(f, a...), "persister": fmt.Sprintf("%T", b), "trace": log[max(0, len(log)-30):]})
	}
	value := func() string {
		switch c.Intn(5) {
		case 0:
			x := make([]byte, c.Intn(12))
			c.Read(x)
			return string(x)
		case 1:
			return "!" + fmt.Sprint(c.Intn(100))
		case 2:
			return strings.Repeat("v", c.Intn(30))
		}
		return []string{"", "v", "1", "值", "a\r\nb", "*3\r\n", "{\"a\":1}", "v2", "v3"}[c.Intn(9)]
	}
	// loading: none (explicit), every read, or throttled far away
	loads := c.Intn(2) == 0
	mk := func() confstore.Interface {
		if loads {
			return confstore.NewStore(b.persister(), confstore.NewSimpleLoadPolicy())
		}
		return confstore.NewStore(b.persister(), confstore.NoopLoadPolicy)
	}
	for i := c.Intn(3); i > 0; i-- { // stored before the store exists
		k, v := "junk"+fmt.Sprint(i), value()
		if c.Intn(2) == 0 {
			k = keys[c.Intn(nk)]
		}
		b.seed(k, v)
		store[k] = v
	}
	s := mk()
	others := b.others()
	fault := ""
	loadModel := func() {
		if fault == "load" || fault == "all" {
			return
		}
		if fault == "loadHalf" {
			return // which half is loaded is not known, see reads below
		}
		for k, v := range store {
			if e := m[k]; e != nil && e.ok(v) {
				e.val, e.has = v, true
			}
		}
	}
	// mayBe: values a key may show after a half-failed load
	check := func() {
		if loads {
			loadModel()
		}
		for _, k := range keys {
			e := m[k]
			v, hit := s.GetValueString(k)
			if fault == "loadHalf" && loads {
				// either the model's value or the stored one
				if sv, in := store[k]; in && hit && v == sv && e.ok(sv) {
					e.val, e.has = sv, true
				}
			}
			want := e.def
			if e.has {
				want = e.val
			}
			if hit != e.reg || (hit && v != want) {
				bad("an in-memory read is wrong", "key %q got %q %v want %q %v (fault %q)", k, v, hit, want, e.reg, fault)
				return
			}
			x, hit2 := s.GetValue(k)
			if fault == "loadHalf" && loads {
				if sv, in := store[k]; in && hit2 && x == "c:"+sv && e.ok(sv) {
					e.val, e.has, want = sv, true, sv
				}
			}
			if hit2 != e.reg || (hit2 && x != "c:"+want) {
				bad("an in-memory typed read is wrong", "key %q got %v %v want %q %v", k, x, hit2, want, e.reg)
				return
			}
		}
		got := b.dump()
		for k, v := range store {
			if g, in := got[k]; !in || g != v {
				bad("an accepted value is not in the persister, or was changed there", "key %q stored %q %v want %q", k, g, in, v)
				return
			}
		}
		for k, g := range got {
			if _, in := store[k]; !in {
				bad("the persister holds a value that was never accepted or was removed", "key %q stored %q", k, g)
				return
			}
		}
		if o := b.others(); o != others {
			bad("data outside the persister's root was touched", "%s\nbefore\n%s", o, others)
		}
	}
	acc, rej, restarts, faults := 0, 0, 0, 0
	set := func(k, v string) bool {
		e := m[k]
		if e == nil || !e.ok(v) {
			if k != "" {
				rej++
			}
			return false
		}
		e.val, e.has = v, true
		acc++
		return true
	}
	n := 8 + c.Intn(30)
	for i := 0; i < n && !failed; i++ {
		k := keys[c.Intn(nk)]
		e := m[k]
		op := c.Intn(16)
		p, panicked := vk.Catch(func() {
			switch {
			case op <= 1:
				nlen, def := c.Intn(20), value()
				log = append(log, fmt.Sprintf("register %q %q max %d", k, def, nlen))
				err := s.RegisterKey(k, def, &lenProc{nlen})
				ok := !e.reg && len(def) <= nlen && !strings.HasPrefix(def, "!")
				if ok != (err == nil) {
					bad("a registration was accepted or refused wrongly", "%q %q %d: %v", k, def, nlen, err)
				}
				if ok {
					*e = ent{reg: true, n: nlen, def: def}
				}
			case op <= 4:
				v := value()
				if c.Intn(15) == 0 {
					k = ""
				}
				log = append(log, fmt.Sprintf("update %q %q", k, v))
				ok := set(k, v)
				err := s.Update(k, v)
				if k != "" && ok != (err == nil) {
					bad("an update was accepted or refused wrongly", "%q %q: %v", k, v, err)
				}
				if ok && fault != "save" && fault != "all" {
					store[k] = v
				} else if ok && fault == "batch" { // redis: the same command
					store[k] = v
				}
				if _, r := b.(*redisBack); r && ok && fault == "batch" {
					delete(store, k)
					if g, in := b.dump()[k]; in {
						store[k] = g
					}
				}
			case op == 5:
				v := value()
				log = append(log, fmt.Sprintf("updateNoPersist %q %q", k, v))
				ok := set(k, v)
				if err := s.UpdateNoPersist(k, v); ok != (err == nil) {
					bad("an update was accepted or refused wrongly", "%q %q: %v", k, v, err)
				}
			case op <= 8:
				var in []*confstore.KVStr
				okn, refused := 0, 0
				for j := 1 + c.Intn(6); j > 0; j-- {
					kk, v := keys[c.Intn(nk)], value()
					switch c.Intn(10) {
					case 0:
						kk = ""
					case 1:
						kk = "unknown"
					}
					in = append(in, &confstore.KVStr{Key: kk, Value: v})
					if e := m[kk]; kk != "" && (e == nil || !e.ok(v)) {
						refused++
					}
					if set(kk, v) {
						okn++
						switch {
						case fault == "batch" || fault == "all":
						case fault == "save":
							if _, r := b.(*redisBack); !r {
								store[kk] = v
							}
						default:
							store[kk] = v
						}
					}
				}
				log = append(log, fmt.Sprintf("batch %q", in))
				if errs := s.BatchUpdate(in); len(errs) != refused {
					bad("an update was accepted or refused wrongly", "%d of a batch refused, want %d (fault %q)", len(errs), refused, fault)
				}
			case op == 9:
				log = append(log, fmt.Sprintf("reset %q", k))
				s.ResetKey(k)
				e.has = false
				if fault != "delete" && fault != "all" {
					delete(store, k)
				}
			case op == 10:
				log = append(log, fmt.Sprintf("deregister %q", k))
				s.DeregisterKey(k)
				*e = ent{}
				if fault != "delete" && fault != "all" {
					delete(store, k)
				}
			case op == 11:
				kinds := []string{"", "", "save", "batch", "delete", "load", "loadHalf", "all"}
				fault = kinds[c.Intn(len(kinds))]
				if _, r := b.(*redisBack); r && (fault == "loadHalf" || fault == "batch") {
					fault = "save"
				}
				log = append(log, "fault "+fault)
				b.fault(fault)
				if fault != "" {
					faults++
				}
			case op == 12:
				k2, v := "junk"+fmt.Sprint(c.Intn(3)), value()
				if c.Intn(2) == 0 {
					k2 = k
				}
				log = append(log, fmt.Sprintf("someone stores %q %q", k2, v))
				b.seed(k2, v)
				store[k2] = v
			case op >= 14: // the persister is used directly
				_, r := b.(*redisBack)
				if !r {
					return
				}
				pe := b.persister()
				answer := func(what, broken string, err error) bool {
					down := fault == broken || fault == "all"
					if down != (err != nil) {
						bad("the redis persister reports the opposite of what happened", "%s with fault %q: %v", what, fault, err)
					}
					vk.Count("direct persister calls", 1)
					return !down
				}
				if c.Intn(3) == 0 {
					k = "direct" + fmt.Sprint(c.Intn(2))
				}
				v := value()
				switch c.Intn(4) {
				case 0:
					log = append(log, fmt.Sprintf("persister save %q %q", k, v))
					if answer("save", "save", pe.Save(k, v)) {
						store[k] = v
					}
				case 1:
					in, last := []*confstore.KVStr{}, map[string]string{}
					for j := 1 + c.Intn(5); j > 0; j-- {
						v = value()
						in = append(in, &confstore.KVStr{Key: k, Value: v})
						last[k] = v
						k = keys[c.Intn(nk)]
					}
					log = append(log, fmt.Sprintf("persister batch save %q", in))
					if answer("batch save", "save", pe.BatchSave(in)) {
						for k, v := range last {
							store[k] = v
						}
					}
				case 2:
					log = append(log, fmt.Sprintf("persister delete %q", k))
					if answer("delete", "delete", pe.Delete(k)) {
						delete(store, k)
					}
				case 3:
					log = append(log, "persister load")
					if answer("load", "load", pe.Load(s)) {
						loadModel()
					}
				}
			case op == 13:
				restarts++
				b.fault("")
				fault = ""
				drift := map[string]bool{}
				old := map[string]string{}
				for _, k := range keys {
					e := m[k]
					if !e.reg {
						continue
					}
					old[k], _ = s.GetValueString(k)
					sv, in := store[k]
					// a value that was only ever set in memory, or whose save failed, does not survive
					if (e.has && (!in || sv != e.val)) || (!e.has && in && e.ok(sv)) {
						drift[k] = true
					}
				}
				log = append(log, "restart")
				s = mk()
				for _, k := range keys {
					e := m[k]
					if !e.reg {
						continue
					}
					if c.Intn(6) == 0 { // registered differently now
						e.n = c.Intn(20)
						if len(e.def) > e.n {
							e.def = ""
						}
						drift[k] = true
					}
					e.has = false
					if err := s.RegisterKey(k, e.def, &lenProc{e.n}); err != nil {
						bad("a registration was accepted or refused wrongly", "%q %q: %v", k, e.def, err)
					}
				}
				if !loads {
					if err := b.persister().Load(s); err != nil {
						bad("loading failed although the persister works", "%v", err)
					}
				}
				loadModel()
				for k, v := range old {
					if g, _ := s.GetValueString(k); !drift[k] && g != v {
						bad("after a restart a key is not served as before", "key %q got %q want %q", k, g, v)
					}
				}
			}
		})
		if panicked {
			bad("panic", "%v", p)
			return
		}
		if !failed {
			if p, panicked := vk.Catch(check); panicked {
				bad("panic", "%v", p)
			}
		}
	}
	key := ""
	if acc > 0 && rej > 0 && restarts > 0 {
		key = fmt.Sprint(log)
	}
	vk.Count("accepted", acc)
	vk.Count("refused", rej)
	vk.Count("restarts", restarts)
	vk.Count("faults switched on", faults)
	c.Sample(log[:min(len(log), 12)])
	c.Observed(key)
}

func TestParallel(t *testing.T) {
	vk.Rule("parallel: goroutines update, batch update, reset and deregister/re-register a few keys over a persister with scheduling points; once all returned, the persister must hold exactly the in-memory values (a key at its default: nothing); non-trivial when the same key was written by several goroutines")
	vk.Cases("parallel", vk.N(2500, 80000), func(c *vk.Case) {
		p := &mem{data: map[string]string{}, slow: true}
		s := confstore.NewStore(p, confstore.NoopLoadPolicy)
		keys := []string{"a", "b", "c"}[:1+c.Intn(3)]
		for _, k := range keys {
			if err := s.RegisterKey(k, "default", confstore.String); err != nil {
				panic(err)
			}
		}
		ng, nops := 2+c.Intn(4), 5
		if c.Intn(2) == 0 {
			// few operations and long calls, so that what one leaves is not
			// covered by the next
			ng, nops = 2+c.Intn(2), 1+c.Intn(2)
			keys = keys[:1]
			for i := 0; i < 5; i++ {
				p.pause = append(p.pause, time.Duration(max(0, c.Intn(400)-200))*time.Microsecond)
			}
		}
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for g := 0; g < ng; g++ {
			seed := c.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				<-gate
				for j := 0; j < nops; j++ {
					k := keys[r.Intn(len(keys))]
					v := fmt.Sprintf("%d.%d", g, j)
					switch op := r.Intn(8); {
					case nops < 5 && j == 0 && g == 0: // others meet a removal
						if r.Intn(3) == 0 {
							s.DeregisterKey(k)
							s.RegisterKey(k, "default", confstore.String)
						} else {
							s.ResetKey(k)
						}
					case op < 4:
						s.Update(k, v)
					case op < 6:
						s.BatchUpdate([]*confstore.KVStr{{Key: k, Value: v}, {Key: keys[r.Intn(len(keys))], Value: v + "b"}, {Key: "unknown", Value: v}})
					case op == 6:
						s.ResetKey(k)
					default:
						s.DeregisterKey(k)
						s.RegisterKey(k, "default", confstore.String)
					}
				}
			}()
		}
		close(gate)
		wg.Wait()
		for _, k := range keys {
			v, hit := s.GetValueString(k)
			sv, in := p.data[k]
			want := hit && v != "default"
			if in != want || (in && sv != v) {
				c.Violate("after concurrent operations the persister does not hold the accepted value", map[string]interface{}{"key": k, "memory": fmt.Sprint(v, hit), "persister": fmt.Sprint(sv, in)})
				return
			}
		}
		if _, in := p.data["unknown"]; in {
			c.Violate("a refused entry was persisted", "unknown")
		}
		c.Observed(fmt.Sprint(c.Index, ng, p.data))
	})
}

// Many keys, large batches, large values: size must not matter.
func TestMany(t *testing.T) {
	vk.Rule("many: hundreds to thousands of keys with values up to a mebibyte are written by large batch updates with duplicates and refused entries in between; afterwards the persister and every read must hold exactly the last accepted value per key, and so must a new store after a restart; non-trivial when a batch had more than 500 entries")
	vk.Cases("many", vk.N(40, 600), func(c *vk.Case) {
		var b back
		if c.Intn(4) > 0 {
			b = newRedisBack(c)
		} else {
			b = &memBack{&mem{data: map[string]string{}, rnd: c.Rand}}
		}
		defer b.close()
		n := []int{200, 600, 1100, 2500, 5000}[c.Intn(5)] + c.Intn(100)
		names := make([]string, n)
		loads := c.Intn(2) == 0
		mk := func() confstore.Interface {
			var lp confstore.LoadPolicy = confstore.NoopLoadPolicy
			if loads { // a reload at every read of thousands would take minutes
				lp = confstore.NewLoadPolicy(time.Hour)
			}
			s := confstore.NewStore(b.persister(), lp)
			for _, k := range names {
				if err := s.RegisterKey(k, "default", &lenProc{1 << 20}); err != nil {
					c.Violate("a registration was accepted or refused wrongly", fmt.Sprint(k, err))
				}
			}
			return s
		}
		for i := range names {
			names[i] = fmt.Sprintf("key.%d", i)
		}
		s := mk()
		want := map[string]string{}
		most := 0
		for r := 1 + c.Intn(3); r > 0; r-- {
			in := []*confstore.KVStr{}
			for j := n/2 + c.Intn(n); j > 0; j-- {
				k, v := names[c.Intn(n)], fmt.Sprintf("%d.%d", r, j)
				switch c.Intn(40) {
				case 0:
					k = "unknown"
				case 1:
					v = "!"
				case 2:
					v = strings.Repeat(v, 1+c.Intn(3000))
				case 3:
					v = ""
				}
				in = append(in, &confstore.KVStr{Key: k, Value: v})
			}
			if c.Intn(3) == 0 {
				in[c.Intn(len(in))].Value = strings.Repeat("M", 1<<20)
			}
			refused := 0
			for _, x := range in {
				if x.Key == "unknown" || strings.HasPrefix(x.Value, "!") {
					refused++
				} else {
					want[x.Key] = x.Value
				}
			}
			most = max(most, len(in))
			if errs := s.BatchUpdate(in); len(errs) != refused {
				c.Violate("an update was accepted or refused wrongly", fmt.Sprintf("%d of %d entries refused, want %d", len(errs), len(in), refused))
			}
			for j := c.Intn(20); j > 0; j-- {
				k := names[c.Intn(n)]
				s.ResetKey(k)
				delete(want, k)
			}
		}
		check := func(when string) {
			for _, k := range names {
				w, in := want[k]
				if !in {
					w = "default"
				}
				if g, hit := s.GetValueString(k); !hit || g != w {
					c.Violate("many keys: a read is wrong "+when, fmt.Sprintf("%s: %d bytes %.40q %v, want %d bytes %.40q, %d keys, largest batch %d", k, len(g), g, hit, len(w), w, n, most))
					return
				}
			}
			if g := b.dump(); !reflect.DeepEqual(g, want) {
				miss := ""
				for k, v := range want {
					if g[k] != v {
						miss = fmt.Sprintf("%s: %d bytes %.40q, want %d bytes %.40q", k, len(g[k]), g[k], len(v), v)
						break
					}
				}
				c.Violate("many keys: the persister does not hold exactly what was accepted "+when, fmt.Sprintf("%d entries, want %d; %s; largest batch %d", len(g), len(want), miss, most))
			}
		}
		if p, panicked := vk.Catch(func() {
			check("before the restart")
			s = mk()
			if !loads {
				if err := b.persister().Load(s); err != nil {
					c.Violate("loading failed although the persister works", err.Error())
				}
			}
			check("after the restart")
		}); panicked {
			c.Violate("panic", fmt.Sprint(p))
		}
		key := ""
		if most > 500 {
			key = fmt.Sprint(n, most, c.Index)
		}
		c.Observed(key)
	})
}
