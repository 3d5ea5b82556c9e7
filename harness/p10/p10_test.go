// Monitor of P10: the config store against a map model, read through every
// read method after every operation.
package p10

import (
	"errors"
	"fmt"
	"math"
	"net/url"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/chanjarster/gears/confstore"
	"verif/harness/vk"
)

func TestMain(m *testing.M) { vk.Main(m, "P10") }

// conv is what the recording processors convert to.
type conv struct {
	Proc int
	S    string
}

// tagProc accepts strings by a rule of its own and converts to conv.
type tagProc struct{ id int }

func (p *tagProc) Validate(v string) (bool, string) {
	switch p.id % 4 {
	case 1:
		if len(v)%2 == 1 {
			return false, "odd length"
		}
	case 2:
		if strings.HasPrefix(v, "-") {
			return false, "leading dash"
		}
	case 3:
		if v == "" {
			return false, "empty"
		}
	}
	return true, ""
}
func (p *tagProc) Convert(v string) interface{} {
	switch p.id % 13 {
	case 0: // nothing at all is a value, too
		return nil
	case 1:
		return (*conv)(nil)
	case 2:
		return &conv{p.id, v}
	}
	return conv{p.id, v}
}

// broken is a persister that fails in every way.
type broken struct{}

func (broken) Load(confstore.Interface) error     { return errors.New("load fails") }
func (broken) Save(string, string) error          { return errors.New("save fails") }
func (broken) BatchSave([]*confstore.KVStr) error { return errors.New("batch save fails") }
func (broken) Delete(string) error                { return errors.New("delete fails") }

type builtin struct {
	name string
	vp   confstore.ValueProcessor
	ref  func(string) (interface{}, bool) // independent conversion
}

func atoi(lo, hi int64) func(string) (interface{}, bool) {
	return func(s string) (interface{}, bool) {
		var n int64
		t := s
		neg := false
		if t != "" && (t[0] == '+' || t[0] == '-') {
			neg = t[0] == '-'
			t = t[1:]
		}
		if t == "" || len(t) > 18 {
			return nil, false
		}
		for i := 0; i < len(t); i++ {
			if t[i] < '0' || t[i] > '9' {
				return nil, false
			}
			n = n*10 + int64(t[i]-'0')
		}
		if neg {
			n = -n
		}
		return int(n), n >= lo && n <= hi
	}
}

var builtins = []builtin{
	{"String", confstore.String, func(s string) (interface{}, bool) { return s, true }},
	{"Bool", confstore.Bool, func(s string) (interface{}, bool) { return s == "true", s == "true" || s == "false" }},
	{"Int", confstore.Int, atoi(math.MinInt32, math.MaxInt32)},
	{"IntGtZero", confstore.IntGtZero, atoi(1, math.MaxInt32)},
	{"IntGtEqZero", confstore.IntGtEqZero, atoi(0, math.MaxInt32)},
	{"Duration", confstore.Duration, func(s string) (interface{}, bool) { d, err := time.ParseDuration(s); return d, err == nil }},
	{"Url", confstore.Url, func(s string) (interface{}, bool) {
		if s == "" {
			return (*url.URL)(nil), true
		}
		u, err := url.ParseRequestURI(s)
		return u, err == nil
	}},
	{"UrlString", confstore.UrlString, func(s string) (interface{}, bool) {
		if s == "" {
			return s, true
		}
		_, err := url.ParseRequestURI(s)
		return s, err == nil
	}},
	{"Enum", confstore.EnumProcessor([]string{"a", "", "B"}), func(s string) (interface{}, bool) { return s, s == "a" || s == "" || s == "B" }},
	{"String3..5", confstore.StringProcessor(3, 5), func(s string) (interface{}, bool) { return s, len(s) >= 3 && len(s) <= 5 }},
}

type entry struct {
	reg        bool
	ref        func(string) (interface{}, bool)
	name       string
	def        string
	val        string
	has        bool
	defV, valV interface{}
}

var values = []string{"", "true", "false", "0", "1", "-1", "+7", "42", "2147483647", "2147483648", "x", "a", "B", "abc", "abcdef", "10s", "1h2m", "-5ms", "http://h/p?q=1", "/p", "http://", "::", "键值", "a\x00b", " 1", "1 ", "TRUE", "0x10", "\xff\xfe"}
var keysPool = []string{"k", "K", "k.a", "k.b", "键", "with space", "\x00", "k:", "very.long." + strings.Repeat("x", 80), "%s", "0"}

func TestHistory(t *testing.T) {
	vk.Rule("history: random sequences of RegisterKey (fresh, duplicate, empty key, nil and typed-nil processor, invalid default), Update, UpdateNoPersist, BatchUpdate (duplicate, unknown, empty and rejected entries mixed), ResetKey and DeregisterKey over a few keys with built-in and recording processors; after every operation every key is read through all six read methods and compared with a map model; non-trivial when updates were both accepted and rejected and some key was reset or re-registered")
	vk.Cases("history", vk.N(12000, 400000), history)
}

func history(c *vk.Case) {
	var s confstore.Interface
	switch c.Intn(6) {
	case 4:
		s = confstore.NewStore(broken{}, confstore.NoopLoadPolicy)
	case 5:
		s = confstore.NewStore(broken{}, confstore.NewLoadPolicy(time.Duration(c.Intn(2))*time.Hour))
	case 0:
		s = confstore.NewStore(confstore.NoopPersister, confstore.NoopLoadPolicy)
	case 1:
		s = confstore.NewStore(confstore.NoopPersister, confstore.SimpleLoadPolicy)
	case 2:
		s = confstore.NewStore(confstore.NoopPersister, confstore.NewSimpleLoadPolicy())
	default:
		s = confstore.NewStore(confstore.NoopPersister, confstore.NewLoadPolicy(time.Duration(c.Intn(3))*time.Millisecond))
	}
	perm := c.Perm(len(keysPool))
	nk := 2 + c.Intn(4)
	keys := make([]string, nk)
	m := map[string]*entry{}
	for i := range keys {
		keys[i] = keysPool[perm[i]]
		m[keys[i]] = &entry{}
	}
	var log []string
	failed := false
	bad := func(sig, f string, a ...interface{}) {
		failed = true
		c.Violate(sig, map[string]interface{}{"what": fmt.Sprintf(f, a...), "trace": log[max(0, len(log)-30):]})
	}
	value := func() string {
		if c.Intn(500) == 0 {
			return strings.Repeat("long ", 20000)
		}
		if c.Intn(6) == 0 {
			b := make([]byte, c.Intn(8))
			c.Read(b)
			return string(b)
		}
		return values[c.Intn(len(values))]
	}
	proc := func() (confstore.ValueProcessor, string, func(string) (interface{}, bool)) {
		if c.Intn(2) == 0 {
			b := builtins[c.Intn(len(builtins))]
			return b.vp, b.name, b.ref
		}
		p := &tagProc{c.Intn(1000)}
		return p, fmt.Sprintf("tag%d", p.id), func(v string) (interface{}, bool) {
			ok, _ := p.Validate(v)
			return p.Convert(v), ok
		}
	}
	// want is what a read must give
	want := func(k string) (string, interface{}, bool) {
		e := m[k]
		if e == nil || !e.reg {
			return "", nil, false
		}
		if e.has {
			return e.val, e.valV, true
		}
		return e.def, e.defV, true
	}
	accept := func(k, v string) bool {
		e := m[k]
		if e == nil || !e.reg {
			return false
		}
		x, ok := e.ref(v)
		if ok {
			e.val, e.valV, e.has = v, x, true
		}
		return ok
	}
	update := func(e *confstore.KVError, k, v string, ok bool, what string) {
		switch {
		case k == "" && e != nil:
			bad("an empty key is not ignored", "%s(%q,%q): %v", what, k, v, e)
		case k == "":
		case ok && e != nil:
			bad("an acceptable value was refused", "%s(%q,%q): %v", what, k, v, e)
		case !ok && e == nil:
			bad("an unacceptable value or unregistered key was not refused", "%s(%q,%q)", what, k, v)
		case !ok && (e.Key != k || e.Value != v || e.Error == ""):
			bad("a refusal does not name key, value and reason", "%s(%q,%q): %+v", what, k, v, *e)
		}
	}
	same := func(a, b interface{}) bool {
		if ua, ok := a.(*url.URL); ok {
			ub, ok := b.(*url.URL)
			return ok && (ua == nil) == (ub == nil) && (ua == nil || *ua == *ub)
		}
		return reflect.TypeOf(a) == reflect.TypeOf(b) && reflect.DeepEqual(a, b)
	}
	check := func() {
		req := append([]string{}, keys...)
		c.Shuffle(len(req), func(i, j int) { req[i], req[j] = req[j], req[i] })
		if c.Intn(2) == 0 {
			req = append(req, req[0], "", "not registered")
		}
		for c.Intn(2) == 0 { // the same key again, next to itself or elsewhere
			i, k := c.Intn(len(req)), req[c.Intn(len(req))]
			if c.Intn(2) == 0 {
				k = req[i]
			}
			req = append(req[:i], append([]string{k}, req[i:]...)...)
		}
		var wk []string
		for _, k := range req {
			ws, wv, hit := want(k)
			if s1, h := s.GetValueString(k); h != hit || s1 != ws {
				bad("GetValueString is not the latest accepted value, else the default", "key %q got %q %v want %q %v", k, s1, h, ws, hit)
				return
			}
			if v1, h := s.GetValue(k); h != hit || !same(v1, wv) {
				bad("GetValue is not the conversion of the latest accepted value, else of the default", "key %q got %#v %v want %#v %v", k, v1, h, wv, hit)
				return
			}
			var v2 interface{}
			var s2 string
			_, pan := vk.Catch(func() { v2 = s.MustGetValue(k) })
			_, pan2 := vk.Catch(func() { s2 = s.MustGetValueString(k) })
			if pan == hit || pan2 == hit {
				bad("the Must reads do not panic exactly when the key is missing", "key %q panics %v %v hit %v", k, pan, pan2, hit)
				return
			}
			if hit && (s2 != ws || !same(v2, wv)) {
				bad("the Must reads disagree with the latest accepted value", "key %q got %q %#v want %q %#v", k, s2, v2, ws, wv)
				return
			}
			if hit {
				wk = append(wk, k)
			}
		}
		bv, bs := s.BatchGetValues(req), s.BatchGetValueString(req)
		if len(bv) != len(wk) || len(bs) != len(wk) {
			bad("batch reads do not skip exactly the missing keys", "%q: %v %v want %q", req, bv, bs, wk)
			return
		}
		for i, k := range wk {
			ws, wv, _ := want(k)
			if bv[i].Key != k || bs[i].Key != k {
				bad("batch reads do not keep the request order", "%q at %d: %q %q", req, i, bv[i].Key, bs[i].Key)
				return
			}
			if bs[i].Value != ws || !same(bv[i].Value, wv) {
				bad("batch reads disagree with the latest accepted value", "key %q got %q %#v want %q %#v", k, bs[i].Value, bv[i].Value, ws, wv)
				return
			}
			*bv[i], *bs[i] = confstore.KV{Key: "changed"}, confstore.KVStr{Key: "changed"} // the caller's own
		}
	}
	acc, rej, resets, regs := 0, 0, 0, 0
	n := 8 + c.Intn(40)
	for i := 0; i < n && !failed; i++ {
		k := keys[c.Intn(nk)]
		op := c.Intn(12)
		p, panicked := vk.Catch(func() {
			switch {
			case op <= 2:
				vp, name, ref := proc()
				def := value()
				for j := 0; j < 6; j++ { // mostly valid defaults
					if _, ok := ref(def); ok {
						break
					}
					def = value()
				}
				switch c.Intn(10) {
				case 0:
					vp, name = nil, "nil"
				case 1:
					vp, name = (*tagProc)(nil), "typed nil"
				case 2:
					k = ""
				}
				log = append(log, fmt.Sprintf("register %q %q %s", k, def, name))
				err := s.RegisterKey(k, def, vp)
				e := m[k]
				nilp := name == "nil" || name == "typed nil"
				var ok bool
				var x interface{}
				if !nilp {
					x, ok = ref(def)
				}
				ok = ok && k != "" && !e.reg
				if ok != (err == nil) {
					bad("a registration was accepted or refused wrongly", "%q default %q processor %s: %v", k, def, name, err)
					return
				}
				if k != "" && !nilp && e.reg && !strings.Contains(err.Error(), k) {
					bad("the refusal of a duplicate registration does not name the key", "%q: %v", k, err)
				}
				if ok {
					*e = entry{reg: true, ref: ref, name: name, def: def, defV: x}
					regs++
				}
			case op <= 5:
				v := value()
				if c.Intn(20) == 0 {
					k = ""
				}
				ok := accept(k, v)
				if op == 3 {
					log = append(log, fmt.Sprintf("updateNoPersist %q %q", k, v))
					update(s.UpdateNoPersist(k, v), k, v, ok, "UpdateNoPersist")
				} else {
					log = append(log, fmt.Sprintf("update %q %q", k, v))
					update(s.Update(k, v), k, v, ok, "Update")
				}
				if ok {
					acc++
				} else {
					rej++
				}
			case op <= 8:
				var in []*confstore.KVStr
				var we []*confstore.KVError
				size := c.Intn(6)
				if c.Intn(12) == 0 {
					size = 6 + c.Intn(100)
				}
				for j := size; j > 0; j-- {
					kk, v := keys[c.Intn(nk)], value()
					switch c.Intn(12) {
					case 0:
						kk = ""
					case 1:
						kk = "unknown"
					}
					in = append(in, &confstore.KVStr{Key: kk, Value: v})
					if accept(kk, v) {
						acc++
					} else if kk != "" {
						rej++
						we = append(we, &confstore.KVError{Key: kk, Value: v})
					}
				}
				if len(in) < 20 {
					log = append(log, fmt.Sprintf("batch %q", in))
				} else {
					log = append(log, fmt.Sprintf("batch of %d", len(in)))
				}
				before := make([]confstore.KVStr, len(in))
				for j := range in {
					before[j] = *in[j]
				}
				errs := s.BatchUpdate(in)
				for j := range in {
					if *in[j] != before[j] {
						bad("a batch update changes what it was given", "%v want %v", *in[j], before[j])
						return
					}
				}
				for j := range in { // it is the caller's again
					*in[j] = confstore.KVStr{Key: "changed later", Value: "changed later"}
				}
				if len(errs) != len(we) {
					bad("a batch update does not report exactly the refused entries", "%v: %v want %v", in, errs, we)
					return
				}
				for j := range we {
					if errs[j].Key != we[j].Key || errs[j].Value != we[j].Value || errs[j].Error == "" {
						bad("a batch update does not report exactly the refused entries", "%v: %v want %v", in, errs, we)
						return
					}
				}
			case op == 9:
				log = append(log, fmt.Sprintf("reset %q", k))
				s.ResetKey(k)
				m[k].has = false
				resets++
			case op == 10:
				log = append(log, fmt.Sprintf("deregister %q", k))
				s.DeregisterKey(k)
				*m[k] = entry{}
				resets++
			case op == 11:
				log = append(log, "deregister and reset the empty key and an unknown one")
				s.DeregisterKey("")
				s.ResetKey("")
				s.DeregisterKey("unknown")
				s.ResetKey("unknown")
			}
		})
		if panicked {
			bad("panic", "%v", p)
			return
		}
		if !failed {
			if p, panicked := vk.Catch(check); panicked {
				bad("panic", "%v", p)
			}
		}
	}
	key := ""
	if acc > 0 && rej > 0 && resets > 0 && regs > 1 {
		key = fmt.Sprint(log)
	}
	vk.Count("accepted updates", acc)
	vk.Count("refused updates", rej)
	vk.Count("registrations", regs)
	c.Sample(log[:min(len(log), 12)])
	c.Observed(key)
}

// Any number of keys: how many there are must not matter.
func TestMany(t *testing.T) {
	vk.Rule("many: hundreds of keys registered, most of them updated one by one or in one batch, some reset or deregistered; all of them are read in one batch (with repeats and unknown keys) and singly and compared with a map; non-trivial when more than 200 keys were updated")
	vk.Cases("many", vk.N(60, 2000), func(c *vk.Case) {
		s := confstore.NewStore(confstore.NoopPersister, confstore.NoopLoadPolicy)
		n := 100 + c.Intn(900)
		m := map[string]string{}
		key := func(i int) string { return fmt.Sprint("many.", i) }
		for i := 0; i < n; i++ {
			m[key(i)] = fmt.Sprint("default", i)
			if err := s.RegisterKey(key(i), m[key(i)], confstore.String); err != nil {
				c.Violate("a fresh key could not be registered", fmt.Sprint(i, " of ", n, ": ", err))
				return
			}
		}
		updated := 0
		for r := 1 + c.Intn(4); r > 0; r-- {
			var batch []*confstore.KVStr
			refused := 0
			for i := 0; i < n; i++ {
				if c.Intn(4) == 0 {
					continue
				}
				v := fmt.Sprint("v", c.Intn(1000))
				k := key(i)
				if c.Intn(50) == 0 {
					k = "unknown." + k
				}
				if _, known := m[k]; known {
					m[k] = v
				} else {
					refused++
				}
				batch = append(batch, &confstore.KVStr{Key: k, Value: v})
			}
			if c.Intn(2) == 0 {
				if errs := s.BatchUpdate(batch); len(errs) != refused {
					c.Violate("a large batch update does not report exactly the refused entries", fmt.Sprintf("%d entries, %d refused, %d reported", len(batch), refused, len(errs)))
				}
			} else {
				for _, kv := range batch {
					_, known := m[kv.Key]
					if err := s.Update(kv.Key, kv.Value); (err == nil) != known {
						c.Violate("an update among many keys was accepted or refused wrongly", fmt.Sprint(kv.Key, err))
					}
				}
			}
			updated += len(batch) - refused
			for j := c.Intn(100); j > 0; j-- {
				i := c.Intn(n)
				if _, known := m[key(i)]; !known {
					continue
				}
				if c.Intn(2) == 0 {
					s.ResetKey(key(i))
					m[key(i)] = fmt.Sprint("default", i)
				} else {
					s.DeregisterKey(key(i))
					delete(m, key(i))
				}
			}
			var req []string
			for i := 0; i < n+20; i++ {
				req = append(req, key(i))
			}
			for j := c.Intn(300); j > 0; j-- {
				req = append(req, key(c.Intn(n)))
			}
			c.Shuffle(len(req), func(i, j int) { req[i], req[j] = req[j], req[i] })
			bs, bv := s.BatchGetValueString(req), s.BatchGetValues(req)
			var want []string
			for _, k := range req {
				v, known := m[k]
				if known {
					want = append(want, k)
				}
				if got, hit := s.GetValueString(k); hit != known || got != v {
					c.Violate("among many keys one does not read as its latest value", fmt.Sprintf("%s: %q %v, want %q %v", k, got, hit, v, known))
					return
				}
			}
			if len(bs) != len(want) || len(bv) != len(want) {
				c.Violate("a large batch read does not skip exactly the missing keys", fmt.Sprintf("%d asked, %d known, %d and %d read", len(req), len(want), len(bs), len(bv)))
				return
			}
			for i, k := range want {
				if bs[i].Key != k || bs[i].Value != m[k] || bv[i].Key != k || bv[i].Value != m[k] {
					c.Violate("a large batch read gives a wrong entry", fmt.Sprintf("at %d of %d: %v %v, want %s %s", i, len(want), *bs[i], *bv[i], k, m[k]))
					return
				}
			}
		}
		vk.Count("updates of many keys", updated)
		k := ""
		if updated > 200 {
			k = fmt.Sprint(n, updated, c.Index)
		}
		c.Observed(k)
	})
}
