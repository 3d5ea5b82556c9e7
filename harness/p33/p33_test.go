// Monitor of P33: JSON maps and clock functions.
package p33

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
	"unicode/utf8"

	"github.com/chanjarster/gears/dto"
	timeutil "github.com/chanjarster/gears/util/time"
	"verif/harness/vk"
)

func TestMain(m *testing.M) { vk.Main(m, "P33") }

// ---- texts made together with what they mean ----

type gen struct {
	c   *vk.Case
	dup int
}

func (g *gen) ws(b *bytes.Buffer) {
	for g.c.Intn(4) == 0 {
		b.WriteByte(" \t\r\n"[g.c.Intn(4)])
	}
}

var pieces = []string{"a", "key", "", " ", "0", "é", "漢字", "😀", "\"", "\\", "/", "\b", "\f", "\n", "\r", "\t", "\x00", "\x1f", "\x7f", "\u2028", "\u2029", "<", ">", "&", "\uFFFD", "\uFEFF", "null", "true", "{", "}", "\U0010FFFF", "'"}

func (g *gen) str() string {
	s := ""
	for n := g.c.Intn(5); n > 0; n-- {
		s += pieces[g.c.Intn(len(pieces))]
	}
	if g.c.Intn(200) == 0 {
		s = strings.Repeat(s+"x", 1+g.c.Intn(20000))
	}
	return s
}

// text renders s as a JSON string in one of the ways there are.
func (g *gen) text(b *bytes.Buffer, s string) {
	b.WriteByte('"')
	for _, r := range s {
		short := map[rune]string{'"': `\"`, '\\': `\\`, '/': `\/`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`}[r]
		must := r < 0x20 || r == '"' || r == '\\'
		switch k := g.c.Intn(4); {
		case short != "" && (must && k < 2 || k == 0):
			b.WriteString(short)
		case must || k == 1:
			if r >= 0x10000 {
				r -= 0x10000
				fmt.Fprintf(b, `\u%04x\u%04X`, 0xD800+(r>>10), 0xDC00+(r&0x3FF))
			} else {
				fmt.Fprintf(b, []string{`\u%04x`, `\u%04X`}[g.c.Intn(2)], r)
			}
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
}

var numbers = []string{"0", "-0", "1", "-1", "10", "1.5", "-2.25", "1e3", "1E+3", "1e-3", "0.1", "123456789012345678", "9007199254740993", "1e308", "-1.7976931348623157e308", "5e-324", "1e-400", "18446744073709551615", "3.0", "0e0", "100000000000000000000000"}

func (g *gen) number() (string, float64) {
	t := numbers[g.c.Intn(len(numbers))]
	if g.c.Intn(2) == 0 {
		t = strconv.FormatInt(g.c.Int63n(1<<62)>>uint(g.c.Intn(62)), 10)
		if g.c.Intn(2) == 0 && t != "0" {
			t = "-" + t
		}
		if g.c.Intn(3) == 0 {
			t += "." + strconv.Itoa(g.c.Intn(100000))
		}
		if g.c.Intn(4) == 0 {
			t += "e" + strconv.Itoa(g.c.Intn(40)-20)
		}
	}
	f, err := strconv.ParseFloat(t, 64)
	if err != nil {
		return "7", 7
	}
	return t, f
}

func (g *gen) value(b *bytes.Buffer, depth int) interface{} {
	k := g.c.Intn(8)
	if depth <= 0 && k >= 6 {
		k = g.c.Intn(6)
	}
	switch k {
	case 0:
		b.WriteString("null")
		return nil
	case 1:
		b.WriteString("true")
		return true
	case 2:
		b.WriteString("false")
		return false
	case 3:
		t, f := g.number()
		b.WriteString(t)
		return f
	case 4, 5:
		s := g.str()
		g.text(b, s)
		return s
	case 6:
		b.WriteByte('[')
		g.ws(b)
		l := []interface{}{}
		for i, n := 0, g.c.Intn(4); i < n; i++ {
			if i > 0 {
				b.WriteByte(',')
				g.ws(b)
			}
			l = append(l, g.value(b, depth-1))
			g.ws(b)
		}
		b.WriteByte(']')
		return l
	default:
		return g.object(b, depth-1, g.c.Intn(4))
	}
}

func (g *gen) object(b *bytes.Buffer, depth, n int) map[string]interface{} {
	b.WriteByte('{')
	g.ws(b)
	o := map[string]interface{}{}
	last := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteByte(',')
			g.ws(b)
		}
		k := g.str()
		if i > 0 && g.c.Intn(8) == 0 {
			k = last
		}
		last = k
		if old, hit := o[k]; hit {
			// the later one counts; it is kept flat, because what becomes of
			// two objects under one name is nobody's business
			g.dup++
			_ = old
		}
		g.text(b, k)
		g.ws(b)
		b.WriteByte(':')
		g.ws(b)
		o[k] = g.value(b, depth)
		g.ws(b)
	}
	b.WriteByte('}')
	return o
}

func clip(b []byte) string {
	if len(b) > 500 {
		return string(b[:500]) + "..."
	}
	return string(b)
}

func read(b []byte) (m dto.M, err error, p interface{}, panicked bool) {
	p, panicked = vk.Catch(func() { m, err = dto.UnmarshalM(b) })
	return
}

func write(v dto.M) (b []byte, err error, p interface{}, panicked bool) {
	p, panicked = vk.Catch(func() { b, err = dto.MarshalM(v) })
	return
}

func TestRead(t *testing.T) {
	vk.Rule("read: JSON objects rendered together with the value they mean (all escapes, surrogate pairs, number forms, duplicate names, white space, depth to 6, up to 3000 members and 200 levels, long strings); the map must be exactly that value, the input must be left alone and not be shared with the result, several goroutines read the same bytes; non-trivial when the object had at least two members")
	vk.Cases("read", vk.N(16000, 2500000), func(c *vk.Case) {
		g := &gen{c: c}
		b := &bytes.Buffer{}
		g.ws(b)
		n := c.Intn(7)
		if c.Intn(300) == 0 {
			n = c.Intn(3000)
		}
		want := g.object(b, c.Intn(6), n)
		g.ws(b)
		if c.Intn(100) == 0 {
			// one deep chain
			d := 1 + c.Intn(200)
			var v interface{} = "bottom"
			for i := 0; i < d; i++ {
				v = map[string]interface{}{"d": v}
			}
			want = map[string]interface{}{"d": v}
			b.Reset()
			b.WriteString(strings.Repeat(`{"d":`, d+1) + `"bottom"` + strings.Repeat("}", d+1))
		}
		in := b.Bytes()
		keep := append([]byte(nil), in...)
		bad := func(sig string, x interface{}) {
			s := fmt.Sprintf("%#v", x)
			c.Violate(sig, map[string]interface{}{"text": clip(keep), "got": clip([]byte(s)), "want": clip([]byte(fmt.Sprintf("%#v", want)))})
		}
		k := 1
		if c.Intn(10) == 0 {
			k = 4
		}
		ms := make([]dto.M, k)
		errs := make([]error, k)
		ps := make([]bool, k)
		if k == 1 {
			ms[0], errs[0], _, ps[0] = read(in)
		} else {
			var wg sync.WaitGroup
			for i := range ms {
				wg.Add(1)
				go func() { defer wg.Done(); ms[i], errs[i], _, ps[i] = read(in) }()
			}
			wg.Wait()
			vk.Count("concurrent reads", k)
		}
		if !bytes.Equal(in, keep) {
			bad("reading changed its input", clip(in))
		}
		// the caller may reuse its buffer
		for i := range in {
			in[i] = 'X'
		}
		for i := range ms {
			switch {
			case ps[i]:
				bad("reading an object panics", i)
			case errs[i] != nil:
				bad("an object is refused", errs[i].Error())
			case ms[i] == nil:
				bad("an object is read as nil", i)
			case !reflect.DeepEqual(map[string]interface{}(ms[i]), want):
				bad("an object is read as another value", ms[i])
			}
		}
		if k > 1 && ms[0] != nil && ms[1] != nil {
			ms[0]["only in the first"] = 1
			if _, hit := ms[1]["only in the first"]; hit {
				bad("two results share one map", nil)
			}
		}
		vk.Count("duplicate names", g.dup)
		key := ""
		if len(want) > 1 {
			key = string(keep)
			if len(key) > 300 {
				key = key[:300] + strconv.Itoa(len(keep))
			}
		}
		c.Sample(clip(keep))
		c.Observed(key)
	})
}

var notObjects = []string{"", " ", "\n", "[]", "[{}]", `[{"a":1}]`, `""`, `"a"`, "1", "0", "-1.5", "true", "false", "nul", "NULL", "Null", "undefined", "{", "}", "{]", `{"a"}`, `{"a":}`, `{"a":1,}`, `{,}`, `{"a":1 "b":2}`, `{"a":1}}`, `{"a":1}{"b":2}`, `{"a":1} x`, `{"a":1}]`, `{"a":1},`, `{a:1}`, `{'a':1}`, `{"a":'b'}`, `{"a":01}`, `{"a":+1}`, `{"a":.5}`, `{"a":1.}`, `{"a":1e}`, `{"a":0x10}`, `{"a":NaN}`, `{"a":Infinity}`, `{"a":-}`, `{"a":"\x41"}`, `{"a":"\u12"}`, `{"a":"\u12G4"}`, "{\"a\":\"\n\"}", "{\"a\":\"\x00\"}", "{\"a\":\"\x1f\"}", `{"a":"b}`, `{"a":1e999}`, `{"a":[1e999]}`, `{"a":[1,]}`, `{"a":[1 2]}`, `{"a":tru}`, `{"a":nul}`, `/*c*/{}`, `{}//c`, "\uFEFF{}", `{1:2}`, `{null:1}`, `{"a":1;"b":2}`, `{"a"=1}`, "\x00{}", "{}\x00", "{\v}", "{\u00a0}", "<x/>", "a: 1"}

func TestRefuse(t *testing.T) {
	vk.Rule("refuse: a list of texts that are no JSON object, and generated objects broken in one place (cut at any byte, text after the end, a missing or doubled token); each must give an error and a nil map, without panicking; a bare null may be read as an empty map; non-trivial always, distinct by the text")
	for i, s := range notObjects {
		if !vk.MyShard(i) {
			continue
		}
		m, err, p, panicked := read([]byte(s))
		if panicked {
			vk.Violate("reading a text that is no object panics", map[string]interface{}{"text": s, "panic": fmt.Sprint(p)})
		} else if err == nil {
			vk.Violate("a text that is no object is accepted", map[string]interface{}{"text": s, "got": fmt.Sprint(m)})
		} else if m != nil {
			vk.Violate("a refused text gives a map", map[string]interface{}{"text": s, "got": fmt.Sprint(m)})
		}
		vk.Observe("list", s)
	}
	if m, err, p, panicked := read([]byte(" null ")); panicked || len(m) != 0 {
		vk.Violate("null is read as something", map[string]interface{}{"got": fmt.Sprint(m), "err": fmt.Sprint(err), "panic": fmt.Sprint(p)})
	}
	deep := []byte(strings.Repeat(`{"a":`, 200000))
	if m, err, p, panicked := read(deep); panicked || err == nil || m != nil {
		vk.Violate("bottomless nesting is not refused", map[string]interface{}{"err": fmt.Sprint(err), "panic": fmt.Sprint(p)})
	}
	vk.Cases("refuse", vk.N(12000, 1500000), func(c *vk.Case) {
		g := &gen{c: c}
		b := &bytes.Buffer{}
		g.object(b, c.Intn(4), c.Intn(5))
		in := b.Bytes()
		how := ""
		switch c.Intn(4) {
		case 0, 1:
			how = "cut"
			in = in[:c.Intn(len(in))]
		case 2:
			how = "more after the end"
			in = append(in, []string{"{}", "x", "]", "}", ",", "null", "0", `"`, "\x00", "//", " {", "\n{\"a\":1}"}[c.Intn(12)]...)
		case 3:
			how = "something before the start"
			in = append([]byte([]string{"{", "[", ",", "x", "1", "null", `"`, "}", "\x00", "{}", "\uFEFF"}[c.Intn(11)]), in...)
		}
		keep := append([]byte(nil), in...)
		m, err, p, panicked := read(in)
		det := map[string]interface{}{"how": how, "text": clip(keep), "got": clip([]byte(fmt.Sprint(m))), "err": fmt.Sprint(err), "panic": fmt.Sprint(p)}
		if panicked {
			c.Violate("reading a broken text panics", det)
		} else if err == nil {
			c.Violate("a broken text is accepted", det)
		} else if m != nil {
			c.Violate("a refused text gives a map", det)
		}
		vk.Count("refused: "+how, 1)
		c.Sample(det)
		c.Observed(clip(keep))
	})
}

// tree makes a Go value and what it must read back as.
func tree(c *vk.Case, g *gen, depth int) (v, back interface{}) {
	k := c.Intn(16)
	if depth <= 0 && k >= 12 {
		k = c.Intn(12)
	}
	switch k {
	case 0:
		return nil, nil
	case 1:
		b := c.Intn(2) == 0
		return b, b
	case 2:
		f := math.Float64frombits(uint64(c.Int63n(math.MaxInt64)))
		if math.IsNaN(f) || math.IsInf(f, 0) {
			f = 0.5
		}
		return f, f
	case 3:
		n := int(c.Int63n(1<<53)) - 1<<52
		return n, float64(n)
	case 4:
		n := c.Int63n(1 << 53)
		return []interface{}{uint64(n), int64(-n)}, []interface{}{float64(n), float64(-n)}
	case 5, 6, 7:
		s := g.str()
		return s, s
	case 8:
		n := c.Intn(256)
		return uint8(n), float64(n)
	case 9:
		l, w := []string{}, []interface{}{}
		for i := c.Intn(3); i > 0; i-- {
			s := g.str()
			l, w = append(l, s), append(w, s)
		}
		return l, w
	case 10:
		s := g.str()
		return &s, s
	case 11:
		return struct {
			A int
			B string `json:"b"`
		}{5, "x"}, map[string]interface{}{"A": 5.0, "b": "x"}
	case 12, 13:
		l, w := []interface{}{}, []interface{}{}
		for i := c.Intn(4); i > 0; i-- {
			a, b := tree(c, g, depth-1)
			l, w = append(l, a), append(w, b)
		}
		return l, w
	default:
		m, w := dto.M{}, map[string]interface{}{}
		for i := c.Intn(4); i > 0; i-- {
			k := g.str()
			m[k], w[k] = tree(c, g, depth-1)
		}
		if k == 15 {
			return map[string]interface{}(m), w
		}
		return m, w
	}
}

func TestWrite(t *testing.T) {
	vk.Rule("write: generated maps of Go values (all scalar types, nested maps and lists, pointers, structs, any text) are written and read back, by one or several goroutines at once; the text must be valid UTF-8, the value read must be the one written and the map unchanged; maps holding one value JSON cannot represent (NaN, infinities, channels, functions, complex numbers, circles) must give an error and no bytes, without panicking; non-trivial when the map had at least two members or was refused")
	vk.Cases("write", vk.N(12000, 2000000), func(c *vk.Case) {
		g := &gen{c: c}
		m, want := dto.M{}, map[string]interface{}{}
		n := c.Intn(6)
		if c.Intn(300) == 0 {
			n = c.Intn(2000)
		}
		for i := 0; i < n; i++ {
			k := g.str()
			m[k], want[k] = tree(c, g, 1+c.Intn(4))
		}
		if c.Intn(4) == 0 {
			// one value that has no JSON form, at any depth
			circle := map[string]interface{}{}
			circle["self"] = circle
			poison := []interface{}{math.NaN(), math.Inf(1), math.Inf(-1), make(chan int), func() {}, complex(1, 2), circle, float32(math.Inf(1))}[c.Intn(8)]
			for d := c.Intn(3); d > 0; d-- {
				if c.Intn(2) == 0 {
					poison = []interface{}{1, poison}
				} else {
					poison = dto.M{"in": poison}
				}
			}
			m["poison"] = poison
			b, err, p, panicked := write(m)
			det := map[string]interface{}{"got": clip(b), "err": fmt.Sprint(err), "panic": fmt.Sprint(p), "poison": fmt.Sprintf("%T", poison)}
			if panicked {
				c.Violate("writing a value JSON cannot represent panics", det)
			} else if err == nil {
				c.Violate("a value JSON cannot represent is written", det)
			} else if len(b) != 0 {
				c.Violate("a refused map gives bytes", det)
			}
			vk.Count("refused maps", 1)
			c.Sample(det)
			c.Observed(fmt.Sprintf("%T %d", poison, c.Index))
			return
		}
		before := fmt.Sprintf("%#v", want)
		snap := len(m)
		k := 1
		if c.Intn(10) == 0 {
			k = 4
			vk.Count("concurrent writes", k)
		}
		outs := make([][]byte, k)
		errs := make([]error, k)
		var wg sync.WaitGroup
		for i := range outs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var panicked bool
				var p interface{}
				outs[i], errs[i], p, panicked = write(m)
				if panicked {
					errs[i] = fmt.Errorf("panic: %v", p)
				}
			}()
		}
		wg.Wait()
		for i := range outs {
			det := map[string]interface{}{"value": clip([]byte(before)), "text": clip(outs[i]), "err": fmt.Sprint(errs[i])}
			if errs[i] != nil {
				c.Violate("a map could not be written", det)
				continue
			}
			if !utf8.Valid(outs[i]) {
				c.Violate("the text written is not UTF-8", det)
			}
			text := append([]byte(nil), outs[i]...)
			got, err, p, panicked := read(text)
			det["read"] = clip([]byte(fmt.Sprintf("%#v", got)))
			if panicked || err != nil {
				det["err"] = fmt.Sprint(err, p)
				c.Violate("what was written cannot be read", det)
			} else if !reflect.DeepEqual(map[string]interface{}(got), want) {
				c.Violate("what was written reads as another value", det)
			}
			if i > 0 && len(outs[0]) > 0 && len(outs[i]) > 0 && &outs[0][0] == &outs[i][0] {
				c.Violate("two results share one buffer", det)
			}
		}
		if len(m) != snap {
			c.Violate("writing changed the map", map[string]interface{}{"value": clip([]byte(before))})
		}
		key := ""
		if n > 1 {
			key = clip(outs[0])
		}
		c.Sample(clip(outs[0]))
		c.Observed(key)
	})
	if b, err, p, panicked := write(nil); panicked || err != nil {
		vk.Violate("a nil map cannot be written", map[string]interface{}{"got": string(b), "err": fmt.Sprint(err), "panic": fmt.Sprint(p)})
	}
}

func TestClock(t *testing.T) {
	vk.Rule("clock: in virtual time SysNow is the current instant at every call, and a fixed clock is the instant it was given, with its location and monotonic reading, at every call by every goroutine and whatever other fixed clocks exist; non-trivial always, distinct by the instants")
	vk.Cases("clock", vk.N(2000, 100000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) {
			var clocks []timeutil.NowFunc
			var at []time.Time
			for i, n := 0, 2+c.Intn(4); i < n; i++ {
				var x time.Time
				switch c.Intn(4) {
				case 0:
					x = time.Now()
				case 1:
					x = time.Unix(c.Int63n(1<<40)-1<<39, c.Int63n(1e9)).In(time.FixedZone("z", c.Intn(80000)-40000))
				case 2:
				case 3:
					x = time.Now().Add(time.Duration(c.Int63n(1<<40)) - 1<<39).UTC()
				}
				clocks, at = append(clocks, timeutil.FixedNow(x)), append(at, x)
				time.Sleep(time.Duration(c.Intn(3)) * time.Duration(c.Int63n(int64(time.Hour))))
				if got := timeutil.SysNow(); got != time.Now() {
					c.Violate("the system clock is not the current instant", map[string]interface{}{"got": got.String(), "want": time.Now().String()})
				}
			}
			var wg sync.WaitGroup
			for g := 0; g < 2; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for r := 0; r < 3; r++ {
						for i := range clocks {
							if got := clocks[i](); got != at[i] {
								c.Violate("a fixed clock moved", map[string]interface{}{"got": got.String(), "want": at[i].String()})
							}
						}
						time.Sleep(time.Second)
					}
				}()
			}
			wg.Wait()
			c.Sample(fmt.Sprint(at))
			c.Observed(fmt.Sprint(at))
		})
	})
}
