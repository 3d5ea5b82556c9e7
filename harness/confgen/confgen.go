// Package confgen makes random configuration struct types together with
// presets, yaml files, environments and flags for them, and knows by
// construction which value every field must end up with.
package confgen

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"time"
)

type (
	Mode  string
	Level int
	Truth bool
	Ratio float64
	Dur   time.Duration
	Big   int64
)

// Node is one field (or the root).
type Node struct {
	Words    []string // of the Go name
	Yaml     string
	Inline   bool
	Embedded bool
	Ptr      bool
	Kind     reflect.Type // leaf type, nil for a struct
	OK       bool         // a supported leaf
	Kids     []*Node
	Typ      reflect.Type // type without the pointer
	path     [][]string   // words of the path elements
}

// Name is the Go name.
func (n *Node) Name() string { return strings.Join(n.Words, "") }

func name(path [][]string, sep string, f func(string) string) string {
	var p []string
	for _, ws := range path {
		p = append(p, ws...)
	}
	return f(strings.Join(p, sep))
}

// Flag and Env are the conventional names of a leaf.
func (n *Node) Flag() string { return name(n.path, "-", strings.ToLower) }
func (n *Node) Env() string  { return name(n.path, "_", strings.ToUpper) }

var words = []string{"Foo", "Bar", "Baz", "Boom", "Host", "Port", "Name", "Max", "Min", "Url", "A", "B", "I", "D", "X9", "Db2", "Redis", "Mysql", "Timeout", "Log", "Size", "Level", "Q", "Item", "Sub"}

var supported = []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(true), reflect.TypeOf(0), reflect.TypeOf(int64(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(0.5), reflect.TypeOf(time.Second)}

var unsupported = []reflect.Type{reflect.TypeOf([]string{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(Mode("")), reflect.TypeOf(Level(0)), reflect.TypeOf(Truth(true)), reflect.TypeOf(Ratio(0)), reflect.TypeOf(Dur(0)), reflect.TypeOf(Big(0)), reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf(func() {}), reflect.TypeOf(make(chan int)), reflect.TypeOf(time.Time{}), reflect.TypeOf(complex(1, 1)), reflect.TypeOf([2]int{}), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf(new(int)), reflect.TypeOf([]byte{}), reflect.TypeOf(time.Month(0)), reflect.TypeOf(uintptr(0))}

type gen struct {
	*rand.Rand
	flags map[string]bool
	tries int
	deep  bool // nest deeply
}

// Type makes a struct type. Flags in reserved are not used by any field.
func Type(r *rand.Rand, reserved ...string) *Node {
	for {
		g := &gen{Rand: r, flags: map[string]bool{"h": true, "help": true}, deep: r.Intn(200) == 0}
		for _, f := range reserved {
			g.flags[f] = true
		}
		root := &Node{}
		g.fill(root, 0, map[string]bool{}, map[string]bool{})
		if len(root.Leaves()) > 0 {
			return root
		}
	}
}

// fill gives a struct node its fields. ynames are the yaml names taken in the
// mapping this struct is decoded from.
func (g *gen) fill(n *Node, depth int, ynames, gonames map[string]bool) {
	k := 1 + g.Intn(6)
	// width, depth and lengths must not matter
	wide := g.Intn(200) == 0
	if wide {
		k = 20 + g.Intn(80)
	}
	if g.Intn(20) == 0 {
		k = 0
	}
	for i := 0; i < k; i++ {
		f := &Node{}
		for w := 1 + g.Intn(3); w > 0; w-- {
			f.Words = append(f.Words, words[g.Intn(len(words))])
		}
		if gonames[f.Name()] {
			continue
		}
		f.path = append(append([][]string{}, n.path...), f.Words)
		f.Ptr = g.Intn(3) == 0
		f.Yaml = strings.ToLower(f.Name())
		if g.Intn(6) == 0 {
			f.Yaml = []string{"custom", "some-key", "Some_Key", "ключ", "with space"}[g.Intn(5)] + strconv.Itoa(g.Intn(100))
		}
		isStruct := depth < 3 && g.Intn(3) == 0 && (!wide || g.Intn(10) == 0) || g.deep && depth < 24 && i == 0
		if isStruct && g.Intn(3) == 0 {
			f.Embedded = true
			f.path = n.path
			f.Inline = g.Intn(2) == 0
		}
		if !f.Inline && ynames[f.Yaml] {
			continue
		}
		if isStruct {
			y := map[string]bool{}
			if f.Inline {
				y = ynames
			}
			// an embedded struct shares the name space, keep its names apart
			names := map[string]bool{}
			if f.Embedded {
				names = gonames
			}
			gonames[f.Name()] = true
			g.fill(f, depth+1, y, names)
		} else {
			f.OK = g.Intn(5) > 0
			fl := f.Flag()
			if g.flags[fl] {
				continue
			}
			g.flags[fl] = true
			if f.OK {
				f.Kind = supported[g.Intn(len(supported))]
			} else {
				f.Kind = unsupported[g.Intn(len(unsupported))]
				// a pointer to int is supported, one to such a pointer is not
				f.Ptr = f.Ptr || f.Kind.Kind() == reflect.Ptr
			}
			f.Typ = f.Kind
		}
		gonames[f.Name()] = true
		if !f.Inline {
			ynames[f.Yaml] = true
		}
		n.Kids = append(n.Kids, f)
	}
	var fs []reflect.StructField
	for _, f := range n.Kids {
		sf := reflect.StructField{Name: f.Name(), Type: f.Typ, Anonymous: f.Embedded}
		if f.Ptr {
			sf.Type = reflect.PtrTo(f.Typ)
		}
		switch {
		case f.Inline:
			sf.Tag = `yaml:",inline"`
		case f.Yaml != strings.ToLower(f.Name()):
			sf.Tag = reflect.StructTag(`yaml:"` + f.Yaml + `"`)
		}
		fs = append(fs, sf)
	}
	n.Typ = reflect.StructOf(fs)
}

// Leaves lists all leaves, supported or not.
func (n *Node) Leaves() []*Node {
	var out []*Node
	for _, f := range n.Kids {
		if f.Kind != nil {
			out = append(out, f)
		}
		out = append(out, f.Leaves()...)
	}
	return out
}

// Walk visits every field below n with its value in v. Values behind nil
// pointers are visited as invalid.
func (n *Node) Walk(v reflect.Value, f func(n *Node, v reflect.Value)) {
	for i, k := range n.Kids {
		var fv reflect.Value
		if v.IsValid() {
			fv = v.Field(i)
		}
		f(k, fv)
		if k.Kind == nil {
			if k.Ptr && fv.IsValid() {
				fv = fv.Elem() // invalid when nil
			}
			k.Walk(fv, f)
		}
	}
}

// Value is one value with a text that denotes it.
type Value struct {
	V    interface{}
	Text string
}

// Val makes a value of a supported type with a text as flags and environment
// variables take it, or, if yaml is set, as a yaml scalar.
func Val(r *rand.Rand, t reflect.Type, yaml bool) Value {
	switch t {
	case reflect.TypeOf(""):
		s := str(r)
		if yaml {
			switch {
			case r.Intn(3) == 0 && plain(s):
				return Value{s, s}
			case r.Intn(3) == 0 && !strings.ContainsAny(s, "\n\t"):
				return Value{s, "'" + strings.ReplaceAll(s, "'", "''") + "'"}
			}
			b := &strings.Builder{}
			e := json.NewEncoder(b)
			e.SetEscapeHTML(false)
			e.Encode(s)
			return Value{s, strings.TrimSpace(b.String())}
		}
		return Value{s, s}
	case reflect.TypeOf(true):
		v := r.Intn(2) == 0
		ts, fs := []string{"true", "True", "TRUE"}, []string{"false", "False", "FALSE"}
		if !yaml {
			ts, fs = append(ts, "1", "t", "T"), append(fs, "0", "f", "F")
		}
		if v {
			return Value{v, ts[r.Intn(len(ts))]}
		}
		return Value{v, fs[r.Intn(len(fs))]}
	case reflect.TypeOf(0), reflect.TypeOf(int64(0)):
		x := []int64{0, 1, -1, 8080, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1}[r.Intn(9)]
		if r.Intn(2) == 0 {
			x = r.Int63n(200000) - 100000
		}
		s := strconv.FormatInt(x, 10)
		if x >= 0 {
			s = based(r, uint64(x), yaml)
		} else if !yaml && r.Intn(3) == 0 && x != math.MinInt64 {
			s = "-" + based(r, uint64(-x), yaml)
		}
		if t.Kind() == reflect.Int {
			return Value{int(x), s}
		}
		return Value{x, s}
	case reflect.TypeOf(uint(0)), reflect.TypeOf(uint64(0)):
		x := []uint64{0, 1, 7, math.MaxUint64, math.MaxInt64 + 1, math.MaxUint32}[r.Intn(6)]
		if r.Intn(2) == 0 {
			x = uint64(r.Intn(100000))
		}
		s := based(r, x, yaml)
		if t.Kind() == reflect.Uint {
			return Value{uint(x), s}
		}
		return Value{x, s}
	case reflect.TypeOf(0.5):
		x := []float64{0, 0.5, -1.25, 1e10, 1e-10, 3, math.MaxFloat64, math.SmallestNonzeroFloat64, 0.1}[r.Intn(9)]
		if r.Intn(2) == 0 {
			x = r.NormFloat64() * 1000
		}
		f := byte("feg"[r.Intn(3)])
		if yaml && (x > 1e12 || x < -1e12) {
			f = 'e'
		}
		s := strconv.FormatFloat(x, f, -1, 64)
		if yaml && !strings.ContainsAny(s, ".") {
			if i := strings.IndexByte(s, 'e'); i >= 0 {
				s = s[:i] + ".0" + s[i:]
			} else {
				s += ".0"
			}
		}
		return Value{x, s}
	case reflect.TypeOf(time.Second):
		d := []time.Duration{0, 1, time.Second, 90 * time.Minute, -3 * time.Millisecond, 1<<63 - 1}[r.Intn(6)]
		if r.Intn(2) == 0 {
			d = time.Duration(r.Int63n(int64(100 * time.Hour)))
		}
		s := d.String()
		if r.Intn(3) == 0 && d%time.Millisecond == 0 {
			s = fmt.Sprint(int64(d/time.Millisecond)) + "ms"
		}
		return Value{d, s}
	}
	panic("type " + t.String())
}

func based(r *rand.Rand, x uint64, yaml bool) string {
	switch r.Intn(6) {
	case 0:
		return "0x" + strconv.FormatUint(x, 16)
	case 1:
		return "0o" + strconv.FormatUint(x, 8)
	case 2:
		return "0b" + strconv.FormatUint(x, 2)
	case 3:
		if !yaml {
			return "0X" + strings.ToUpper(strconv.FormatUint(x, 16))
		}
	}
	return strconv.FormatUint(x, 10)
}

var strRunes = []rune("abcXYZ019 .-_:/@!?#é中\"'\\{}[],&*")

func str(r *rand.Rand) string {
	if r.Intn(3) == 0 {
		all := []string{"", " ", "true", "123", "null", "~", "a: b", "#x", "a #b", "- x", "'", "\"", "{a}", "*x", "&x", "!t", "%d", "@", "`", "a=b", "-x", "--", "=", "\\n", "a,b", "yes", "0x10", "1e3", "é", "日本", "x\ny", "tab\t", "$HOME", "${X}", "|", ">", "?", ": ", "<<"}
		return all[r.Intn(len(all))]
	}
	n := r.Intn(12)
	if r.Intn(100) == 0 {
		n = 500 + r.Intn(9000)
	}
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(string(strRunes[r.Intn(len(strRunes))]))
	}
	return sb.String()
}

func plain(s string) bool {
	if s == "" || !(s[0] >= 'a' && s[0] <= 'c' || s[0] == 'X') {
		return false
	}
	for _, c := range s {
		if !strings.ContainsRune("abcXYZ019._/", c) {
			return false
		}
	}
	return true
}

// BadText makes a text that does not denote a value of a supported type (not
// possible for strings).
func BadText(r *rand.Rand, t reflect.Type) (string, bool) {
	common := []string{"abc", "1 2", "1.2.3", "--5", "١", "1_", "0x", "5x", " 1", "1 "}
	switch t {
	case reflect.TypeOf(""):
		return "", false
	case reflect.TypeOf(true):
		return pick(r, "yes", "no", "2", "on", "truee", "", " true"), true
	case reflect.TypeOf(0), reflect.TypeOf(int64(0)):
		return pick(r, append(common, "", "1.5", "9223372036854775808", "-9223372036854775809", "1e3")...), true
	case reflect.TypeOf(uint(0)), reflect.TypeOf(uint64(0)):
		return pick(r, append(common, "", "-1", "1.5", "18446744073709551616", "1e3")...), true
	case reflect.TypeOf(0.5):
		return pick(r, append(common, "", "1e999", "1,5", "..")...), true
	}
	return pick(r, "", "5", "abc", "1d", "1 s", "10000000h", "s", "1h5", "-"), true
}

// BadYaml makes a yaml scalar that is not a value of a supported type.
func BadYaml(r *rand.Rand, t reflect.Type) (string, bool) {
	seq := []string{"[1, 2]", "{a: b}"}
	switch t {
	case reflect.TypeOf(""):
		return pick(r, seq...), true
	case reflect.TypeOf(true):
		return pick(r, append(seq, "abc", "'true x'", "12", "1.5")...), true
	case reflect.TypeOf(0), reflect.TypeOf(int64(0)):
		return pick(r, append(seq, "abc", "'12'", "true", "9223372036854775808", "12x")...), true
	case reflect.TypeOf(uint(0)), reflect.TypeOf(uint64(0)):
		return pick(r, append(seq, "abc", "'12'", "-1", "true")...), true
	case reflect.TypeOf(0.5):
		return pick(r, append(seq, "abc", "'1.5'", "true", "1.5x")...), true
	}
	return pick(r, append(seq, "abc", "1 s", "true", "1d")...), true
}

func pick(r *rand.Rand, s ...string) string { return s[r.Intn(len(s))] }

// Equal compares two leaf values.
func Equal(a, b interface{}) bool {
	if x, ok := a.(float64); ok {
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y) || ok && x == y
	}
	return reflect.DeepEqual(a, b)
}

// Preset fills v (of n's type) with random values and nil pointers.
func (n *Node) Preset(r *rand.Rand, v reflect.Value) {
	for i, k := range n.Kids {
		fv := v.Field(i)
		if k.Ptr {
			if r.Intn(2) == 0 {
				continue
			}
			fv.Set(reflect.New(k.Typ))
			fv = fv.Elem()
		}
		switch {
		case k.Kind == nil:
			k.Preset(r, fv)
		case r.Intn(3) == 0:
		case k.OK:
			fv.Set(reflect.ValueOf(Val(r, k.Kind, false).V).Convert(k.Kind))
		default:
			switch k.Kind.Kind() {
			case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int, reflect.Int64:
				fv.SetInt(int64(r.Intn(100)))
			case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uintptr:
				fv.SetUint(uint64(r.Intn(100)))
			case reflect.String:
				fv.SetString("preset")
			case reflect.Bool:
				fv.SetBool(true)
			case reflect.Float32, reflect.Float64:
				fv.SetFloat(1.5)
			case reflect.Slice:
				if k.Kind.Elem().Kind() == reflect.String {
					fv.Set(reflect.ValueOf([]string{"p"}))
				}
			case reflect.Ptr:
				x := r.Intn(100)
				fv.Set(reflect.ValueOf(&x))
			}
		}
	}
}

// YamlFile is one rendered file and the values it gives to leaves.
type YamlFile struct {
	Text   string
	Values map[*Node]interface{}
	Nulls  int
}

// Yaml renders a file for n. bad, if not nil, is a leaf that gets badText.
func (n *Node) Yaml_(r *rand.Rand, bad *Node, badText string) *YamlFile {
	f := &YamlFile{Values: map[*Node]interface{}{}}
	var sb strings.Builder
	if r.Intn(4) == 0 {
		sb.WriteString("# comment\n---\n")
	}
	flow := r.Intn(4) == 0
	if flow {
		sb.WriteString(f.flow(r, n, bad, badText) + "\n")
	} else {
		f.block(r, n, "", &sb, bad, badText)
	}
	f.Text = sb.String()
	return f
}

type entry struct {
	n    *Node
	text string
	sub  bool
}

func holds(n, bad *Node) bool {
	if n == bad {
		return true
	}
	for _, k := range n.Kids {
		if holds(k, bad) {
			return true
		}
	}
	return false
}

// entries decides what one mapping holds.
func (f *YamlFile) entries(r *rand.Rand, n *Node, bad *Node, badText string) []entry {
	var es []entry
	for _, k := range n.Kids {
		must := bad != nil && holds(k, bad)
		if k.Inline {
			es = append(es, f.entries(r, k, bad, badText)...)
			continue
		}
		x := r.Intn(10)
		switch {
		case must && k == bad:
			es = append(es, entry{k, badText, false})
		case must:
			es = append(es, entry{k, "", true})
		case x < 2: // omitted
		case x < 4 && (k.Kind == nil || k.OK):
			f.Nulls++
			t := []string{"", "~", "null", "{}"}[r.Intn(4)]
			if t == "{}" && k.Kind != nil {
				t = "Null"
			}
			es = append(es, entry{k, t, false})
		case k.Kind == nil:
			es = append(es, entry{k, "", true})
		case k.OK:
			v := Val(r, k.Kind, true)
			f.Values[k] = v.V
			es = append(es, entry{k, v.Text, false})
		case k.Kind == reflect.TypeOf([]string{}):
			f.Values[k] = []string{"a", "b"}
			es = append(es, entry{k, "[a, b]", false})
		case k.Kind == reflect.TypeOf(int32(0)):
			f.Values[k] = int32(5)
			es = append(es, entry{k, "5", false})
		case k.Kind == reflect.TypeOf(Mode("")):
			f.Values[k] = Mode("abc")
			es = append(es, entry{k, "abc", false})
		}
	}
	r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
	return es
}

func key(s string) string {
	if strings.ContainsAny(s, " ") {
		return "\"" + s + "\""
	}
	switch s { // words yaml 1.1 reads as booleans
	case "y", "n":
		return "\"" + s + "\""
	}
	return s
}

func (f *YamlFile) block(r *rand.Rand, n *Node, ind string, sb *strings.Builder, bad *Node, badText string) {
	for _, e := range f.entries(r, n, bad, badText) {
		if !e.sub {
			fmt.Fprintf(sb, "%s%s: %s\n", ind, key(e.n.Yaml), e.text)
			continue
		}
		if r.Intn(6) == 0 {
			fmt.Fprintf(sb, "%s%s: %s\n", ind, key(e.n.Yaml), f.flow(r, e.n, bad, badText))
			continue
		}
		var sub strings.Builder
		f.block(r, e.n, ind+"  ", &sub, bad, badText)
		fmt.Fprintf(sb, "%s%s:%s\n%s", ind, key(e.n.Yaml), []string{"", " ", " # c"}[r.Intn(3)], sub.String())
	}
	if r.Intn(6) == 0 {
		fmt.Fprintf(sb, "%szzunknown: [1, {a: b}]\n", ind)
	}
}

func (f *YamlFile) flow(r *rand.Rand, n *Node, bad *Node, badText string) string {
	var p []string
	for _, e := range f.entries(r, n, bad, badText) {
		t := e.text
		if e.sub {
			t = f.flow(r, e.n, bad, badText)
		}
		p = append(p, key(e.n.Yaml)+": "+t)
	}
	return "{" + strings.Join(p, ", ") + "}"
}

// Arg renders a flag for the command line.
func Arg(r *rand.Rand, flag, text string, isBool bool) []string {
	d := []string{"-", "--"}[r.Intn(2)]
	if isBool {
		if text == "true" && r.Intn(2) == 0 {
			return []string{d + flag}
		}
		return []string{d + flag + "=" + text}
	}
	if r.Intn(3) == 0 {
		return []string{d + flag, text}
	}
	return []string{d + flag + "=" + text}
}

// Describe renders the type.
func (n *Node) Describe() string {
	var sb strings.Builder
	var rec func(n *Node)
	rec = func(n *Node) {
		sb.WriteString("{")
		for _, k := range n.Kids {
			p, e := "", ""
			if k.Ptr {
				p = "*"
			}
			if k.Embedded {
				e = "(embedded) "
			}
			if k.Kind != nil {
				fmt.Fprintf(&sb, "%s%s %s%s; ", e, k.Name(), p, k.Kind)
				continue
			}
			fmt.Fprintf(&sb, "%s%s %sstruct", e, k.Name(), p)
			rec(k)
			sb.WriteString("; ")
		}
		sb.WriteString("}")
	}
	rec(n)
	return sb.String()
}
