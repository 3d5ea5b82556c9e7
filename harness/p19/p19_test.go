// Monitor of P19: precedence of configuration sources.
package p19

import (
	"flag"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/chanjarster/gears/conf"
	"verif/harness/confgen"
	"verif/harness/vk"
)

func TestMain(m *testing.M) { vk.Main(m, "P19") }

// load runs conf.Load as a program would see it.
func load(p interface{}, yamlFlag string, args []string, env map[string]string) (panicValue interface{}, panicked bool) {
	oldArgs, oldCL, oldEnv := os.Args, flag.CommandLine, os.Environ()
	oldOut := os.Stdout
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	defer func() {
		os.Args, flag.CommandLine, os.Stdout = oldArgs, oldCL, oldOut
		null.Close()
		os.Clearenv()
		for _, e := range oldEnv {
			kv := strings.SplitN(e, "=", 2)
			os.Setenv(kv[0], kv[1])
		}
	}()
	os.Clearenv()
	for k, v := range env {
		os.Setenv(k, v)
	}
	os.Stdout = null
	os.Args = append([]string{"prog"}, args...)
	flag.CommandLine = flag.NewFlagSet("prog", flag.PanicOnError)
	flag.CommandLine.SetOutput(io.Discard)
	return vk.Catch(func() { conf.Load(p, yamlFlag) })
}

func TestPrecedence(t *testing.T) {
	vk.Rule("precedence: random struct types (all supported kinds, unsupported and named types, pointers, nested and embedded structs, yaml tags and inlining) with random presets and nil pointers, a yaml file in block or flow style with omitted, null and empty sections and scalars, environment variables (also of unsupported fields and near-miss names) and flags in every syntax; after Load every field is compared with flag, else env, else yaml, else preset; distinct by type and sources, non-trivial when at least two sources spoke about one field")
	dir := os.Getenv("VERIF_SCRATCH")
	if dir == "" {
		dir = t.TempDir()
	}
	file := filepath.Join(dir, "c.yaml")
	vk.Cases("precedence", vk.N(20000, 800000), func(c *vk.Case) {
		yamlFlag := []string{"", "c", "c", "c", "config-file"}[c.Intn(5)]
		root := confgen.Type(c.Rand, yamlFlag)
		v := reflect.New(root.Typ)
		root.Preset(c.Rand, v.Elem())
		preset := map[*confgen.Node]interface{}{}
		wasNil := map[*confgen.Node]bool{}
		root.Walk(v.Elem(), func(n *confgen.Node, x reflect.Value) {
			if n.Kind == nil {
				return
			}
			preset[n] = reflect.Zero(n.Kind).Interface()
			if x.IsValid() && n.Ptr {
				wasNil[n] = x.IsNil()
				x = x.Elem()
			}
			if x.IsValid() {
				preset[n] = x.Interface()
			} else {
				wasNil[n] = true
			}
		})
		var args []string
		env := map[string]string{}
		vals := map[*confgen.Node]interface{}{}
		speakers := map[*confgen.Node]int{}
		text := ""
		if yamlFlag != "" && c.Intn(4) > 0 {
			y := root.Yaml_(c.Rand, nil, "")
			if c.Intn(20) == 0 {
				y = &confgen.YamlFile{Text: []string{"", "\n", "# nothing\n", "---\n", "~\n", "{}\n"}[c.Intn(6)]}
			}
			text = y.Text
			if err := os.WriteFile(file, []byte(text), 0o600); err != nil {
				panic(err)
			}
			args = append(args, confgen.Arg(c.Rand, yamlFlag, file, false)...)
			for n, x := range y.Values {
				vals[n] = x
				speakers[n]++
			}
			vk.Count("null or empty yaml values", y.Nulls)
		}
		nf, ne := 0, 0
		for _, n := range root.Leaves() {
			if !n.OK {
				if c.Intn(2) == 0 {
					env[n.Env()] = []string{"", "garbage", "7", "true", "1s"}[c.Intn(5)]
				}
				continue
			}
			if c.Intn(3) == 0 {
				x := confgen.Val(c.Rand, n.Kind, false)
				env[n.Env()] = x.Text
				vals[n] = x.V
				speakers[n]++
				ne++
			}
			if c.Intn(5) == 0 { // names that are not the field's
				for _, s := range []string{strings.ToLower(n.Env()), n.Flag(), strings.ReplaceAll(n.Env(), "_", "-"), n.Env() + "_", "_" + n.Env(), n.Name()} {
					if _, in := env[s]; !in && s != n.Env() && !isEnv(root, s) {
						env[s] = "wrong"
					}
				}
			}
			if c.Intn(3) == 0 {
				if c.Intn(6) == 0 { // given twice, the last counts
					x := confgen.Val(c.Rand, n.Kind, false)
					args = append(args, confgen.Arg(c.Rand, n.Flag(), x.Text, n.Kind.Kind() == reflect.Bool)...)
				}
				x := confgen.Val(c.Rand, n.Kind, false)
				args = append(args, confgen.Arg(c.Rand, n.Flag(), x.Text, n.Kind.Kind() == reflect.Bool)...)
				vals[n] = x.V
				speakers[n]++
				nf++
			}
		}
		if c.Intn(6) == 0 {
			args = append(args, []string{"--", "positional"}[c.Intn(2)], "-not-a-flag")
		}
		d := func(what string) interface{} {
			return map[string]interface{}{"what": what, "type": root.Describe(), "args": fmt.Sprintf("%q", args), "env": fmt.Sprintf("%q", env), "yaml": text}
		}
		if p, panicked := load(v.Interface(), yamlFlag, args, env); panicked {
			c.Violate("valid configuration is refused or panics", d(fmt.Sprint(p)))
			return
		}
		failed := false
		bad := func(sig, f string, a ...interface{}) {
			if !failed {
				failed = true
				c.Violate(sig, d(fmt.Sprintf(f, a...)))
			}
		}
		root.Walk(v.Elem(), func(n *confgen.Node, x reflect.Value) {
			if failed {
				return
			}
			path := n.Flag()
			if n.Ptr && (n.OK || n.Kind == nil) && (!x.IsValid() || x.IsNil()) {
				bad("a pointer is nil after loading", "%s", n.Name())
				return
			}
			if n.Kind == nil {
				return
			}
			if n.Ptr {
				if x.IsNil() && wasNil[n] && vals[n] == nil {
					return // unsupported, nothing said
				}
				x = x.Elem()
			}
			want, given := vals[n]
			if !given {
				want = preset[n]
			}
			if !x.IsValid() || !equal(n, x, want) {
				sig := "a field does not have the value of its strongest source"
				if !n.OK {
					sig = "a field of an unsupported type was changed"
				}
				bad(sig, "field %s (flag %s, %v) is %v, want %v, preset %v", n.Name(), path, n.Kind, show(x), want, preset[n])
			}
		})
		key := ""
		for _, k := range speakers {
			if k > 1 {
				key = fmt.Sprint(root.Describe(), args, env, text)
			}
		}
		vk.Count("flags given", nf)
		vk.Count("env given", ne)
		vk.Count("fields checked", len(root.Leaves()))
		if c.Index < 4 {
			c.Sample(d(""))
		}
		c.Observed(key)
	})
}

func show(v reflect.Value) interface{} {
	if !v.IsValid() {
		return "nil"
	}
	return v.Interface()
}

func equal(n *confgen.Node, x reflect.Value, want interface{}) bool {
	switch n.Kind.Kind() {
	case reflect.Func, reflect.Chan:
		return x.IsNil()
	}
	return confgen.Equal(x.Interface(), want)
}

func isEnv(root *confgen.Node, s string) bool {
	for _, n := range root.Leaves() {
		if n.Env() == s {
			return true
		}
	}
	return false
}

// types reflection cannot make
type Base struct {
	BaseName string
	BaseN    *int
}
type More struct {
	Level   confgen.Level
	Timeout *time.Duration
}
type fixed struct {
	Base
	*More
	secret string
	count  *int
	Mode   confgen.Mode
	ModeP  *confgen.Mode
	Plain  string
	Sec    struct {
		inner string
		Pub   *bool
		Deep  *struct {
			Ratio *float64
			U     *uint
			U64   *uint64
			I64   *int64
			S     *string
			I     *int
		}
	}
}

func TestFixed(t *testing.T) {
	vk.Rule("fixed: a hand-written type with named types, unexported fields and embedded pointers under random subsets of sources; non-trivial each, distinct by the sources")
	dir := os.Getenv("VERIF_SCRATCH")
	if dir == "" {
		dir = t.TempDir()
	}
	file := filepath.Join(dir, "f.yaml")
	type src struct{ flag, env, yaml string }
	names := []src{{"base-name", "BASE_NAME", "base.basename"}, {"base-n", "BASE_N", "base.basen"}, {"timeout", "TIMEOUT", "more.timeout"}, {"plain", "PLAIN", "plain"}, {"sec-pub", "SEC_PUB", "sec.pub"}, {"sec-deep-ratio", "SEC_DEEP_RATIO", "sec.deep.ratio"}, {"sec-deep-u", "SEC_DEEP_U", "sec.deep.u"}, {"sec-deep-u64", "SEC_DEEP_U64", "sec.deep.u64"}, {"sec-deep-i64", "SEC_DEEP_I64", "sec.deep.i64"}, {"sec-deep-s", "SEC_DEEP_S", "sec.deep.s"}, {"sec-deep-i", "SEC_DEEP_I", "sec.deep.i"}}
	texts := []func(i int) string{
		func(i int) string { return fmt.Sprint("n", i) }, func(i int) string { return fmt.Sprint(i) }, func(i int) string { return fmt.Sprint(i, "s") }, func(i int) string { return fmt.Sprint("p", i) },
		func(i int) string { return fmt.Sprint(i%2 == 0) }, func(i int) string { return fmt.Sprint(float64(i) + 0.5) }, func(i int) string { return fmt.Sprint(i) }, func(i int) string { return fmt.Sprint(i) }, func(i int) string { return fmt.Sprint(-i) }, func(i int) string { return fmt.Sprint("s", i) }, func(i int) string { return fmt.Sprint(i) }}
	vk.Cases("fixed", vk.N(4000, 100000), func(c *vk.Case) {
		f := &fixed{secret: "s", Mode: "m"}
		one := 1
		f.count = &one
		f.Plain = "p0"
		var args []string
		env := map[string]string{"SECRET": "x", "COUNT": "9", "MODE": "bad", "MODE_P": "bad", "LEVEL": "12", "SEC_INNER": "x", "BASE": "x", "MORE": "x", "SEC": "x"}
		tree := map[string]map[string]string{}
		want := make([]string, len(names))
		want[3] = "p0"
		for i := range names {
			for s := 0; s < 3; s++ {
				if c.Intn(3) > 0 {
					continue
				}
				x := texts[i](c.Intn(1000))
				switch s {
				case 0:
					p := strings.Split(names[i].yaml, ".")
					sec := strings.Join(p[:len(p)-1], ".")
					if tree[sec] == nil {
						tree[sec] = map[string]string{}
					}
					tree[sec][p[len(p)-1]] = x
				case 1:
					env[names[i].env] = x
				case 2:
					args = append(args, "-"+names[i].flag+"="+x)
				}
				want[i] = x
			}
		}
		var sb strings.Builder
		section := func(name, ind, key string) {
			if m := tree[name]; m != nil || c.Intn(2) == 0 {
				fmt.Fprintf(&sb, "%s%s:\n", ind, key)
				for k, v := range m {
					fmt.Fprintf(&sb, "%s  %s: %s\n", ind, k, v)
				}
			}
		}
		for k, v := range tree[""] {
			fmt.Fprintf(&sb, "%s: %s\n", k, v)
		}
		section("base", "", "base")
		section("more", "", "more")
		if tree["sec"] != nil || tree["sec.deep"] != nil || c.Intn(2) == 0 {
			sb.WriteString("sec:\n")
			for k, v := range tree["sec"] {
				fmt.Fprintf(&sb, "  %s: %s\n", k, v)
			}
			section("sec.deep", "  ", "deep")
		}
		if err := os.WriteFile(file, []byte(sb.String()), 0o600); err != nil {
			panic(err)
		}
		args = append(args, "-c="+file)
		d := func(what string) interface{} {
			return map[string]interface{}{"what": what, "args": fmt.Sprintf("%q", args), "env": fmt.Sprintf("%q", env), "yaml": sb.String()}
		}
		if p, panicked := load(f, "c", args, env); panicked {
			c.Violate("valid configuration is refused or panics", d(fmt.Sprint(p)))
			return
		}
		if f.More == nil || f.More.Timeout == nil || f.BaseN == nil || f.Sec.Pub == nil || f.Sec.Deep == nil || f.Sec.Deep.Ratio == nil || f.Sec.Deep.U == nil || f.Sec.Deep.U64 == nil || f.Sec.Deep.I64 == nil || f.Sec.Deep.S == nil || f.Sec.Deep.I == nil {
			c.Violate("a pointer is nil after loading", d(""))
			return
		}
		e := f.Sec.Deep
		got := []interface{}{f.BaseName, *f.BaseN, *f.More.Timeout, f.Plain, *f.Sec.Pub, *e.Ratio, *e.U, *e.U64, *e.I64, *e.S, *e.I}
		zero := []string{"", "0", "0s", "", "false", "0", "0", "0", "0", "", "0"}
		for i := range got {
			w := want[i]
			if w == "" {
				w = zero[i]
			}
			if i == 2 {
				dd, _ := time.ParseDuration(w)
				w = dd.String()
			}
			if g := fmt.Sprint(got[i]); g != w {
				c.Violate("a field does not have the value of its strongest source", d(fmt.Sprintf("%s is %q want %q", names[i].flag, g, w)))
				return
			}
		}
		if f.secret != "s" || *f.count != 1 || f.Mode != "m" || f.Level != 0 || f.Sec.inner != "" || (f.ModeP != nil && *f.ModeP != "") {
			c.Violate("a field of an unsupported type was changed", d(fmt.Sprintf("%+v", f)))
		}
		c.Observed(fmt.Sprint(args, env, sb.String()))
	})
}
