// Monitor of P20: names of configuration values; bad input ends the program.
package p20

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/chanjarster/gears/conf"
	"verif/harness/confgen"
	"verif/harness/vk"
)

const childVar = "VERIF_CHILD_OF_P20"

func TestMain(m *testing.M) {
	if s := os.Getenv(childVar); s != "" {
		child(s)
		return
	}
	vk.Main(m, "P20")
}

func fields(root *confgen.Node, v reflect.Value) map[string]string {
	out := map[string]string{}
	root.Walk(v, func(n *confgen.Node, x reflect.Value) {
		if n.Kind == nil || !n.OK {
			return
		}
		if n.Ptr && x.IsValid() {
			x = x.Elem()
		}
		if !x.IsValid() {
			out[n.Flag()] = "nil"
			return
		}
		out[n.Flag()] = fmt.Sprintf("%#v", x.Interface())
	})
	return out
}

type order struct {
	Seed      int64
	Reserved  string
	YamlFlag  string
	Lenient   bool
	Twice     bool
	TypeIndex int
}

func mktype(group string, index int, reserved string) *confgen.Node {
	return confgen.Type(vk.NewCase(group, index).Rand, reserved)
}

// child is a program that loads its configuration.
func child(s string) {
	var o order
	if err := json.Unmarshal([]byte(s), &o); err != nil {
		panic(err)
	}
	vk.SetSeed(o.Seed)
	root := mktype("exits-type", o.TypeIndex, o.Reserved)
	h := flag.ExitOnError
	if o.Lenient {
		h = flag.ContinueOnError
	}
	flag.CommandLine = flag.NewFlagSet("prog", h)
	v := reflect.New(root.Typ)
	conf.Load(v.Interface(), o.YamlFlag)
	b, _ := json.Marshal(fields(root, v.Elem()))
	fmt.Printf("\nLOADED %s\n", b)
}

// load runs conf.Load in this process with valid sources only.
func load(p interface{}, yamlFlag string, args []string, env map[string]string) (names []string, panicValue interface{}, panicked bool) {
	oldArgs, oldCL, oldEnv := os.Args, flag.CommandLine, os.Environ()
	oldOut := os.Stdout
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	defer func() {
		os.Args, flag.CommandLine, os.Stdout = oldArgs, oldCL, oldOut
		null.Close()
		os.Clearenv()
		for _, e := range oldEnv {
			kv := strings.SplitN(e, "=", 2)
			os.Setenv(kv[0], kv[1])
		}
	}()
	os.Clearenv()
	for k, v := range env {
		os.Setenv(k, v)
	}
	os.Stdout = null
	os.Args = append([]string{"prog"}, args...)
	flag.CommandLine = flag.NewFlagSet("prog", flag.PanicOnError)
	flag.CommandLine.SetOutput(io.Discard)
	panicValue, panicked = vk.Catch(func() { conf.Load(p, yamlFlag) })
	flag.CommandLine.VisitAll(func(f *flag.Flag) { names = append(names, f.Name) })
	return
}

func TestNames(t *testing.T) {
	vk.Rule("names: for random struct types the set of registered flags must be exactly the conventional names of the supported fields (plus the yaml flag), and setting one flag or one variable by its name must change exactly that field; distinct by type, non-trivial with at least three fields")
	vk.Cases("names", vk.N(16000, 500000), func(c *vk.Case) {
		yamlFlag := []string{"", "c", "config-file"}[c.Intn(3)]
		root := confgen.Type(c.Rand, yamlFlag)
		var want []string
		var ok []*confgen.Node
		for _, n := range root.Leaves() {
			if n.OK {
				want = append(want, n.Flag())
				ok = append(ok, n)
			}
		}
		if yamlFlag != "" {
			want = append(want, yamlFlag)
		}
		sort.Strings(want)
		v := reflect.New(root.Typ)
		d := func(f string, a ...interface{}) interface{} {
			return map[string]interface{}{"what": fmt.Sprintf(f, a...), "type": root.Describe()}
		}
		names, p, panicked := load(v.Interface(), yamlFlag, nil, nil)
		if panicked {
			c.Violate("loading without any source panics", d("%v", p))
			return
		}
		sort.Strings(names)
		if strings.Join(names, " ") != strings.Join(want, " ") {
			c.Violate("the set of flags is not the conventional one", d("flags %v, want %v", names, want))
			return
		}
		none := fields(root, v.Elem())
		for i := 0; i < 3 && len(ok) > 0; i++ {
			n := ok[c.Intn(len(ok))]
			x := confgen.Val(c.Rand, n.Kind, false)
			var args []string
			env := map[string]string{}
			how := ""
			if c.Intn(2) == 0 {
				args = confgen.Arg(c.Rand, n.Flag(), x.Text, n.Kind.Kind() == reflect.Bool)
				how = fmt.Sprintf("args %q", args)
			} else {
				env[n.Env()] = x.Text
				how = fmt.Sprintf("env %q", env)
			}
			v := reflect.New(root.Typ)
			if _, p, panicked := load(v.Interface(), yamlFlag, args, env); panicked {
				c.Violate("a value is refused under its conventional name", d("%s: %v", how, p))
				return
			}
			got := fields(root, v.Elem())
			want := map[string]string{}
			for k, s := range none {
				want[k] = s
			}
			want[n.Flag()] = fmt.Sprintf("%#v", x.V)
			for k := range want {
				if got[k] != want[k] {
					c.Violate("a name does not set exactly its field", d("%s: field %s is %s, want %s", how, k, got[k], want[k]))
					return
				}
			}
			vk.Count("single settings", 1)
		}
		vk.Count("flag names checked", len(names))
		key := root.Describe()
		if len(ok) < 3 {
			key = ""
		}
		c.Observed(key)
	})
}

func run(o order, args []string, env map[string]string) (string, int, bool) {
	b, _ := json.Marshal(o)
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = []string{childVar + "=" + string(b), "GOTRACEBACK=all"}
	if cov := os.Getenv("GOCOVERDIR"); cov != "" {
		cmd.Env = append(cmd.Env, "GOCOVERDIR="+cov)
	}
	for k, v := range env {
		cmd.Env = append(cmd.Env, k+"="+v)
	}
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		code := 0
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			code = ee.ExitCode()
		} else if err != nil {
			panic(err)
		}
		return out.String(), code, false
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-done
		return out.String(), -1, true
	}
}

// nearMiss gives flags that are not one of names.
func nearMiss(c *vk.Case, root *confgen.Node, names map[string]bool) string {
	ls := root.Leaves()
	n := ls[c.Intn(len(ls))]
	f := n.Flag()
	for tries := 0; tries < 20; tries++ {
		var s string
		switch c.Intn(8) {
		case 0:
			s = n.Env()
		case 1:
			s = n.Name()
		case 2:
			s = strings.ReplaceAll(f, "-", "_")
		case 3:
			s = strings.ReplaceAll(f, "-", "")
		case 4:
			s = f + "-x"
		case 5:
			s = f[:len(f)-1]
		case 6:
			s = strings.ReplaceAll(f, "-", ".")
		default:
			if !n.OK {
				s = f // a field of an unsupported type has no flag
			} else {
				s = "x-" + f
			}
		}
		if s == "" || names[s] || s == "h" || s == "help" || s[0] == '-' {
			continue
		}
		return s
	}
	return "zz-unknown"
}

func TestExits(t *testing.T) {
	vk.Rule("exits: a child process with a random configuration type loads it from generated sources of which exactly one thing is wrong (flag, variable or yaml value not of the type, missing flag argument, unknown or near-miss flag, missing file, directory, malformed, duplicate or non-mapping yaml), also when a stronger source gives a good value, or nothing is wrong; bad input must end it with status 2 and a message, good input must load with the expected values; distinct by type and sources, non-trivial each")
	dir := os.Getenv("VERIF_SCRATCH")
	if dir == "" {
		dir = t.TempDir()
	}
	vk.Cases("exits", vk.N(3500, 100000), func(c *vk.Case) {
		yamlFlag := []string{"c", "c", "config-file", ""}[c.Intn(4)]
		o := order{Seed: vk.Seed(), Reserved: yamlFlag, YamlFlag: yamlFlag, TypeIndex: c.Index, Lenient: c.Intn(4) == 0}
		root := mktype("exits-type", c.Index, yamlFlag)
		names := map[string]bool{yamlFlag: true}
		var ok []*confgen.Node
		for _, n := range root.Leaves() {
			if n.OK {
				ok = append(ok, n)
				names[n.Flag()] = true
			}
		}
		kinds := []string{"none", "flag", "env", "yaml value", "unknown flag", "missing file", "malformed", "missing argument", "directory", "duplicate"}
		kind := kinds[c.Intn(len(kinds))]
		if c.Intn(3) == 0 {
			kind = []string{"flag", "env", "yaml value"}[c.Intn(3)]
		}
		needsYaml := kind == "yaml value" || kind == "missing file" || kind == "malformed" || kind == "directory" || kind == "duplicate"
		if yamlFlag == "" && needsYaml {
			kind = "unknown flag"
			needsYaml = false
		}
		var bad *confgen.Node
		badText := ""
		if kind == "flag" || kind == "env" || kind == "yaml value" {
			for tries := 0; tries < 20 && bad == nil && len(ok) > 0; tries++ {
				n := ok[c.Intn(len(ok))]
				f := confgen.BadText
				if kind == "yaml value" {
					f = confgen.BadYaml
				}
				if s, can := f(c.Rand, n.Kind); can {
					bad, badText = n, s
				}
			}
			if bad == nil {
				kind, needsYaml = "unknown flag", false
			}
		}
		var args []string
		env := map[string]string{}
		want := map[string]string{}
		file := filepath.Join(dir, "p20.yaml")
		text := ""
		if yamlFlag != "" && (needsYaml || c.Intn(2) == 0) {
			var b *confgen.Node
			if kind == "yaml value" {
				b = bad
			}
			y := root.Yaml_(c.Rand, b, badText)
			text = y.Text
			for n, x := range y.Values {
				if n.OK {
					want[n.Flag()] = fmt.Sprintf("%#v", x)
				}
			}
			os.RemoveAll(file)
			switch kind {
			case "missing file":
				file = filepath.Join(dir, []string{"none.yaml", "no/such/dir.yaml", "p20.yaml/x"}[c.Intn(3)])
				text = "missing"
			case "directory":
				file = dir
				text = "directory"
			case "malformed":
				text = []string{"a: [1, 2", "a: \"x", "a: b: c\n", "{a: 1", "a: *nowhere\n", "- 1\n- 2\n", "just text\n", "42\n", "\"quoted\"\n", "a: 1\n b: 2\n", "a: 'x\n", "? [a", "a: !!int abc def: x\n", "key: |\n- x\n y", "\xff\xfe\xfd", "a: \x01\n", "[]\n", "true\n", "a: 1\n}\n", "@a: 1\n"}[c.Intn(20)]
			case "duplicate":
				n := root.Kids[c.Intn(len(root.Kids))]
				_ = n
				text = []string{"zz: 1\nzz: 2\n", "{zz: 1, zz: 2}\n", "zz: 1\n\"zz\": 1\n"}[c.Intn(3)]
				// a repeated key of a field, as no value can satisfy both
				k := yamlKey(root)
				if k == "" {
					kind, text, want = "none", "", map[string]string{}
				} else {
					text = strings.ReplaceAll(text, "zz", k)
					text = strings.ReplaceAll(text, "1", "~")
					text = strings.ReplaceAll(text, "2", "~")
				}
			}
			if kind != "missing file" && kind != "directory" {
				if err := os.WriteFile(file, []byte(text), 0o600); err != nil {
					panic(err)
				}
			}
			args = append(args, confgen.Arg(c.Rand, yamlFlag, file, false)...)
		}
		for _, n := range ok {
			if c.Intn(5) == 0 && !(kind == "env" && n == bad) {
				x := confgen.Val(c.Rand, n.Kind, false)
				if strings.ContainsRune(x.Text, 0) {
					continue
				}
				env[n.Env()] = x.Text
				want[n.Flag()] = fmt.Sprintf("%#v", x.V)
			}
		}
		for _, n := range ok {
			if c.Intn(5) == 0 && !(kind == "flag" && n == bad) {
				x := confgen.Val(c.Rand, n.Kind, false)
				args = append(args, confgen.Arg(c.Rand, n.Flag(), x.Text, n.Kind.Kind() == reflect.Bool)...)
				want[n.Flag()] = fmt.Sprintf("%#v", x.V)
			}
		}
		insert := func(a ...string) {
			// at a place where a flag is expected: in front or at the end
			if c.Intn(2) == 0 {
				args = append(a, args...)
			} else {
				args = append(args, a...)
			}
		}
		switch kind {
		case "flag":
			if bad.Kind.Kind() == reflect.Bool || c.Intn(2) == 0 {
				insert("-" + bad.Flag() + "=" + badText)
			} else {
				insert("--"+bad.Flag(), badText)
			}
		case "env":
			env[bad.Env()] = badText
		case "unknown flag":
			f := nearMiss(c, root, names)
			insert([]string{"-", "--"}[c.Intn(2)] + f + []string{"", "=1"}[c.Intn(2)])
		case "missing argument":
			var n *confgen.Node
			for _, k := range ok {
				if k.Kind.Kind() != reflect.Bool {
					n = k
				}
			}
			switch {
			case n != nil:
				args = append(args, "-"+n.Flag())
			case yamlFlag != "":
				args = append(args, "-"+yamlFlag)
			default:
				kind = "none"
			}
		case "none":
			if c.Intn(4) == 0 {
				args = append(args, "--", "-not-a-flag=1")
			}
		}
		out, code, hung := run(o, args, env)
		loaded := strings.Contains(out, "\nLOADED {")
		d := func(what string) interface{} {
			o := out
			if len(o) > 3000 {
				o = o[:3000]
			}
			return map[string]interface{}{"what": what, "wrong": kind, "type": root.Describe(), "args": fmt.Sprintf("%q", args), "env": fmt.Sprintf("%q", env), "yaml": text, "output": o, "status": code}
		}
		switch {
		case hung:
			c.Violate("loading hangs", d(""))
		case kind == "none":
			if !loaded || code != 0 {
				c.Violate("valid configuration is refused", d(""))
				break
			}
			got := map[string]string{}
			i := strings.Index(out, "\nLOADED ")
			if err := json.Unmarshal([]byte(strings.TrimSpace(out[i+8:])), &got); err != nil {
				panic(err)
			}
			for _, n := range ok {
				w, in := want[n.Flag()]
				if !in {
					w = fmt.Sprintf("%#v", reflect.Zero(n.Kind).Interface())
				}
				if g := got[n.Flag()]; g != w && !sameNumber(g, w) {
					c.Violate("a name does not set exactly its field", d(fmt.Sprintf("%s is %s, want %s", n.Flag(), g, w)))
					break
				}
			}
		case loaded:
			c.Violate("bad input is accepted: "+kind, d(""))
		case code != 2:
			c.Violate("bad input ends the program with another status than 2: "+kind, d(""))
		case strings.Contains(out, "goroutine ") && strings.Contains(out, "panic"):
			c.Violate("bad input makes loading panic: "+kind, d(""))
		case strings.TrimSpace(out) == "":
			c.Violate("bad input ends the program silently: "+kind, d(""))
		}
		vk.Count("wrong: "+kind, 1)
		if c.Index < 24 {
			c.Sample(d(""))
		}
		c.Observed(fmt.Sprint(kind, root.Describe(), args, env, text))
	})
}

func sameNumber(a, b string) bool {
	x, e1 := strconv.ParseFloat(a, 64)
	y, e2 := strconv.ParseFloat(b, 64)
	return e1 == nil && e2 == nil && x == 0 && y == 0
}

// yamlKey is a key the top-level mapping decodes into.
func yamlKey(root *confgen.Node) string {
	for _, k := range root.Kids {
		if !k.Inline && (k.OK || k.Kind == nil) && !strings.ContainsAny(k.Yaml, " \"") && k.Yaml != "y" && k.Yaml != "n" {
			return k.Yaml
		}
	}
	return ""
}
