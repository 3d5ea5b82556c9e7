// Monitor of P21: printed configurations do not depend on credentials.
package p21

import (
	"bytes"
	"fmt"
	"log"
	"math"
	"reflect"
	"regexp"
	"strings"
	"testing"

	"github.com/chanjarster/gears/confs"
	"verif/harness/vk"
)

func TestMain(m *testing.M) { vk.Main(m, "P21") }

var types = []reflect.Type{
	reflect.TypeOf(confs.MysqlConf{}), reflect.TypeOf(confs.PostgresqlConf{}), reflect.TypeOf(confs.OracleConf{}), reflect.TypeOf(confs.RedisConf{}),
	reflect.TypeOf(confs.EsConf{}), reflect.TypeOf(confs.PprofConf{}), reflect.TypeOf(confs.FastHttpClientConf{}),
}

func secret(name string) bool { return name == "Username" || name == "Password" }

// holders nest configurations by pointer.
type holder struct {
	Name  string
	Mysql *confs.MysqlConf
	Pg    *confs.PostgresqlConf
	Ora   *confs.OracleConf
	Redis *confs.RedisConf
	Es    *confs.EsConf
	Pprof *confs.PprofConf
	Http  *confs.FastHttpClientConf
	Any   interface{}
}

func hostile(c *vk.Case) string {
	all := []string{"", " ", "%", "%s", "%!d", "%v%v", "a:b", "a,b", "{", "}", "\x00", "\xff\xfe", "é日本", "***", "Host: x, Port: 1", "\n", "${x}", "p@ss/w:rd?#&="}
	if c.Intn(2) == 0 {
		return all[c.Intn(len(all))]
	}
	b := make([]byte, c.Intn(20))
	for i := range b {
		b[i] = byte(c.Intn(256))
	}
	return string(b)
}

// fill gives every field that is not secret a value; plain values are
// recognisable in a printed text.
func fill(c *vk.Case, v reflect.Value, plain bool, used map[string]bool) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		for {
			switch f.Kind() {
			case reflect.String:
				if plain {
					f.SetString(fmt.Sprintf("v%dx", c.Intn(1e6)))
				} else {
					f.SetString(hostile(c))
				}
			case reflect.Bool:
				f.SetBool(c.Intn(2) == 0)
			case reflect.Int, reflect.Int64:
				x := int64(c.Intn(1e9) - 5e8)
				if !plain && c.Intn(2) == 0 {
					x = []int64{0, -1, math.MaxInt64, math.MinInt64}[c.Intn(4)]
				}
				f.SetInt(x)
			default:
				panic("field kind " + f.Kind().String())
			}
			s := fmt.Sprint(f.Interface())
			if !plain || f.Kind() == reflect.Bool || !used[s] {
				used[s] = true
				break
			}
		}
	}
}

func creds(c *vk.Case, v reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		if !secret(v.Type().Field(i).Name) {
			continue
		}
		s := hostile(c)
		if c.Intn(3) == 0 {
			// one that looks like another setting
			o := v.Field(c.Intn(v.NumField()))
			s = fmt.Sprint(o.Interface())
		}
		if c.Intn(4) == 0 {
			s = fmt.Sprintf("s3cr3t%d", c.Intn(1e6))
		}
		v.Field(i).SetString(s)
	}
}

// forms prints p (a pointer to a configuration) in every way the property is
// about. The i-th results of two calls are of the same form.
func forms(p interface{}) (names []string, out []string) {
	add := func(name, s string) { names, out = append(names, name), append(out, s) }
	add("String", p.(fmt.Stringer).String())
	for _, f := range []string{"%v", "%+v", "%s"} {
		add(f, fmt.Sprintf(f, p))
	}
	add("Sprint", fmt.Sprint(p))
	add("Sprintln", fmt.Sprintln("conf", p))
	add("Errorf", fmt.Errorf("bad conf %v", p).Error())
	var b bytes.Buffer
	log.New(&b, "", 0).Print(p)
	add("log", b.String())
	h := holder{Name: "n", Any: p}
	switch x := p.(type) {
	case *confs.MysqlConf:
		h.Mysql = x
	case *confs.PostgresqlConf:
		h.Pg = x
	case *confs.OracleConf:
		h.Ora = x
	case *confs.RedisConf:
		h.Redis = x
	case *confs.EsConf:
		h.Es = x
	case *confs.PprofConf:
		h.Pprof = x
	case *confs.FastHttpClientConf:
		h.Http = x
	}
	o := struct {
		N     int
		Inner holder
		List  []interface{}
		Map   map[string]interface{}
		Ptrs  [1]interface{}
	}{1, h, []interface{}{p, 1}, map[string]interface{}{"k": p}, [1]interface{}{p}}
	for _, f := range []string{"%v", "%+v", "%s"} {
		add("nested "+f, fmt.Sprintf(f, h))
		add("nested pointer "+f, fmt.Sprintf(f, &h))
		add("deep "+f, fmt.Sprintf(f, o))
	}
	return
}

var label = regexp.MustCompile(`(\w+):`)

func TestPrint(t *testing.T) {
	vk.Rule("print: every config type with random settings (recognisable or hostile) printed in 17 forms under two unrelated credentials (also ones equal to other settings or empty); the forms must be equal pairwise, must not panic, and every setting they name must be followed by its value; distinct by type and settings, non-trivial with two different credentials (or, without credentials, all)")
	vk.Cases("print", vk.N(40000, 2000000), func(c *vk.Case) {
		typ := types[c.Index%len(types)]
		plain := c.Intn(2) == 0
		a, b := reflect.New(typ), reflect.New(typ)
		fill(c, a.Elem(), plain, map[string]bool{})
		creds(c, a.Elem())
		b.Elem().Set(a.Elem())
		creds(c, b.Elem())
		d := func(f string, x ...interface{}) interface{} {
			return map[string]interface{}{"what": fmt.Sprintf(f, x...), "type": typ.Name(), "fields": fmt.Sprintf("%#v", a.Interface())}
		}
		var na, fa, fb []string
		if p, bad := vk.Catch(func() { na, fa = forms(a.Interface()); _, fb = forms(b.Interface()) }); bad {
			c.Violate("printing panics", d("%v", p))
			return
		}
		for i := range fa {
			if strings.Contains(fa[i], "(PANIC=") && !strings.Contains(fmt.Sprintf("%q", fmt.Sprintf("%#v", a.Interface())), "PANIC") {
				c.Violate("printing panics", d("%s: %q", na[i], fa[i]))
				return
			}
			if fa[i] != fb[i] {
				c.Violate("printing depends on credentials", d("%s: %q with one and %q with other credentials %#v", na[i], fa[i], fb[i], b.Interface()))
				return
			}
		}
		if plain {
			v := a.Elem()
			for _, m := range label.FindAllStringSubmatchIndex(fa[0], -1) {
				name := fa[0][m[2]:m[3]]
				f, ok := typ.FieldByName(name)
				if !ok || secret(name) {
					continue
				}
				want := fmt.Sprint(v.FieldByIndex(f.Index).Interface())
				rest := strings.TrimLeft(fa[0][m[1]:], " ")
				if !strings.HasPrefix(rest, want) || len(rest) > len(want) && !strings.ContainsAny(rest[len(want):len(want)+1], ",} ") {
					c.Violate("a printed setting does not show its value", d("%s is %s in %q", name, want, fa[0]))
					return
				}
				vk.Count("settings checked", 1)
			}
		}
		vk.Count("forms compared", len(fa))
		if c.Index < 7 {
			c.Sample(fa[0])
		}
		key := fmt.Sprintf("%#v", a.Interface())
		if _, has := typ.FieldByName("Password"); has && a.Elem().FieldByName("Password").String() == b.Elem().FieldByName("Password").String() {
			key = ""
		}
		c.Observed(key)
	})
}
