// Monitor of P13: domains and conversions of the value processors.
package p13

import (
	"crypto/rsa"
	"crypto/x509"
	"fmt"
	"math"
	"math/big"
	"net/url"
	"strings"
	"testing"
	"time"

	"github.com/chanjarster/gears/confstore"
	"verif/harness/keys"
	"verif/harness/vk"
)

func TestMain(m *testing.M) { vk.Main(m, "P13") }

type verdict int

const (
	no verdict = iota
	yes
	either // the domain is not settled by the text alone
)

// subject is one processor with an independent description of its domain.
type subject struct {
	name string
	p    confstore.ValueProcessor
	// want tells whether v is in the domain and, if it is, checks what it was converted to
	want func(v string) (verdict, func(x interface{}) string)
}

func exact(want interface{}) func(x interface{}) string {
	return func(x interface{}) string {
		if x != want {
			return fmt.Sprintf("converted to %T %v, want %T %v", x, x, want, want)
		}
		return ""
	}
}

func same(v string) func(x interface{}) string { return exact(v) }

// refInt is what a decimal text denotes.
func refInt(v string) (*big.Int, bool) {
	d := v
	if d != "" && (d[0] == '+' || d[0] == '-') {
		d = d[1:]
	}
	if d == "" {
		return nil, false
	}
	for i := 0; i < len(d); i++ {
		if d[i] < '0' || d[i] > '9' {
			return nil, false
		}
	}
	n := new(big.Int)
	n.SetString(d, 10)
	if v[0] == '-' {
		n.Neg(n)
	}
	return n, n.IsInt64()
}

var units = map[string]int64{"ns": 1, "us": 1e3, "µs": 1e3, "μs": 1e3, "ms": 1e6, "s": 1e9, "m": 60e9, "h": 3600e9}

// refDur is the length a duration text denotes, in nanoseconds.
func refDur(v string) (r *big.Rat, parts int, ok bool) {
	neg := false
	if v != "" && (v[0] == '+' || v[0] == '-') {
		neg = v[0] == '-'
		v = v[1:]
	}
	if v == "0" {
		return new(big.Rat), 0, true
	}
	if v == "" {
		return nil, 0, false
	}
	r = new(big.Rat)
	for v != "" {
		i := 0
		for i < len(v) && v[i] >= '0' && v[i] <= '9' {
			i++
		}
		whole := v[:i]
		frac := ""
		v = v[i:]
		if v != "" && v[0] == '.' {
			i = 1
			for i < len(v) && v[i] >= '0' && v[i] <= '9' {
				i++
			}
			frac = v[1:i]
			v = v[i:]
		}
		if whole == "" && frac == "" {
			return nil, 0, false
		}
		i = 0
		for i < len(v) && v[i] != '.' && (v[i] < '0' || v[i] > '9') {
			i++
		}
		u, in := units[v[:i]]
		if !in {
			return nil, 0, false
		}
		v = v[i:]
		x, good := new(big.Rat).SetString("0" + whole + "." + frac + "0")
		if !good {
			panic("number " + whole + "." + frac)
		}
		r.Add(r, x.Mul(x, new(big.Rat).SetInt64(u)))
		parts++
	}
	if neg {
		r.Neg(r)
	}
	return r, parts, true
}

func wantDur(v string) (verdict, func(interface{}) string) {
	r, parts, ok := refDur(v)
	if !ok {
		return no, nil
	}
	lo, hi := new(big.Rat).SetInt64(math.MinInt64), new(big.Rat).SetInt64(math.MaxInt64)
	tol := new(big.Rat).SetInt64(int64(2 * parts))
	// time.ParseDuration itself wraps when terms of 2^63 ns add up to 2^64
	two := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 64))
	if abs := new(big.Rat).Abs(r); parts > 1 && abs.Cmp(two.Sub(two, tol)) >= 0 {
		return either, func(interface{}) string { return "" }
	}
	if new(big.Rat).Sub(r, tol).Cmp(hi) > 0 || new(big.Rat).Add(r, tol).Cmp(lo) < 0 {
		return no, nil
	}
	res := yes
	if new(big.Rat).Add(r, tol).Cmp(hi) > 0 || new(big.Rat).Sub(r, tol).Cmp(lo) < 0 {
		res = either
		if r.IsInt() && !strings.Contains(v, ".") && r.Cmp(hi) <= 0 && r.Cmp(lo) >= 0 {
			res = yes
		}
	}
	return res, func(x interface{}) string {
		d, isD := x.(time.Duration)
		if !isD {
			return fmt.Sprintf("converted to %T", x)
		}
		diff := new(big.Rat).Sub(r, new(big.Rat).SetInt64(int64(d)))
		if diff.Abs(diff); (strings.Contains(v, ".") && diff.Cmp(tol) > 0) || (!strings.Contains(v, ".") && diff.Sign() != 0) {
			return fmt.Sprintf("converted to %d ns, want %s", int64(d), r.FloatString(3))
		}
		return ""
	}
}

// wantURL: what can be requested, as the standard library defines it.
func wantURL(str bool) func(v string) (verdict, func(interface{}) string) {
	return func(v string) (verdict, func(interface{}) string) {
		if str {
			if v == "" {
				return yes, same(v)
			}
			if _, err := url.ParseRequestURI(v); err != nil {
				return no, nil
			}
			return yes, same(v)
		}
		if v == "" {
			return yes, func(x interface{}) string {
				if u, ok := x.(*url.URL); !ok || u != nil {
					return fmt.Sprintf("converted to %T %v, want a nil *url.URL", x, x)
				}
				return ""
			}
		}
		w, err := url.ParseRequestURI(v)
		if err != nil {
			return no, nil
		}
		return yes, func(x interface{}) string {
			u, ok := x.(*url.URL)
			if !ok || u == nil {
				return fmt.Sprintf("converted to %T %v", x, x)
			}
			if *w != *u && (w.String() != u.String() || fmt.Sprintf("%#v", w.User) != fmt.Sprintf("%#v", u.User)) {
				return fmt.Sprintf("converted to %v", u)
			}
			return ""
		}
	}
}

func wantCSS(v string) (verdict, func(interface{}) string) {
	if v == "" {
		return yes, same(v)
	}
	if len(v) != 7 || v[0] != '#' {
		return no, nil
	}
	for _, b := range []byte(v[1:]) {
		if !strings.ContainsRune("0123456789abcdefABCDEF", rune(b)) || b > 127 {
			return no, nil
		}
	}
	return yes, same(v)
}

// known texts of keys, filled by the generator
type known struct {
	v    verdict
	priv *rsa.PrivateKey
	pub  *rsa.PublicKey
}

var texts = map[string]known{}

func wantKey(v string) (verdict, func(interface{}) string) {
	k, in := texts[v]
	if !in {
		panic("unknown key text")
	}
	return k.v, func(x interface{}) string {
		switch w := x.(type) {
		case *rsa.PrivateKey:
			if k.v == yes && (w == nil || k.priv == nil || !k.priv.Equal(w)) {
				return "converted to another private key"
			}
			if k.v == either && w == nil {
				return "converted to nil"
			}
		case *rsa.PublicKey:
			if k.v == yes && (w == nil || k.pub == nil || !k.pub.Equal(w)) {
				return "converted to another public key"
			}
			if k.v == either && w == nil {
				return "converted to nil"
			}
		default:
			return fmt.Sprintf("converted to %T", x)
		}
		return ""
	}
}

func wantNil(zero interface{}) func(x interface{}) string {
	return func(x interface{}) string {
		if x != zero {
			return fmt.Sprintf("converted to %T %v, want a nil %T", x, x, zero)
		}
		return ""
	}
}

func wantPriv(v string) (verdict, func(interface{}) string) {
	if v == "" {
		return yes, wantNil((*rsa.PrivateKey)(nil))
	}
	return wantKey(v)
}

func wantPub(v string) (verdict, func(interface{}) string) {
	if v == "" {
		return yes, wantNil((*rsa.PublicKey)(nil))
	}
	return wantKey(v)
}

func wantString(lo, hi int) func(string) (verdict, func(interface{}) string) {
	return func(v string) (verdict, func(interface{}) string) {
		if len(v) < lo || len(v) > hi {
			return no, nil
		}
		return yes, same(v)
	}
}

func wantInt(lo int, loIn bool, hi int, hiIn bool) func(string) (verdict, func(interface{}) string) {
	return func(v string) (verdict, func(interface{}) string) {
		n, ok := refInt(v)
		if !ok {
			return no, nil
		}
		a, b := n.Cmp(big.NewInt(int64(lo))), n.Cmp(big.NewInt(int64(hi)))
		if a < 0 || b > 0 || (a == 0 && !loIn) || (b == 0 && !hiIn) {
			return no, nil
		}
		return yes, exact(int(n.Int64()))
	}
}

func wantBool(v string) (verdict, func(interface{}) string) {
	switch v {
	case "true":
		return yes, exact(true)
	case "false":
		return yes, exact(false)
	}
	return no, nil
}

func pick(c *vk.Case, s ...string) string { return s[c.Intn(len(s))] }

func randBytes(c *vk.Case, n int) string {
	b := make([]byte, c.Intn(n+1))
	c.Read(b)
	return string(b)
}

func digits(c *vk.Case, n int) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteByte(byte('0' + c.Intn(10)))
	}
	return sb.String()
}

// mutate makes one small change.
func mutate(c *vk.Case, v string) string {
	alphabet := []string{"0", "1", "9", "a", "F", "g", "#", " ", "\n", "\t", "-", "+", ".", "_", "\x00", "é", "x", "h", "ms", "/", ":", "%", "e"}
	a := alphabet[c.Intn(len(alphabet))]
	if v == "" {
		return a
	}
	i := c.Intn(len(v))
	switch c.Intn(6) {
	case 0:
		return v[:i] + a + v[i:]
	case 1:
		return v[:i] + v[i+1:]
	case 2:
		return v[:i] + a + v[i+1:]
	case 3:
		return a + v
	case 4:
		return v + a
	}
	return v + v
}

func genInt(c *vk.Case, lo, hi int) string {
	switch c.Intn(8) {
	case 0:
		return fmt.Sprint(lo + c.Intn(3) - 1)
	case 1:
		return fmt.Sprint(hi + c.Intn(3) - 1)
	case 2:
		return pick(c, "", "+", "-", "0", "-0", "+0", "00", "007", "0x10", "1_000", "1e3", "1.0", " 1", "1 ", "1\n", "١", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "+9223372036854775807", "99999999999999999999", "00000000000000000000000005", "-00000000000000000000000000005", "2147483647", "2147483648", "-2147483648", "-2147483649", "0b1", "0o7")
	case 3:
		return pick(c, "", "-", "+", "0", "-0") + digits(c, 1+c.Intn(21))
	case 4:
		return randBytes(c, 5)
	case 5:
		if hi > lo && hi-lo > 0 {
			return fmt.Sprint(lo + int(c.Int63n(int64(hi-lo))))
		}
	}
	return pick(c, "", "-", "+") + digits(c, 1+c.Intn(4))
}

func genDur(c *vk.Case) string {
	var sb strings.Builder
	sb.WriteString(pick(c, "", "", "", "-", "+"))
	us := []string{"ns", "us", "µs", "μs", "ms", "s", "m", "h"}
	switch c.Intn(6) {
	case 0:
		return pick(c, "0", "-0", "+0", "", "1", "-", "+", ".", "s", ".s", "1.s", ".5s", "1d", "1w", "1 s", "1s ", " 1s", "1S", "00s", "1e3s", "0x1s", "2562047h47m16.854775807s", "-2562047h47m16.854775808s", "2562047h47m16.854775808s", "-2562047h47m16.854775809s", "9223372036854775807ns", "9223372036854775808ns", "-9223372036854775808ns", "-9223372036854775809ns", "9223372036854.775807ms", "9223372036.854775808s", "1h1h1h", "1ns2h", "0.3333333333333333333h", "0.9223372036854775807h", "1.0000000000000000000000001s", "100000000000000000000s", "0.100000000000000000000h", "0.9999999999999999999999s", "3000000h", "-3000000h", "1ms1", "5m5", "-1h-1m", "1h -1m")
	case 1:
		sb.WriteString(digits(c, 1+c.Intn(20)) + us[c.Intn(8)])
	default:
		for k := 1 + c.Intn(4); k > 0; k-- {
			sb.WriteString(digits(c, c.Intn(5)))
			if c.Intn(3) == 0 {
				sb.WriteString("." + digits(c, c.Intn(12)))
			}
			sb.WriteString(us[c.Intn(8)])
		}
	}
	return sb.String()
}

func genURL(c *vk.Case) string {
	if c.Intn(5) == 0 {
		return pick(c, "", "/", "*", "foo", "foo/bar", "//host/x", "http:", "http://", "http:///x", "://x", "1http://x", "http://h:x", "http://h:99999/", "http://[::1]:80/p", "http://[::1", "http://a b/", "http://h/%zz", "http://h/%20?q=a b", "http://h/\x7f", "http://h/#frag", "/a?b=c#d", "mailto:x@y", "HTTP://H/", "http://u:p@h/", "http://u:p%20@h/", "http://ü.example/ü", "javascript:alert(1)", "data:,x", "c:\\x", "\n", " http://h", "http://h\n", "tcp://1.2.3.4:5", "unix:///a/b", "#f", "?q", ".", "..", "http://h?q", "http://h/;p")
	}
	s := pick(c, "http", "https", "ftp", "ws", "a+b-c.d", "") + pick(c, "://", "://", "://", ":", "/")
	s += pick(c, "", "u@", "u:p@", "u:%70@") + pick(c, "example.com", "localhost", "127.0.0.1", "[fe80::1]", "", "a_b", "xn--x") + pick(c, "", ":80", ":0", ":", ":a")
	s += pick(c, "", "/", "/a/b", "/%41", "/a%2Fb", "/ä", "/a b", "/..;/") + pick(c, "", "?", "?a=b&c", "?%zz", "?a=b c") + pick(c, "", "#f")
	return s
}

func genCSS(c *vk.Case) string {
	v := "#"
	for i := 0; i < 6; i++ {
		v += string("0123456789abcdefABCDEFgGzZ-"[c.Intn(22+c.Intn(2)*c.Intn(6))])
	}
	switch c.Intn(6) {
	case 0:
		return mutate(c, v)
	case 1:
		return pick(c, "", "#", "#fff", "#ffffff\n", "\n#ffffff", "x#ffffff", "#ffffffff", "##ffffff", "ffffff", " #ffffff", "#ffffff ", "#ﬀffff", "#12345", "#1234567", "color: #ffffff;", "#fffff\u00e9", "#\u0661\u0661\u0661")
	case 2:
		return mutate(c, mutate(c, v))
	}
	return v
}

func genKey(c *vk.Case, priv bool) (string, string) {
	k := keys.Private[c.Intn(len(keys.Private))]
	typ, der := keys.PubType, keys.PubDER(&k.PublicKey)
	if priv {
		typ, der = keys.PrivType, x509.MarshalPKCS1PrivateKey(k)
	}
	switch c.Intn(6) {
	case 0:
		return "", "empty"
	case 1:
		s, form := keys.Armoured(c.Rand, typ, der)
		texts[s] = known{yes, k, &k.PublicKey}
		return s, form
	case 2:
		s, form := keys.Bare(c.Rand, der)
		texts[s] = known{yes, k, &k.PublicKey}
		return s, form
	}
	s, why, sure := keys.Bad(c.Rand, typ, der)
	v := no
	if !sure {
		v = either
	}
	if _, in := texts[s]; !in && s != "" {
		texts[s] = known{v: v}
	}
	return s, why
}

func make1(c *vk.Case) (subject, []string) {
	var vals []string
	n := 20
	gen := func(f func() string) []string {
		for i := 0; i < n; i++ {
			v := f()
			vals = append(vals, v)
			if c.Intn(3) == 0 {
				vals = append(vals, mutate(c, v))
			}
		}
		return vals
	}
	switch c.Intn(10) {
	case 0:
		lo, hi := c.Intn(5), c.Intn(12)
		s := subject{fmt.Sprintf("StringProcessor(%d,%d)", lo, hi), confstore.StringProcessor(lo, hi), wantString(lo, hi)}
		if c.Intn(4) == 0 {
			s = subject{"String", confstore.String, wantString(0, math.MaxInt32)}
		}
		return s, gen(func() string {
			if c.Intn(3) == 0 {
				return strings.Repeat("é", c.Intn(8))
			}
			if c.Intn(20) == 0 {
				return strings.Repeat("x", 100000)
			}
			return randBytes(c, hi+3)
		})
	case 1:
		return subject{"Bool", confstore.Bool, wantBool}, gen(func() string {
			return pick(c, "true", "false", "", "True", "TRUE", "t", "f", "1", "0", "yes", "true ", " true", "false\n", "truefalse", randBytes(c, 5))
		})
	case 2, 3:
		lims := []int{0, 1, -1, 5, 100, -100, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64}
		lo, hi := lims[c.Intn(len(lims))], lims[c.Intn(len(lims))]
		if c.Intn(2) == 0 && lo < 1000 && lo > -1000 {
			hi = lo + c.Intn(4) - 1
		}
		li, hin := c.Intn(2) == 0, c.Intn(2) == 0
		s := subject{fmt.Sprintf("IntProcessor(%d,%v,%d,%v)", lo, li, hi, hin), confstore.IntProcessor(lo, li, hi, hin), wantInt(lo, li, hi, hin)}
		switch c.Intn(8) {
		case 0:
			lo, hi = math.MinInt32, math.MaxInt32
			s = subject{"Int", confstore.Int, wantInt(lo, true, hi, true)}
		case 1:
			lo, hi = 0, math.MaxInt32
			s = subject{"IntGtZero", confstore.IntGtZero, wantInt(lo, false, hi, true)}
		case 2:
			lo, hi = 0, math.MaxInt32
			s = subject{"IntGtEqZero", confstore.IntGtEqZero, wantInt(lo, true, hi, true)}
		}
		return s, gen(func() string { return genInt(c, lo, hi) })
	case 4:
		return subject{"Duration", confstore.Duration, wantDur}, gen(func() string { return genDur(c) })
	case 5:
		return subject{"Url", confstore.Url, wantURL(false)}, gen(func() string { return genURL(c) })
	case 6:
		return subject{"UrlString", confstore.UrlString, wantURL(true)}, gen(func() string { return genURL(c) })
	case 7:
		return subject{"CssColorHex", confstore.CssColorHex, wantCSS}, gen(func() string { return genCSS(c) })
	case 8:
		priv := c.Intn(2) == 0
		n := 6
		for i := 0; i < n; i++ {
			v, _ := genKey(c, priv)
			vals = append(vals, v)
		}
		if priv {
			return subject{"RsaPrivateKeyPkcs1", confstore.RsaPrivateKeyPkcs1, wantPriv}, vals
		}
		return subject{"RsaPublicKey", confstore.RsaPublicKey, wantPub}, vals
	}
	pool := []string{"a", "b", "A", "", "dev", "prod", "a,b", " ", "é", "true", "%s"}
	in := map[string]bool{}
	var enums []string
	for k := c.Intn(5); k > 0; k-- {
		e := pool[c.Intn(len(pool))]
		enums = append(enums, e)
		in[e] = true
	}
	if c.Intn(12) == 0 { // the number of allowed values must not matter
		for k, n := 0, 20+c.Intn(700); k < n; k++ {
			e := fmt.Sprint("value", c.Intn(5000))
			enums = append(enums, e)
			in[e] = true
			if c.Intn(10) == 0 {
				pool = append(pool, e)
			}
		}
		pool = append(pool, "value", "value5001", enums[len(enums)-1])
	}
	return subject{fmt.Sprintf("EnumProcessor(%q)", enums), confstore.EnumProcessor(enums), func(v string) (verdict, func(interface{}) string) {
		if in[v] {
			return yes, same(v)
		}
		return no, nil
	}}, gen(func() string { return pool[c.Intn(len(pool))] })
}

func TestProcessors(t *testing.T) {
	vk.Rule("processors: every processor of the package, the parametrised ones with random and extreme parameters, against texts from a grammar of its domain, boundary lists, single edits of valid texts, random bytes, and a pool of RSA, EC, Ed25519, X25519 and DSA keys in every form and damaged; verdict, reason, type and value are compared with independent definitions (big integers, exact rationals, byte checks, ground truth by construction for keys); also end to end through a store; non-trivial when texts were both accepted and refused")
	vk.Cases("processors", vk.N(40000, 1500000), func(c *vk.Case) {
		texts = map[string]known{}
		s, vals := make1(c)
		acc, rej := 0, 0
		for i, v := range vals {
			w, conv := s.want(v)
			bad := func(sig, what string) {
				c.Violate(sig+" ("+strings.SplitN(s.name, "(", 2)[0]+")", map[string]interface{}{"processor": s.name, "value": fmt.Sprintf("%q", clip(v)), "what": what})
			}
			var ok bool
			var reason string
			if p, panicked := vk.Catch(func() { ok, reason = s.p.Validate(v) }); panicked {
				bad("Validate panics", fmt.Sprint(p))
				return
			}
			if (w == yes && !ok) || (w == no && ok) {
				bad("a value is accepted or refused wrongly", fmt.Sprintf("accepted %v, reason %q", ok, reason))
				return
			}
			if ok != (reason == "") {
				bad("reason does not go with the verdict", fmt.Sprintf("accepted %v, reason %q", ok, reason))
			}
			if ok2, reason2 := s.p.Validate(v); ok2 != ok || (reason2 == "") != (reason == "") {
				bad("a second Validate differs", reason2)
			}
			if !ok {
				rej++
				continue
			}
			acc++
			var x interface{}
			if p, panicked := vk.Catch(func() { x = s.p.Convert(v) }); panicked {
				bad("Convert panics", fmt.Sprint(p))
				return
			}
			if msg := conv(x); msg != "" {
				bad("a value is converted wrongly", msg)
				return
			}
			if i == 0 { // end to end
				st := confstore.NewStore(confstore.NoopPersister, confstore.NoopLoadPolicy)
				if err := st.RegisterKey("k", v, s.p); err != nil {
					bad("the store refuses a valid default", err.Error())
					continue
				}
				y, hit := st.GetValue("k")
				if msg := conv(y); !hit || msg != "" {
					bad("the store serves another value", msg)
				}
			}
		}
		vk.Count("accepted", acc)
		vk.Count("refused", rej)
		vk.Count("processor:"+strings.SplitN(s.name, "(", 2)[0], len(vals))
		key := ""
		if acc > 0 && rej > 0 {
			key = s.name + fmt.Sprintf("%q", vals)
		}
		if c.Index < 4 {
			c.Sample(map[string]interface{}{"processor": s.name, "values": fmt.Sprintf("%.300q", vals)})
		}
		c.Observed(key)
	})
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

var colors = "0123456789abcdefABCDEFgG #\n"

func TestColours(t *testing.T) {
	vk.Rule("colours: every text made of one byte position changed through all 256 values in a valid colour, and every prefix/suffix byte; non-trivial each")
	vk.Cases("colours", vk.N(8, 64), func(c *vk.Case) {
		base := []byte("#a0B9fF")
		for i := 1; i < 7; i++ {
			base[i] = colors[c.Intn(22)]
		}
		for pos := 0; pos <= 7; pos++ {
			for b := 0; b < 256; b++ {
				for _, ins := range []bool{false, true} {
					v := append([]byte(nil), base...)
					if ins || pos == 7 {
						v = append(v[:pos:pos], append([]byte{byte(b)}, base[pos:]...)...)
					} else {
						v[pos] = byte(b)
					}
					w, _ := wantCSS(string(v))
					if ok, _ := confstore.CssColorHex.Validate(string(v)); ok != (w == yes) {
						c.Violate("a value is accepted or refused wrongly (CssColorHex)", fmt.Sprintf("%q accepted %v", v, ok))
						return
					}
				}
			}
		}
		c.Observed(string(base))
	})
}
