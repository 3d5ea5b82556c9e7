// Monitor of P07: sharing, isolation, IsBlocked agreement and fail-open of the
// redis TTL limiter.
package p07

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/chanjarster/gears/ratelimiter"
	"github.com/go-redis/redis/v7"
	"verif/harness/fakeredis"
	"verif/harness/vk"
)

func TestMain(m *testing.M) { vk.Main(m, "P07") }

func show(r *ratelimiter.Result) string {
	if r == nil {
		return "nil"
	}
	return fmt.Sprintf("{block:%v triggered:%v ttl:%d msg:%q}", r.Block, r.Triggered, r.Ttl, r.Msg)
}

func client(srv *fakeredis.Server, retries int) *redis.Client {
	return redis.NewClient(&redis.Options{Dialer: srv.Dial, PoolSize: 256, MaxRetries: retries, IdleCheckFrequency: -1,
		MinRetryBackoff: time.Millisecond, MaxRetryBackoff: 2 * time.Millisecond, ReadTimeout: 3 * time.Second, WriteTimeout: 3 * time.Second})
}

var names = []string{"a", "b", "ab", "user:1", "user:2", "键", "sp ace", "x\x00y", "A", ":", "1", "01", "%s", "rl:a", "a:b", "bl", ":b", "a{1}", "b{2}c", "{", "x{}", "}{", "%7B", "{1}",
	strings.Repeat("long", 300) + "1", strings.Repeat("long", 300) + "2", strings.Repeat("l", 3000), strings.Repeat("l", 3001)}

type lim struct {
	tag     string // "" plain
	cluster bool
	p       [3]int
}

func (l lim) make(cl *redis.Client) ratelimiter.TtlRateLimiter {
	p := ratelimiter.NewFixedTtlRateLimiterParams(l.p[0], l.p[1], l.p[2])
	if l.cluster {
		return ratelimiter.NewRedisTtlRateLimiterCluster(cl, p, l.tag)
	}
	return ratelimiter.NewRedisTtlRateLimiter(cl, p)
}

type op struct {
	at   time.Duration
	lim  int
	key  string
	bk   string
	msg  string
	is   bool // IsBlocked
	how  int
	twin bool // IsBlocked directly followed by ShouldBlock at the same instant
}

func do(l ratelimiter.TtlRateLimiter, ctx context.Context, o op) (r *ratelimiter.Result, p interface{}) {
	v, bad := vk.Catch(func() {
		switch {
		case o.is && o.how%2 == 0:
			r = l.IsBlocked(o.bk)
		case o.is:
			r = l.IsBlockedContext(ctx, o.bk)
		case o.how == 0 && o.key == o.bk:
			r = l.ShouldBlock(o.key, o.msg)
		case o.how == 1 && o.key == o.bk:
			r = l.ShouldBlockContext(ctx, o.key, o.msg)
		case o.how == 2:
			r = l.ShouldBlock2Context(ctx, o.key, o.bk, o.msg)
		default:
			r = l.ShouldBlock2(o.key, o.bk, o.msg)
		}
	})
	if bad {
		return nil, fmt.Sprint("panic: ", v)
	}
	return r, nil
}

func toMinute() {
	now := time.Now()
	time.Sleep(now.Truncate(time.Minute).Add(2 * time.Minute).Sub(now))
}

func TestMix(t *testing.T) {
	vk.Rule("mix: several limiters (plain, cluster with different and with braced tags) on one redis, several request keys per block key, ShouldBlock* and IsBlocked* calls at random virtual instants; the results of each (limiter namespace, block key) group must equal those of a run with that group alone and without IsBlocked calls; IsBlocked must agree with a ShouldBlock at the same instant; KEYS of every script call must share the tag's slot and scripts must touch declared keys only; non-trivial when at least two groups triggered blocks and IsBlocked saw both answers")
	vk.Cases("mix", vk.N(2400, 60000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) { mix(c) })
	})
}

func mix(c *vk.Case) {
	perm := c.Perm(len(names))
	nl := 1 + c.Intn(4)
	tags := []string{"", "t", "{u}", "tag-2"}
	tp := c.Perm(4)
	lims := make([]lim, nl)
	for i := range lims {
		lims[i] = lim{tag: tags[tp[i]], cluster: tags[tp[i]] != "", p: [3]int{1 + c.Intn(3), 1 + c.Intn(6), 1 + c.Intn(6)}}
	}
	nbk := 1 + c.Intn(3)
	nkey := 1 + c.Intn(5)
	self := c.Intn(3) == 0
	keyOf := make([]string, nkey)
	bkOf := make([]string, nkey)
	for i := range keyOf {
		keyOf[i] = names[perm[i]]
		bkOf[i] = names[perm[c.Intn(nbk)]] // block keys may equal other request keys
		if self {
			bkOf[i] = keyOf[i]
		}
	}
	var ops []op
	at := time.Duration(c.Intn(1000)) * time.Millisecond
	for i, n := 0, 10+c.Intn(50); i < n; i++ {
		if c.Intn(3) == 0 {
			at += time.Duration(c.Intn(2500)) * time.Millisecond
		} else if c.Intn(6) == 0 {
			at += time.Duration(c.Intn(9000)) * time.Millisecond
		}
		k := c.Intn(nkey)
		o := op{at: at, lim: c.Intn(nl), key: keyOf[k], bk: bkOf[k], msg: fmt.Sprintf("m%d", i), how: c.Intn(4)}
		if c.Intn(30) == 0 {
			o.msg += strings.Repeat(" and more", c.Intn(3000)) + "."
		}
		switch c.Intn(6) {
		case 0:
			o.is = true
			ops = append(ops, o)
			continue
		case 1, 2:
			is := o
			is.is, is.twin = true, true
			ops = append(ops, is)
		}
		ops = append(ops, o)
	}
	run := func(sel func(o op) bool) ([]*ratelimiter.Result, *fakeredis.Server, interface{}) {
		toMinute()
		srv := fakeredis.New()
		cl := client(srv, -1)
		defer srv.Close()
		defer cl.Close()
		ratelimiter.LoadScript(cl)
		srv.ResetLog()
		ls := make([]ratelimiter.TtlRateLimiter, nl)
		for i := range ls {
			ls[i] = lims[i].make(cl)
		}
		t0 := time.Now()
		res := make([]*ratelimiter.Result, len(ops))
		for i, o := range ops {
			if !sel(o) {
				continue
			}
			if d := t0.Add(o.at).Sub(time.Now()); d > 0 {
				time.Sleep(d)
			}
			r, p := do(ls[o.lim], context.Background(), o)
			if p != nil {
				return nil, srv, p
			}
			if r == nil {
				return nil, srv, "nil result"
			}
			res[i] = r
		}
		return res, srv, nil
	}
	describe := func(res ...[]*ratelimiter.Result) []string {
		var out []string
		for i, o := range ops {
			s := fmt.Sprintf("%v lim%d(tag %q) key=%q bk=%q is=%v msg=%q:", o.at, o.lim, lims[o.lim].tag, o.key, o.bk, o.is, o.msg)
			for _, r := range res {
				s += " " + show(r[i])
			}
			out = append(out, s)
		}
		return out
	}
	all, srv, p := run(func(op) bool { return true })
	if p != nil {
		c.Violate("panic or nil result", map[string]interface{}{"what": p, "lims": fmt.Sprint(lims)})
		return
	}
	// keys on the wire
	var touched [][]string // by the script whose record follows
	for _, cmd := range srv.Log() {
		n := strings.ToUpper(cmd.Args[0])
		if cmd.Script {
			touched = append(touched, cmd.Args)
			continue
		}
		if n == "EVALSHA" || n == "EVAL" {
			declared := map[string]bool{}
			slot := ""
			for i, k := range cmd.Keys() {
				declared[k] = true
				s := tagOf(k)
				if i > 0 && s != slot && hasCluster(lims, slot, s) {
					c.Violate("keys of one call in different slots", cmd.Args)
					return
				}
				slot = s
			}
			for _, a := range touched {
				if len(a) > 1 && !declared[a[1]] {
					c.Violate("script touches an undeclared key", map[string]interface{}{"script call": cmd.Args, "touched": a})
					return
				}
			}
			vk.Count("script calls", 1)
		}
		touched = nil
	}
	// per cluster limiter: its own calls carry the tag
	if sig, what := tagCheck(lims); sig != "" {
		c.Violate(sig, what)
		return
	}
	sawBlocked, sawFree := 0, 0
	for i, o := range ops {
		r := all[i]
		if o.is {
			if r.Triggered || (!r.Block && *r != (ratelimiter.Result{})) || (r.Block && r.Ttl <= 0) {
				c.Violate("IsBlocked result is not legal", map[string]interface{}{"op": i, "trace": describe(all)})
				return
			}
			if r.Block {
				sawBlocked++
			} else {
				sawFree++
			}
		}
		if !o.twin {
			continue
		}
		s := all[i+1]
		agree := false
		if r.Block {
			agree = s.Block && !s.Triggered && s.Ttl == r.Ttl && s.Msg == r.Msg
		} else {
			agree = !s.Block || s.Triggered
		}
		if !agree {
			c.Violate("IsBlocked disagrees with ShouldBlock at the same instant", map[string]interface{}{"op": i, "isBlocked": show(r), "shouldBlock": show(s), "trace": describe(all)})
			return
		}
	}
	// isolation
	type grp struct {
		lim int
		bk  string
	}
	groups := map[grp]bool{}
	var order []grp
	for _, o := range ops {
		g := grp{o.lim, o.bk}
		if !groups[g] {
			groups[g] = true
			order = append(order, g)
		}
	}
	trig := 0
	for _, g := range order {
		alone, _, p := run(func(o op) bool { return !o.is && o.lim == g.lim && o.bk == g.bk })
		if p != nil {
			c.Violate("panic or nil result", map[string]interface{}{"what": p})
			return
		}
		hit := false
		for i, o := range ops {
			if alone[i] == nil {
				continue
			}
			hit = hit || alone[i].Triggered
			if *alone[i] != *all[i] {
				c.Violate("a call was influenced by another limiter, another block key or IsBlocked", map[string]interface{}{
					"op": i, "what": fmt.Sprintf("%+v", o), "alone": show(alone[i]), "mixed": show(all[i]), "lims": fmt.Sprintf("%+v", lims), "trace(mixed, alone)": describe(all, alone)})
				return
			}
		}
		// sharing: after a trigger every key of the block key is blocked for the timeout
		var until time.Duration = -1
		var msg string
		for i, o := range ops {
			r := alone[i]
			if r == nil {
				continue
			}
			if r.Triggered {
				until, msg = o.at+time.Duration(lims[g.lim].p[2])*time.Second, o.msg
				continue
			}
			if o.at < until-time.Millisecond && (!r.Block || r.Msg != msg) {
				c.Violate("a key sharing the block key was not blocked, or with another message", map[string]interface{}{"op": i, "got": show(r), "trace": describe(alone)})
				return
			}
		}
		if hit {
			trig++
		}
	}
	key := ""
	if trig > 1 && sawBlocked > 0 && sawFree > 0 {
		key = fmt.Sprint(lims, ops)
	}
	vk.Count("groups", len(order))
	vk.Count("groups that triggered", trig)
	vk.Count("IsBlocked blocked", sawBlocked)
	vk.Count("IsBlocked free", sawFree)
	c.Sample(map[string]interface{}{"lims": fmt.Sprintf("%+v", lims), "trace": describe(all)[:min(len(ops), 10)]})
	c.Observed(key)
}

// tagOf is the hash tag of a key as redis cluster defines it, or the key.
func tagOf(k string) string {
	i := strings.Index(k, "{")
	if i < 0 {
		return k
	}
	j := strings.Index(k[i+1:], "}")
	if j <= 0 {
		return k
	}
	return "{" + k[i+1:i+1+j] + "}"
}

func hasCluster(l []lim, a, b string) bool {
	for _, x := range l {
		if x.cluster {
			t := "{" + strings.Trim(x.tag, "{}") + "}"
			if t == a || t == b {
				return true
			}
		}
	}
	return false
}

var tagDone = map[string]bool{}

// tagCheck runs each kind of call of a cluster limiter alone and looks at the
// keys that were sent.
func tagCheck(lims []lim) (string, interface{}) {
	for _, l := range lims {
		if !l.cluster || tagDone[l.tag] {
			continue
		}
		srv := fakeredis.New()
		cl := client(srv, -1)
		ratelimiter.LoadScript(cl)
		srv.ResetLog()
		x := l.make(cl)
		ctx := context.Background()
		x.ShouldBlock("k", "m")
		x.ShouldBlock2("k", "b", "m")
		x.ShouldBlockContext(ctx, "k", "m")
		x.ShouldBlock2Context(ctx, "k", "b", "m")
		x.IsBlocked("b")
		x.IsBlockedContext(ctx, "b")
		x.ShouldBlock2("k{1}", "b{2}", "m")
		x.ShouldBlock2("{k", "b{}", "m")
		x.IsBlocked("b{2}")
		log := srv.Log()
		cl.Close()
		srv.Close()
		want := "{" + strings.Trim(l.tag, "{}") + "}"
		n := 0
		for _, cmd := range log {
			if cmd.Script || !strings.HasPrefix(strings.ToUpper(cmd.Args[0]), "EVAL") {
				continue
			}
			n++
			for _, k := range cmd.Keys() {
				if tagOf(k) != want {
					return "a key of a cluster limiter does not hash by the configured tag", map[string]interface{}{"tag": l.tag, "command": fmt.Sprintf("%q", cmd.Args)}
				}
			}
		}
		if n != 9 {
			return "unexpected number of script calls", n
		}
		tagDone[l.tag] = true
		vk.Count("tag checks", 1)
	}
	return "", nil
}

func TestFaults(t *testing.T) {
	vk.Rule("faults: calls while redis answers errors, drops the connection before or after executing, sends bytes that are not RESP, stays silent beyond the read timeout, refuses connections, has lost its scripts (NOSCRIPT), holds keys of a foreign type, or is closed; also with contexts cancelled or past their deadline before the call; on free, nearly exhausted and blocked keys: the result must be the pass result and nothing may panic; afterwards, with redis healthy again, the blocked key must be blocked again")
	vk.Cases("faults", vk.N(2000, 40000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) { faults(c) })
	})
}

var kinds = []string{"error", "noscript", "dropBefore", "dropAfter", "garbage", "silent", "refuse", "serverClosed", "clientClosed", "foreignType", "cancelled", "deadline", "truncated", "scriptError"}

func faults(c *vk.Case) {
	srv := fakeredis.New()
	srv.NoLog = true
	retries := -1
	if c.Intn(3) == 0 {
		retries = 2
	}
	cl := client(srv, retries)
	defer srv.Close()
	defer cl.Close()
	ratelimiter.LoadScript(cl)
	l := lim{cluster: c.Intn(2) == 0, tag: "t", p: [3]int{1 + c.Intn(2), 50, 1000}}
	x := l.make(cl)
	state := c.Intn(3)
	for i := 0; i < l.p[0]+state-1; i++ { // 0: cap-1 or none used, 1: exhausted, 2: blocked
		x.ShouldBlock2("k", "b", "msg")
	}
	kind := kinds[c.Intn(len(kinds))]
	ctx := context.Background()
	cancel := func() {}
	var mu sync.Mutex
	fault := fakeredis.Fault{}
	srv.OnCommand = func(args []string) fakeredis.Fault { mu.Lock(); defer mu.Unlock(); return fault }
	set := func(f fakeredis.Fault) { mu.Lock(); fault = f; mu.Unlock() }
	texts := []string{"ERR oops", "LOADING Redis is loading the dataset in memory", "READONLY You can't write against a read only replica.", "OOM command not allowed", "MOVED 3999 127.0.0.1:1", "CLUSTERDOWN The cluster is down", "NOSCRIPT No matching script. Please use EVAL.", "BUSY Redis is busy running a script"}
	noscript := false
	switch kind {
	case "error":
		set(fakeredis.Fault{Kind: fakeredis.ErrorReply, Text: texts[c.Intn(len(texts))]})
	case "scriptError":
		set(fakeredis.Fault{Kind: fakeredis.ErrorReply, Text: "ERR Error running script (call to f_0): @user_script:1: boom"})
	case "noscript":
		srv.Do(0, "SCRIPT", "FLUSH")
		noscript = true
	case "dropBefore":
		set(fakeredis.Fault{Kind: fakeredis.DropBefore})
	case "dropAfter":
		set(fakeredis.Fault{Kind: fakeredis.DropAfter})
	case "garbage":
		set(fakeredis.Fault{Kind: fakeredis.Raw, Text: []string{"\x00\xff\r\n", "hello\r\n", "?\r\n", "\r\n", "$abc\r\n"}[c.Intn(5)]})
	case "truncated":
		set(fakeredis.Fault{Kind: fakeredis.Raw, Text: []string{"*4\r\n:1\r\n", "*4\r\n:1\r\n:0\r\n:5\r\n$10\r\nabc", "*", "$"}[c.Intn(4)]})
	case "silent":
		set(fakeredis.Fault{Kind: fakeredis.Delay, Wait: 20 * time.Second})
	case "refuse":
		srv.RefuseDial = true
		srv.KillConns()
	case "serverClosed":
		srv.Close()
	case "clientClosed":
		cl.Close()
	case "foreignType":
		suffix := ""
		if l.cluster {
			suffix = "{t}"
		}
		// the stored history, or the block key, was overwritten by something else
		if c.Intn(2) == 0 {
			srv.Do(0, "DEL", "b:bl"+suffix)
			srv.Do(0, "SET", "_rl:k"+suffix, "foreign")
		} else {
			srv.Do(0, "DEL", "b:bl"+suffix)
			srv.Do(0, "RPUSH", "b:bl"+suffix, "x")
		}
	case "cancelled":
		cc, f := context.WithCancel(ctx)
		f()
		ctx = cc
	case "deadline":
		cc, f := context.WithDeadline(ctx, time.Now().Add(-time.Second))
		ctx, cancel = cc, f
	}
	defer cancel()
	n := 1 + c.Intn(3)
	for i := 0; i < n; i++ {
		o := op{key: "k", bk: "b", msg: "other", how: 2, is: c.Intn(3) == 0}
		if o.is {
			o.how = 1
		}
		if kind != "cancelled" && kind != "deadline" && c.Intn(2) == 0 {
			o.how = 4 - o.how // the forms without a context
			if o.is {
				o.how = 0
			} else {
				o.how = 3
			}
		}
		if kind == "foreignType" && o.is && srv.Do(0, "EXISTS", "b:bl"+map[bool]string{true: "{t}", false: ""}[l.cluster]) == 0 {
			continue
		}
		r, p := do(x, ctx, o)
		what := map[string]interface{}{"fault": kind, "cluster": l.cluster, "state": state, "call": fmt.Sprintf("%+v", o), "retries": retries}
		if p != nil {
			what["panic"] = p
			c.Violate("panic while redis failed", what)
			return
		}
		if r == nil || *r != (ratelimiter.Result{}) {
			what["got"] = show(r)
			c.Violate("not the pass result although redis failed or the context was cancelled", what)
			return
		}
		vk.Count("failed calls that passed", 1)
	}
	// recovery
	switch kind {
	case "serverClosed", "clientClosed", "foreignType":
	default:
		set(fakeredis.Fault{})
		srv.RefuseDial = false
		if noscript {
			ratelimiter.LoadScript(cl)
		}
		if retries == -1 { // stale pooled connections may fail once each
			for i := 0; i < 20 && cl.Ping().Err() != nil; i++ {
			}
		}
		if state == 2 {
			r, p := do(x, context.Background(), op{key: "k", bk: "b", msg: "z", how: 3})
			if p != nil || r == nil || !r.Block || r.Triggered || r.Msg != "msg" {
				c.Violate("a blocked key is not blocked any more after redis recovered", map[string]interface{}{"fault": kind, "got": show(r), "panic": p})
				return
			}
			vk.Count("recoveries", 1)
		}
	}
	c.Observed(fmt.Sprint(kind, state, l, n, retries))
}

func TestParallel(t *testing.T) {
	vk.Rule("parallel: goroutines call ShouldBlock2 and IsBlocked on several block keys at once at one instant: per block key at most one trigger, everything after it on that key carries its message, keys of other block keys only their own limits; non-trivial when a block was triggered in the burst")
	vk.Cases("parallel", vk.N(1000, 20000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) { parallel(c) })
	})
}

func parallel(c *vk.Case) {
	srv := fakeredis.New()
	srv.NoLog = true
	cl := client(srv, -1)
	defer srv.Close()
	defer cl.Close()
	ratelimiter.LoadScript(cl)
	l := lim{cluster: c.Intn(2) == 0, tag: "t", p: [3]int{1 + c.Intn(4), 5, 7}}
	x := l.make(cl)
	nb := 2 + c.Intn(3)
	per := 1 + c.Intn(6)
	kk := 1 + c.Intn(2)
	type res struct {
		key int
		is  bool
		msg string
		r   *ratelimiter.Result
		p   interface{}
	}
	out := make([][]res, nb)
	var mu sync.Mutex
	var wg sync.WaitGroup
	for b := 0; b < nb; b++ {
		for j := 0; j < per; j++ {
			key, is, msg, how := c.Intn(kk), c.Intn(5) == 0, fmt.Sprintf("%d.%d", b, j), 2+c.Intn(2)
			wg.Add(1)
			go func() {
				defer wg.Done()
				r, p := do(x, context.Background(), op{key: fmt.Sprintf("k%d.%d", b, key), bk: fmt.Sprintf("b%d", b), msg: msg, how: how, is: is})
				mu.Lock()
				out[b] = append(out[b], res{key, is, msg, r, p})
				mu.Unlock()
			}()
		}
	}
	wg.Wait()
	any := ""
	for b := range out {
		var msg string
		trig, blocked := 0, 0
		passes := map[int]int{}
		calls := map[int]int{}
		for _, r := range out[b] {
			if r.p != nil || r.r == nil {
				c.Violate("panic or nil result in parallel calls", fmt.Sprint(r.p))
				return
			}
			switch {
			case r.r.Triggered:
				trig++
				msg = r.r.Msg
				if msg != r.msg {
					c.Violate("the triggering call carries another message", show(r.r))
					return
				}
			case r.r.Block:
				blocked++
			case !r.is:
				passes[r.key]++
			}
			if !r.is {
				calls[r.key]++
			}
		}
		if trig > 1 || (trig == 0 && blocked > 0) {
			c.Violate("parallel calls: a block must have exactly one trigger", fmt.Sprint(trig, blocked))
			return
		}
		over := false
		for k, n := range calls {
			if passes[k] > l.p[0] {
				c.Violate("parallel calls: more than capacity passed", fmt.Sprint(passes[k], l.p[0]))
				return
			}
			if n > l.p[0] {
				over = true
			}
		}
		if over != (trig == 1) {
			c.Violate("parallel calls: the block was not triggered exactly when a key of the block key exceeded its capacity", fmt.Sprint("over ", over, " triggers ", trig))
			return
		}
		for _, r := range out[b] {
			if r.r.Block && (r.r.Msg != msg || r.r.Ttl != l.p[2]) {
				c.Violate("parallel calls: a blocked call carries another message or ttl", show(r.r)+" want "+msg)
				return
			}
		}
		if trig > 0 {
			any = "t"
		}
	}
	if any != "" {
		any = fmt.Sprint(l, nb, per, kk, c.Index)
	}
	c.Observed(any)
}
