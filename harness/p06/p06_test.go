// Monitor of P06: the redis TTL limiter against a model of its contract, in
// virtual time, over the in-memory redis.
package p06

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/chanjarster/gears/ratelimiter"
	"github.com/go-redis/redis/v7"
	"verif/harness/fakeredis"
	"verif/harness/vk"
)

func TestMain(m *testing.M) { vk.Main(m, "P06") }

type params struct{ cap, win, exp int }

func (p *params) GetWindowSizeSeconds() int { return p.win }
func (p *params) GetCapacity() int          { return p.cap }
func (p *params) GetTimeoutSeconds() int    { return p.exp }

// keyState is what the model remembers of one request key.
type keyState struct {
	passes []time.Time // every pass, in order
	mem    []time.Time // passes the limiter must still remember
}

type blockState struct {
	until time.Time
	msg   string
}

type step struct {
	At   string `json:"at"`
	Op   string `json:"op"`
	Got  string `json:"got"`
	Note string `json:"note,omitempty"`
}

func show(r *ratelimiter.Result) string {
	if r == nil {
		return "nil"
	}
	return fmt.Sprintf("{block:%v triggered:%v ttl:%d msg:%q}", r.Block, r.Triggered, r.Ttl, r.Msg)
}

var keyNames = []string{"a", "b", "user:1", "user:2", "键", "with space", "x\x00y", "UPPER", "upper", "a:", ":a", "\"q\"", "%s", strings.Repeat("long", 300) + "1", strings.Repeat("long", 300) + "2"}
var msgs = []string{"", "m", "too many requests", "消息", "a\r\nb", "nul\x00", "{\"j\":1}", "%d", "0", strings.Repeat("long message ", 900) + "."}

func TestHistory(t *testing.T) {
	vk.Rule("history: random capacity/window/timeout, up to 5 request keys over up to 3 block keys, call instants placed around the window edge, the block's end and the expiry of the stored list (with sub-second offsets), parameters changed between calls (also to non-positive), single calls and parallel bursts at one instant; every Result is compared with the model; non-trivial when a block was triggered and a key passed again after it")
	vk.Cases("history", vk.N(3000, 120000), func(c *vk.Case) {
		synctest.Test(t, func(t *testing.T) { history(c) })
	})
}

func history(c *vk.Case) {
	srv := fakeredis.New()
	srv.NoLog = true
	cl := redis.NewClient(&redis.Options{Dialer: srv.Dial, PoolSize: 256, MaxRetries: -1, IdleCheckFrequency: -1})
	defer srv.Close()
	defer cl.Close()
	ratelimiter.LoadScript(cl)
	p := &params{1 + c.Intn(5), 1 + c.Intn(8), 1 + c.Intn(8)}
	switch c.Intn(9) {
	case 4: // hours to years
		p.win, p.exp = 3600+c.Intn(4000000), 3600+c.Intn(4000000)
		if c.Intn(3) == 0 {
			p.win = 1 + c.Intn(10)
		} else if c.Intn(3) == 0 {
			p.exp = 300000000 + c.Intn(10)
		}
	case 0:
		p.win = 10 + c.Intn(90) // window much longer than timeout
		p.exp = 1 + c.Intn(3)
	case 1:
		p.exp = 10 + c.Intn(90)
		p.win = 1 + c.Intn(3)
	case 2:
		p.cap = 1
	case 3:
		p.cap = 6 + c.Intn(20)
		if c.Intn(6) == 0 {
			p.cap = 100 + c.Intn(300)
			if c.Intn(3) == 0 {
				p.cap = 1000 + c.Intn(3000)
			}
		}
	}
	var l ratelimiter.TtlRateLimiter
	cluster := c.Intn(2) == 0
	if cluster {
		l = ratelimiter.NewRedisTtlRateLimiterCluster(cl, p, []string{"t", "{t}", "tag-1", ""}[c.Intn(4)])
	} else {
		l = ratelimiter.NewRedisTtlRateLimiter(cl, p)
	}
	nb, nk := 1+c.Intn(3), 1+c.Intn(5)
	perm := c.Perm(len(keyNames))
	keys := make([]string, nk)
	blk := make([]string, nk)
	own := c.Intn(2) == 0
	for i := range keys {
		keys[i] = keyNames[perm[i]]
		blk[i] = keyNames[perm[len(perm)-1-i%nb]]
		if own {
			blk[i] = keys[i]
		}
	}
	ks := map[string]*keyState{}
	bs := map[string]*blockState{}
	for i := range keys {
		ks[keys[i]] = &keyState{}
		bs[blk[i]] = &blockState{}
	}
	start := time.Now()
	time.Sleep(time.Duration(c.Intn(1000)) * time.Millisecond)
	var trace []step
	triggers, passAfter, bursts, expired := 0, 0, 0, 0
	fail := func(sig, note string) {
		lo := len(trace) - 40
		if lo < 0 {
			lo = 0
		}
		c.Violate(sig, map[string]interface{}{"note": note, "cluster": cluster, "keys": fmt.Sprintf("%q", keys), "blockKeys": fmt.Sprintf("%q", blk),
			"params": fmt.Sprintf("cap=%d win=%d exp=%d", p.cap, p.win, p.exp), "trace": trace[lo:]})
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	call := func(k int, msg string, how int) *ratelimiter.Result {
		switch {
		case how == 0 && keys[k] == blk[k]:
			return l.ShouldBlock(keys[k], msg)
		case how == 1 && keys[k] == blk[k]:
			return l.ShouldBlockContext(ctx, keys[k], msg)
		case how == 2:
			return l.ShouldBlock2Context(ctx, keys[k], blk[k], msg)
		}
		return l.ShouldBlock2(keys[k], blk[k], msg)
	}
	// blockedAt tells whether the block key is blocked: 1 yes, 0 no, -1 at its very end
	blockedAt := func(b *blockState, now time.Time) int {
		d := b.until.Sub(now)
		switch {
		case b.until.IsZero() || d < -time.Millisecond:
			return 0
		case d > time.Millisecond:
			return 1
		}
		return -1
	}
	// avail: how many more calls of the key surely pass (min) and may pass (max)
	avail := func(k *keyState, now time.Time) (int, int) {
		in := func(ts []time.Time, d time.Duration, incl bool) int {
			n := 0
			for _, t := range ts {
				if age := now.Sub(t); age < d || (incl && age <= d) {
					n++
				}
			}
			return n
		}
		win := time.Duration(p.win) * time.Second
		min := p.cap - in(k.passes, win+time.Second, true)
		mem := k.mem
		if len(mem) > p.cap {
			mem = mem[len(mem)-p.cap:]
		}
		max := p.cap - in(mem, win, false)
		if min < 0 {
			min = 0
		}
		if max < 0 {
			max = 0
		}
		return min, max
	}
	legal := func(r *ratelimiter.Result) bool {
		if r == nil {
			return false
		}
		if !r.Block {
			return !r.Triggered && r.Ttl == 0 && r.Msg == ""
		}
		return r.Ttl > 0
	}
	pass := func(k *keyState, now time.Time) {
		k.passes = append(k.passes, now)
		k.mem = append(k.mem, now)
	}
	n := 10 + c.Intn(40)
	for i := 0; i < n; i++ {
		k := c.Intn(nk)
		K, B := ks[keys[k]], bs[blk[k]]
		now := time.Now()
		// choose the next instant
		var d time.Duration
		switch c.Intn(12) {
		case 0, 1, 2, 3:
		case 4:
			d = B.until.Sub(now) + time.Duration(2+c.Intn(400))*time.Millisecond
		case 5:
			d = B.until.Sub(now) - time.Duration(2+c.Intn(1400))*time.Millisecond
		case 6:
			if len(K.passes) > 0 {
				d = K.passes[c.Intn(len(K.passes))].Add(time.Duration(p.win)*time.Second).Sub(now) - time.Duration(1+c.Intn(999))*time.Millisecond
			}
		case 7:
			if len(K.passes) > 0 {
				d = K.passes[c.Intn(len(K.passes))].Add(time.Duration(p.win)*time.Second).Sub(now) + time.Duration(1001+c.Intn(300))*time.Millisecond
			}
		case 8:
			d = time.Duration(c.Intn(2500)) * time.Millisecond
		case 9:
			d = time.Duration(c.Intn(2*(p.win+p.exp)*1000+1)) * time.Millisecond
		case 10:
			d = time.Duration(2*p.exp)*time.Second + time.Duration(c.Intn(1500))*time.Millisecond
		case 11:
			d = time.Duration(1+c.Intn(p.win*1000+1)) * time.Millisecond
		}
		if d > 0 && d < time.Hour {
			time.Sleep(d)
			now = time.Now()
		}
		switch c.Intn(14) {
		case 0:
			p.cap = 1 + c.Intn(6)
		case 1:
			p.exp = 1 + c.Intn(12)
		case 2:
			if p.win > 1 {
				p.win = 1 + c.Intn(p.win) // only ever shrinks, see DESIGN
			}
		case 3:
			// non-positive parameters let everything pass
			save := *p
			switch c.Intn(3) {
			case 0:
				p.cap = -c.Intn(2)
			case 1:
				p.win = -c.Intn(2)
			case 2:
				p.exp = -c.Intn(2)
			}
			r := call(k, "x", c.Intn(4))
			trace = append(trace, step{now.Sub(start).String(), fmt.Sprintf("ShouldBlock %q with cap=%d win=%d exp=%d", keys[k], p.cap, p.win, p.exp), show(r), ""})
			if r == nil || *r != (ratelimiter.Result{}) {
				fail("a non-positive parameter did not let the request pass", "")
				return
			}
			*r = ratelimiter.Result{Block: true, Triggered: true, Ttl: 1, Msg: "the caller's own"}
			*p = save
		}
		if l.GetCapacity() != p.cap || l.GetWindowSizeSeconds() != p.win || l.GetTimeoutSeconds() != p.exp {
			fail("parameter getters do not follow the parameters", "")
			return
		}
		size := 1
		if c.Intn(3) == 0 {
			size = 1 + c.Intn(p.cap+3)
		}
		minA, maxA := avail(K, now)
		bl := blockedAt(B, now)
		res := make([]*ratelimiter.Result, size)
		ms := make([]string, size)
		for j := range ms {
			ms[j] = msgs[c.Intn(len(msgs))]
			if c.Intn(2) == 0 {
				ms[j] = fmt.Sprintf("m%d.%d", i, j)
			}
		}
		par := size > 1 && c.Intn(2) == 0
		how := c.Intn(4)
		if par {
			bursts++
			var wg sync.WaitGroup
			for j := range res {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if v, bad := vk.Catch(func() { res[j] = call(k, ms[j], how) }); bad {
						fail("panic", fmt.Sprint(v))
					}
				}()
			}
			wg.Wait()
		} else {
			for j := range res {
				if v, bad := vk.Catch(func() { res[j] = call(k, ms[j], how) }); bad {
					fail("panic", fmt.Sprint(v))
					return
				}
			}
		}
		passes, trig, others := 0, -1, 0
		for j, r := range res {
			trace = append(trace, step{now.Sub(start).String(), fmt.Sprintf("key %q block %q msg %q cap=%d win=%d exp=%d burst %d/%d par=%v", keys[k], blk[k], ms[j], p.cap, p.win, p.exp, j+1, size, par), show(r),
				fmt.Sprintf("model: blocked=%d avail=%d..%d", bl, minA, maxA)})
		}
		for j, r := range res {
			if !legal(r) {
				fail("result is not one of the legal combinations", show(r))
				return
			}
			switch {
			case !r.Block:
				passes++
				if !par && (trig >= 0 || others > 0) {
					fail("a request passed although its block key was blocked", show(r))
					return
				}
			case r.Triggered:
				if trig >= 0 {
					fail("two requests triggered the same block", show(r))
					return
				}
				trig = j
				if r.Msg != ms[j] || r.Ttl != p.exp {
					fail("the triggering request does not carry the timeout and its own message", show(r))
					return
				}
			default:
				others++
			}
		}
		wasBlocked := false
		switch {
		case bl == 1 || (bl == -1 && passes == 0 && trig < 0):
			wasBlocked = true
			if passes > 0 || trig >= 0 {
				fail("a blocked key let a request pass or triggered again before the timeout", fmt.Sprintf("block lasts another %v", B.until.Sub(now)))
				return
			}
		default:
			if passes < minA && passes < size {
				fail("a request was blocked though the key had capacity left and no block was set", fmt.Sprintf("passes %d, at least %d expected", passes, minA))
				return
			}
			if passes > maxA {
				fail("more than capacity requests passed within the window", fmt.Sprintf("passes %d, at most %d allowed", passes, maxA))
				return
			}
			if passes < size && trig < 0 {
				fail("a request over the limit did not trigger the block", "")
				return
			}
		}
		for _, r := range res {
			if r.Block && !r.Triggered {
				msg, left := B.msg, B.until.Sub(now)
				if !wasBlocked {
					msg, left = res[trig].Msg, time.Duration(p.exp)*time.Second
				}
				lo, hi := int(left/time.Second), int((left+time.Second-1)/time.Second)
				if lo < 1 {
					lo = 1
				}
				if hi < 1 {
					hi = 1
				}
				if r.Msg != msg {
					fail("a blocked request does not carry the message of the triggering one", fmt.Sprintf("got %q want %q", r.Msg, msg))
					return
				}
				if r.Ttl < lo || r.Ttl > hi {
					fail("ttl of a blocked request is not the remaining time", fmt.Sprintf("got %d, remaining %v", r.Ttl, left))
					return
				}
			}
		}
		if !wasBlocked {
			if triggers > 0 && passes > 0 {
				passAfter++
			}
			// the call trims what is remembered to the capacity
			if len(K.mem) > p.cap {
				K.mem = K.mem[len(K.mem)-p.cap:]
			}
			for j := 0; j < passes; j++ {
				pass(K, now)
			}
			if len(K.mem) > p.cap {
				K.mem = K.mem[len(K.mem)-p.cap:]
			}
			if trig >= 0 {
				triggers++
				B.until, B.msg = now.Add(time.Duration(p.exp)*time.Second), res[trig].Msg
			}
		}
		if len(K.passes) > 4000 {
			K.passes = K.passes[2000:]
		}
		_ = expired
	}
	key := ""
	if triggers > 0 && passAfter > 0 {
		key = fmt.Sprint(trace)
	}
	vk.Count("triggers", triggers)
	vk.Count("passes after a block", passAfter)
	vk.Count("parallel bursts", bursts)
	vk.Count("calls", len(trace))
	c.Sample(map[string]interface{}{"params": fmt.Sprint(*p), "cluster": cluster, "trace": trace[:min(len(trace), 12)]})
	c.Observed(key)
}
