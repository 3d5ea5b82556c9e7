// Monitor of P26: the same redis scripts run with and without the tracing
// hook; replies, wire commands and reported spans.
package p26

import (
	"context"
	"errors"
	"fmt"
	"net"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/SkyAPM/go2sky"
	hook "github.com/chanjarster/gears/skywalking/redis"
	"github.com/go-redis/redis/v7"
	"verif/harness/fakeredis"
	"verif/harness/spans"
	"verif/harness/vk"
)

func TestMain(m *testing.M) { vk.Main(m, "P26") }

// call is one traced call as a neighbouring hook sees it.
type call struct {
	lane     int
	pipe     bool
	names    []string
	secrets  []string // arguments
	errs     []string // of the commands, after the call
	nils     bool     // the only errors are nil replies
	finished bool
}

type laneKey struct{}

// spy is a hook of our own.
type spy struct {
	mu    sync.Mutex
	calls []*call
}

type callKey struct{}

func (s *spy) begin(ctx context.Context, pipe bool, cmds []redis.Cmder) context.Context {
	k := &call{pipe: pipe}
	k.lane, _ = ctx.Value(laneKey{}).(int)
	for _, c := range cmds {
		k.names = append(k.names, c.Name())
		for _, a := range c.Args()[1:] {
			if t := fmt.Sprint(a); strings.HasPrefix(t, "secret") {
				k.secrets = append(k.secrets, t)
			}
		}
	}
	s.mu.Lock()
	s.calls = append(s.calls, k)
	s.mu.Unlock()
	return context.WithValue(ctx, callKey{}, k)
}

func (s *spy) end(ctx context.Context, cmds []redis.Cmder) error {
	k := ctx.Value(callKey{}).(*call)
	s.mu.Lock()
	defer s.mu.Unlock()
	k.finished, k.nils = true, true
	for _, c := range cmds {
		if err := c.Err(); err != nil {
			k.errs = append(k.errs, err.Error())
			k.nils = k.nils && err == redis.Nil
		}
	}
	return nil
}

func (s *spy) BeforeProcess(ctx context.Context, c redis.Cmder) (context.Context, error) {
	return s.begin(ctx, false, []redis.Cmder{c}), nil
}
func (s *spy) AfterProcess(ctx context.Context, c redis.Cmder) error {
	return s.end(ctx, []redis.Cmder{c})
}
func (s *spy) BeforeProcessPipeline(ctx context.Context, c []redis.Cmder) (context.Context, error) {
	return s.begin(ctx, true, c), nil
}
func (s *spy) AfterProcessPipeline(ctx context.Context, c []redis.Cmder) error {
	return s.end(ctx, c)
}

type step struct {
	kind string
	key  string
	val  string
	n    int
	cmds []step
}

var singles = []string{"get", "set", "incr", "lpush", "lrange", "hset", "hgetall", "mget", "del", "exists", "expire", "ttl", "do", "unknown", "eval", "sadd", "ping", "echo", "setnx", "wrong"}

func gen(c *vk.Case, lane int, depth int) step {
	s := step{key: fmt.Sprintf("secretkey:%d:%d", lane, c.Intn(4)), val: fmt.Sprintf("secretvalue:%d", c.Intn(1000)), n: c.Intn(100)}
	if depth == 0 && c.Intn(3) == 0 {
		s.kind = []string{"pipe", "tx", "watch", "empty pipe"}[c.Intn(4)]
		n := 1 + c.Intn(4)
		if c.Intn(100) == 0 { // the number of commands must not matter
			n = 30 + c.Intn(300)
		}
		for i := 0; i < n; i++ {
			s.cmds = append(s.cmds, gen(c, lane, 1))
		}
		return s
	}
	s.kind = singles[c.Intn(len(singles))]
	return s
}

// issue sends one command through a client, pipeline or transaction.
func issue(p redis.Cmdable, do func(...interface{}) *redis.Cmd, s step) redis.Cmder {
	switch s.kind {
	case "get":
		return p.Get(s.key)
	case "set":
		return p.Set(s.key, s.val, 0)
	case "setnx":
		return p.SetNX(s.key, s.val, time.Hour)
	case "incr":
		return p.Incr(s.key)
	case "lpush":
		return p.LPush(s.key, s.val, s.n)
	case "lrange":
		return p.LRange(s.key, 0, -1)
	case "hset":
		return p.HSet(s.key, "f", s.val)
	case "hgetall":
		return p.HGetAll(s.key)
	case "sadd":
		return p.SAdd(s.key, s.val)
	case "mget":
		return p.MGet(s.key, s.key+"x")
	case "del":
		return p.Del(s.key)
	case "exists":
		return p.Exists(s.key)
	case "expire":
		return p.Expire(s.key, time.Hour)
	case "ttl":
		return p.Persist(s.key)
	case "eval":
		return p.Eval("return redis.call('SET', KEYS[1], ARGV[1])", []string{s.key}, s.val)
	case "ping":
		return p.Ping()
	case "echo":
		return p.Echo(s.val)
	case "wrong":
		return p.LIndex(s.key, 0)
	case "do":
		return do("SeT", s.key, s.val)
	}
	return do("nosuchcommand", s.key, s.val)
}

func text(cmd redis.Cmder) string {
	return fmt.Sprintf("%s %v", cmd.String(), cmd.Err())
}

func errText(err error) string {
	if err == nil {
		return "nil"
	}
	return fmt.Sprintf("%T %v", err, err)
}

func exec(cl *redis.Client, s step) string {
	var out []string
	many := func(p redis.Pipeliner) ([]redis.Cmder, error) {
		for _, x := range s.cmds {
			issue(p, p.Do, x)
		}
		return p.Exec()
	}
	report := func(cmds []redis.Cmder, err error) {
		for _, c := range cmds {
			out = append(out, text(c))
		}
		out = append(out, errText(err))
	}
	switch s.kind {
	case "pipe":
		report(many(cl.Pipeline()))
	case "tx":
		report(many(cl.TxPipeline()))
	case "empty pipe":
		cmds, err := cl.Pipeline().Exec()
		report(cmds, err)
	case "watch":
		err := cl.Watch(func(tx *redis.Tx) error {
			out = append(out, text(tx.Get(s.key)))
			cmds, err := tx.TxPipelined(func(p redis.Pipeliner) error {
				for _, x := range s.cmds {
					issue(p, p.Do, x)
				}
				if s.n < 5 {
					return errors.New("given up")
				}
				return nil
			})
			report(cmds, err)
			return err
		}, s.key)
		out = append(out, errText(err))
	default:
		out = append(out, text(issue(cl, cl.Do, s)))
	}
	return strings.Join(out, " / ")
}

var expiry = regexp.MustCompile(`:[0-9]{13}`)

// wire is a connection whose deadlines never fail: setting one on a pipe closed
// by the server does, unlike on a socket, and when that is seen is a race.
type wire struct{ net.Conn }

func (w wire) SetDeadline(time.Time) error      { return nil }
func (w wire) SetReadDeadline(time.Time) error  { return nil }
func (w wire) SetWriteDeadline(time.Time) error { return nil }

func TestHook(t *testing.T) {
	vk.Rule("scripts of commands, pipelines and transactions with injected faults, run with and without the hook, 1..4 goroutines at once")
	vk.Cases("script", vk.N(8000, 120000), func(c *vk.Case) {
		lanes := 1
		if c.Intn(3) == 0 {
			lanes = 2 + c.Intn(3)
		}
		var scripts [][]step
		for l := 0; l < lanes; l++ {
			var s []step
			for i, n := 0, 1+c.Intn(8); i < n; i++ {
				s = append(s, gen(c, l, 0))
			}
			scripts = append(scripts, s)
		}
		// faults by lane and index of the command among those with a key of the lane
		faults := map[string]map[int]fakeredis.Fault{}
		kinds := []fakeredis.FaultKind{fakeredis.DropBefore, fakeredis.DropAfter}
		// a client that gives up on a pipeline does not wait until the
		// server has carried out the rest
		if text := fmt.Sprint(scripts); !strings.Contains(text, "{tx") && !strings.Contains(text, "{watch") {
			kinds = append(kinds, fakeredis.ErrorReply, fakeredis.ErrorReply)
			if !strings.Contains(text, "{pipe") {
				kinds = append(kinds, fakeredis.Garbage)
			}
		}
		// what a client still sends of a long pipeline after its connection was
		// dropped, is a race
		for _, sc := range scripts {
			for _, st := range sc {
				if len(st.cmds) >= 30 {
					kinds = []fakeredis.FaultKind{fakeredis.NoFault}
				}
			}
		}
		for l := 0; l < lanes; l++ {
			faults[strconv.Itoa(l)] = map[int]fakeredis.Fault{}
			if c.Intn(2) == 0 {
				for i, n := 0, 1+c.Intn(3); i < n; i++ {
					f := fakeredis.Fault{Kind: kinds[c.Intn(len(kinds))], Text: []string{"ERR boom", "LOADING Redis is loading the dataset in memory", "WRONGTYPE x", "READONLY You can't write"}[c.Intn(4)]}
					faults[strconv.Itoa(l)][c.Intn(10)] = f
				}
			}
		}
		refuse := c.Intn(20) == 0
		retries := -1
		if c.Intn(3) == 0 {
			retries = 2
		}
		db := c.Intn(3)
		mode := []string{"traced", "traced", "traced", "traced", "traced", "traced", "twice", "no peer", "unsampled", "nil"}[c.Intn(10)]
		// the context of each lane: no span, a caller's span, a noop span
		parents := make([]string, lanes)
		for l := range parents {
			parents[l] = []string{"none", "span", "span", "entry", "noop"}[c.Intn(5)]
		}
		logErr, args, withDb := c.Intn(2) == 0, c.Intn(2) == 0, c.Intn(3) != 0
		peer := "redis.test:6379"
		options := func(peer string) []hook.Option {
			var o []hook.Option
			if peer != "" {
				o = append(o, hook.WithAddr(peer))
			}
			if withDb {
				o = append(o, hook.WithDb(db))
			}
			if logErr {
				o = append(o, hook.WithLogError())
			}
			if args {
				o = append(o, hook.WithArgsReport())
			}
			c.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
			return o
		}
		var tr *go2sky.Tracer
		rep := &spans.Reporter{}
		switch mode {
		case "nil":
		case "unsampled":
			tr, _ = go2sky.NewTracer("p26", go2sky.WithReporter(rep), go2sky.WithInstance("x"), go2sky.WithSampler(0))
		default:
			tr, rep = spans.New("p26")
		}
		noop, _ := go2sky.NewTracer("noop")
		type result struct {
			replies [][]string
			wire    [][]string // by lane
			dump    string
			spy     *spy
			callers []go2sky.Span
		}
		run := func(traced bool) result {
			srv := fakeredis.New()
			var fmu sync.Mutex
			seen := map[string]int{}
			srv.RefuseDial = refuse
			srv.Drain = true // what a dropped connection still delivers is no race
			srv.OnCommand = func(a []string) fakeredis.Fault {
				for _, x := range a {
					if strings.HasPrefix(x, "secretkey:") {
						l := strings.Split(x, ":")[1]
						fmu.Lock()
						n := seen[l]
						seen[l]++
						fmu.Unlock()
						return faults[l][n]
					}
				}
				return fakeredis.Fault{}
			}
			cl := redis.NewClient(&redis.Options{Dialer: func(ctx context.Context, n, a string) (net.Conn, error) {
				c, err := srv.Dial(ctx, n, a)
				if err != nil {
					return nil, err
				}
				return wire{c}, nil
			}, DB: db, MaxRetries: retries, MinRetryBackoff: -1, MaxRetryBackoff: -1, ReadTimeout: time.Minute, PoolSize: lanes + 1, IdleCheckFrequency: -1})
			r := result{spy: &spy{}, replies: make([][]string, lanes), wire: make([][]string, lanes), callers: make([]go2sky.Span, lanes)}
			cl.AddHook(r.spy)
			if traced {
				p := peer
				if mode == "no peer" {
					p = ""
				}
				cl.AddHook(hook.NewHook(tr, options(p)...))
				if mode == "twice" {
					cl.AddHook(hook.NewHook(tr, options("second.test:1")...))
				}
			}
			var wg sync.WaitGroup
			for l := 0; l < lanes; l++ {
				ctx := context.WithValue(context.Background(), laneKey{}, l)
				if traced && tr != nil {
					var s go2sky.Span
					var err error
					switch parents[l] {
					case "span":
						s, ctx, err = tr.CreateLocalSpan(ctx, go2sky.WithOperationName("caller"))
					case "entry":
						s, ctx, err = tr.CreateEntrySpan(ctx, "caller", func(string) (string, error) { return "", nil })
					case "noop":
						_, ctx, err = noop.CreateLocalSpan(ctx, go2sky.WithOperationName("noop"))
					}
					if err != nil {
						panic(err)
					}
					if s != nil {
						s.SetOperationName("caller " + strconv.Itoa(l))
						s.Tag("mine", "1")
						r.callers[l] = s
					}
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, s := range scripts[l] {
						var out string
						p, bad := vk.Catch(func() { out = exec(cl.WithContext(ctx), s) })
						if bad {
							out = fmt.Sprint("panic: ", p)
						}
						r.replies[l] = append(r.replies[l], out)
						vk.Tick()
					}
				}()
			}
			wg.Wait()
			cl.Close()
			for _, k := range srv.Log() {
				if k.Script {
					continue
				}
				l := -1
				for _, x := range k.Args {
					if strings.HasPrefix(x, "secretkey:") {
						l, _ = strconv.Atoi(strings.Split(x, ":")[1])
					}
				}
				if l >= 0 {
					r.wire[l] = append(r.wire[l], fmt.Sprintf("db%d %q", k.DB, k.Args))
				} else if lanes == 1 {
					r.wire[0] = append(r.wire[0], fmt.Sprintf("db%d %q", k.DB, k.Args))
				}
			}
			r.dump = expiry.ReplaceAllString(fmt.Sprint(srv.Dump(db)), ":ttl")
			srv.Close()
			return r
		}
		plain := run(false)
		got := run(true)
		d := map[string]interface{}{"mode": mode, "lanes": lanes, "callers": parents, "log error": logErr, "args": args, "db option": withDb, "db": db, "retries": retries, "refuse": refuse, "scripts": fmt.Sprint(scripts), "faults": fmt.Sprint(faults)}
		for l := 0; l < lanes; l++ {
			if !reflect.DeepEqual(plain.replies[l], got.replies[l]) {
				d["without"], d["with"] = plain.replies[l], got.replies[l]
				c.Violate("commands have other outcomes with the hook", d)
				return
			}
			if !reflect.DeepEqual(plain.wire[l], got.wire[l]) {
				d["without"], d["with"] = plain.wire[l], got.wire[l]
				c.Violate("other commands are on the wire with the hook", d)
				return
			}
		}
		if plain.dump != got.dump {
			d["without"], d["with"] = plain.dump, got.dump
			c.Violate("the data differ with the hook", d)
			return
		}
		vk.Count(mode, len(got.spy.calls))
		// callers' spans are alive and are ended by us
		roots := 0
		for _, s := range got.callers {
			if s == nil {
				continue
			}
			if !s.IsValid() {
				c.Violate("the caller's own span was ended", d)
				return
			}
			s.Tag("mine", "2")
			s.End()
			if mode != "unsampled" {
				roots++
			}
		}
		var calls []*call
		for _, k := range got.spy.calls {
			if !k.finished {
				vk.Inconclusive("%s: a call did not finish", c.ID())
				return
			}
			if mode == "no peer" || mode == "nil" || mode == "unsampled" || parents[k.lane] == "noop" {
				continue
			}
			calls = append(calls, k)
			if got.callers[k.lane] == nil {
				roots++
			}
		}
		segs, ok := rep.Take(roots)
		if ok {
			time.Sleep(time.Millisecond)
			more, _ := rep.Take(0)
			segs = append(segs, more...)
		}
		var all, mine []spans.Span
		callers := map[int]spans.Span{}
		for _, g := range segs {
			for _, s := range g {
				if strings.HasPrefix(s.Op, "caller ") {
					l, _ := strconv.Atoi(s.Op[7:])
					if _, twice := callers[l]; twice {
						c.Violate("the caller's own span was reported twice", d)
					}
					callers[l] = s
					mine = append(mine, s)
				} else {
					all = append(all, s)
				}
			}
		}
		d["spans"] = fmt.Sprintf("%+v", all)
		per := 1
		if mode == "twice" {
			per = 2
		}
		if len(all) != per*len(calls) {
			c.Violate(fmt.Sprintf("%d spans reported for %d calls", len(all), len(calls)), d)
			return
		}
		for _, s := range mine {
			if fmt.Sprint(s.Tags) != "[{mine 1} {mine 2}]" || len(s.Logs) != 0 || s.IsError || s.Peer != "" || s.Component != 0 || s.Type == "Exit" {
				d["caller"] = fmt.Sprintf("%+v", s)
				c.Violate("the caller's own span was altered", d)
			}
		}
		// what each call must have left
		want := map[string]int{}
		gotSpans := map[string]int{}
		for _, k := range calls {
			parent := "-"
			if s, ok := callers[k.lane]; ok {
				parent = s.SegmentID + "/" + strconv.Itoa(int(s.SpanID))
			}
			for i := 0; i < per; i++ {
				w := peer
				if i == 1 {
					w = "second.test:1"
				}
				e := fmt.Sprint(len(k.errs) > 0)
				if k.nils && len(k.errs) > 0 {
					e = "nil"
				}
				if mode == "twice" {
					parent = "" // the second hook's span may be a child of the first's
				}
				want[fmt.Sprintf("%s peer %s parent %s error %s", strings.Join(k.names, "|"), w, parent, e)]++
			}
		}
		for _, s := range all {
			parent := "-"
			if s.ParentID >= 0 {
				parent = s.SegmentID + "/" + strconv.Itoa(int(s.ParentID))
			}
			if mode == "twice" {
				parent = ""
			}
			gotSpans[fmt.Sprintf("%s peer %s parent %s error %v", s.Op, s.Peer, parent, s.IsError)]++
			bad := func(sig string) { d["span"] = fmt.Sprintf("%+v", s); c.Violate(sig, d) }
			if s.Type != "Exit" || s.Layer != "Cache" {
				bad("the span is no exit span to a cache")
			}
			wantDb := ""
			if withDb {
				wantDb = strconv.Itoa(db)
			}
			if t := s.Tag("db.instance"); len(t) > 1 || len(t) == 1 && t[0] != wantDb || len(t) == 0 && withDb {
				bad("the span's db is wrong")
			}
			if t := s.Tag("db.type"); len(t) != 1 || !strings.EqualFold(t[0], "redis") {
				bad("the span's db type is wrong")
			}
			if s.End < s.Start {
				bad("the span ends before it starts")
			}
			logs := fmt.Sprint(s.Logs)
			tags := fmt.Sprint(s.Tags)
			if !args && strings.Contains(tags, "secret") {
				bad("arguments are in the span although that option is off")
			}
			// an error's own text may quote arguments, nothing else may
			bare := logs
			for _, k := range got.spy.calls {
				for _, e := range k.errs {
					bare = strings.ReplaceAll(bare, e, "")
				}
			}
			if !args && strings.Contains(bare, "secret") {
				bad("arguments are in the span's logs although that option is off")
			}
			if !logErr && strings.Trim(logs, "[]{} ") != "" {
				bad("error texts are in the span although that option is off")
			}
			if !s.IsError && len(s.Logs) != 0 {
				bad("a span of a successful call holds logs")
			}
			if logErr && s.IsError && strings.Trim(logs, "[]{} ") == "" {
				bad("the error text is missing in the span")
			}
			st := s.Tag("db.statement")
			if len(st) != 1 {
				bad("the span has no statement")
			} else if !args && st[0] != s.Op {
				bad("the span's statement is not the command name(s)")
			}
		}
		// a nil reply may count as an error or not
		for w, n := range want {
			if strings.HasSuffix(w, " error nil") {
				base := strings.TrimSuffix(w, "nil")
				for ; n > 0; n-- {
					for _, v := range []string{"true", "false"} {
						if gotSpans[base+v] > want[base+v] {
							want[base+v]++
							break
						}
					}
					want[w]--
				}
				if want[w] == 0 {
					delete(want, w)
				}
			}
		}
		if !reflect.DeepEqual(want, gotSpans) {
			d["expected"], d["reported"] = diff(want, gotSpans), diff(gotSpans, want)
			c.Violate("the spans are not those of the calls", d)
			return
		}
		// with the options, the texts are there
		if args {
			for _, k := range calls {
				if len(k.secrets) == 0 {
					continue
				}
				found := false
				for _, s := range all {
					all := s.Op == strings.Join(k.names, "|")
					for _, x := range k.secrets {
						all = all && strings.Contains(fmt.Sprint(s.Tags), x)
					}
					found = found || all
				}
				if !found {
					c.Violate("arguments are not in the span although that option is on", d)
				}
			}
		}
		if logErr {
			for _, k := range calls {
				if len(k.errs) == 0 || k.nils {
					continue
				}
				found := false
				for _, s := range all {
					all := s.Op == strings.Join(k.names, "|")
					for _, x := range k.errs {
						all = all && strings.Contains(fmt.Sprint(s.Logs), x)
					}
					found = found || all
				}
				if !found {
					c.Violate("error texts are not in the span although that option is on", d)
				}
			}
		}
		vk.Count("spans", len(all))
		for _, k := range calls {
			c.Observed(fmt.Sprint(mode, k.names, len(k.errs) > 0, k.nils, parents[k.lane], args, logErr))
		}
		for _, k := range got.spy.calls {
			c.Observed(fmt.Sprint(mode, k.names, len(k.errs)))
		}
		c.Sample(map[string]string{"mode": mode, "script": fmt.Sprint(scripts[0]), "replies": strings.Join(got.replies[0], "; "), "spans": clip(fmt.Sprintf("%+v", all))})
	})
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500]
	}
	return s
}

func diff(a, b map[string]int) []string {
	var r []string
	for k, n := range a {
		if b[k] != n {
			r = append(r, fmt.Sprint(k, " x", n))
		}
	}
	sort.Strings(r)
	return r
}
