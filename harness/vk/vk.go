// Package vk is the common part of all monitors: case generation from the
// seed, recording of what was observed, violation reports, and a watchdog.
//
// A check process runs one shard of a deterministic list of cases.  Everything
// it observes is written to the file named by VERIF_OUT, which the driver
// (run.py) merges into the evidence file.
package vk

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/chanjarster/gears/simplelog"
)

// Violation is one refuted instance of the property.
type Violation struct {
	Sig    string      `json:"sig"`    // stable identification of what failed
	Detail interface{} `json:"detail"` // the witness
	Case   string      `json:"case"`   // group/index that reproduces it
}

type result struct {
	Property     string           `json:"property"`
	Tier         string           `json:"tier"`
	Seed         int64            `json:"seed"`
	Shard        int              `json:"shard"`
	Shards       int              `json:"shards"`
	Evaluations  int64            `json:"evaluations"`
	Distinct     []uint64         `json:"-"`
	Rules        []string         `json:"rules"`
	Samples      []interface{}    `json:"samples"`
	Counters     map[string]int64 `json:"counters"`
	Violations   []Violation      `json:"violations"`
	Inconclusive []string         `json:"inconclusive"`
	Done         bool             `json:"done"`
	WallS        float64          `json:"wall_s"`
}

var (
	mu       sync.Mutex
	res      result
	distinct = map[uint64]struct{}{}
	outPath  string
	only     string
	thorough bool
	start    = time.Now()
	progress atomic.Int64
	curCase  atomic.Pointer[string]
	curFile  *os.File
	sampled  = map[string]int{}
	pauseWD  atomic.Int64
)

const maxViolations = 12

// Thorough tells whether the thorough tier was asked for.
func Thorough() bool { return thorough }

// Seed is VERIF_SEED.
func Seed() int64 { return res.Seed }

// SetSeed serves child processes of a monitor, which do not call Main.
func SetSeed(s int64) { res.Seed = s }

// Tick tells the watchdog that the monitored workload moved.
func Tick() { progress.Add(1) }

// Main runs the tests of a monitor process.
func Main(m *testing.M, property string) {
	res.Property = property
	res.Tier = os.Getenv("VERIF_TIER")
	if res.Tier != "thorough" {
		res.Tier = "quick"
	}
	thorough = res.Tier == "thorough"
	res.Seed = 1
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		res.Seed = s
	}
	res.Shards = 1
	if s := os.Getenv("VERIF_SHARD"); s != "" {
		fmt.Sscanf(s, "%d/%d", &res.Shard, &res.Shards)
	}
	res.Counters = map[string]int64{}
	outPath = os.Getenv("VERIF_OUT")
	only = os.Getenv("VERIF_ONLY")
	if p := os.Getenv("VERIF_CUR"); p != "" {
		curFile, _ = os.Create(p)
	}
	Quiet()
	go watchdog()
	code := m.Run()
	mu.Lock()
	res.Done = true
	if code != 0 && len(res.Violations) == 0 {
		// a test failed without a recorded violation: race reports are read
		// from their log by the driver, anything else is inconclusive
		res.Counters["test_exit_code"] = int64(code)
	}
	flushLocked()
	mu.Unlock()
	os.Exit(0)
}

// Quiet silences the loggers of the library.
func Quiet() {
	simplelog.StdLogger.SetOutput(io.Discard)
	simplelog.ErrLogger.SetOutput(io.Discard)
	log.SetOutput(io.Discard)
}

func flushLocked() {
	if outPath == "" {
		for _, v := range res.Violations {
			b, _ := json.MarshalIndent(v, "", " ")
			fmt.Fprintln(os.Stderr, string(b))
		}
		fmt.Fprintf(os.Stderr, "evaluations=%d distinct=%d counters=%v inconclusive=%v\n", res.Evaluations, len(distinct), res.Counters, res.Inconclusive)
		return
	}
	res.WallS = time.Since(start).Seconds()
	b, err := json.Marshal(&res)
	if err != nil {
		b, _ = json.Marshal(map[string]string{"error": err.Error()})
	}
	keys := make([]uint64, 0, len(distinct))
	for k := range distinct {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	kb := make([]byte, 8*len(keys))
	for i, k := range keys {
		binary.LittleEndian.PutUint64(kb[8*i:], k)
	}
	os.WriteFile(outPath+".keys", kb, 0o644)
	os.WriteFile(outPath+".tmp", b, 0o644)
	os.Rename(outPath+".tmp", outPath)
}

// Abort ends the process at once with what was recorded (used when the code
// under test left the process in a state in which nothing more can be run).
func Abort() {
	mu.Lock()
	res.Done = true
	flushLocked()
	os.Exit(0)
}

// Violate records a violation.
func Violate(sig string, detail interface{}) {
	c := ""
	if p := curCase.Load(); p != nil {
		c = *p
	}
	violateAt(c, sig, detail)
}

func violateAt(c, sig string, detail interface{}) {
	if _, err := json.Marshal(detail); err != nil {
		detail = fmt.Sprintf("%+v", detail)
	}
	mu.Lock()
	defer mu.Unlock()
	n := 0
	for _, v := range res.Violations {
		if v.Sig == sig {
			n++
		}
	}
	if n < 3 {
		res.Violations = append(res.Violations, Violation{Sig: sig, Detail: detail, Case: c})
		flushLocked()
	}
	if len(res.Violations) >= maxViolations {
		res.Done = true
		flushLocked()
		os.Exit(0)
	}
}

// Inconclusive records that something could not be decided.
func Inconclusive(format string, a ...interface{}) {
	mu.Lock()
	defer mu.Unlock()
	if len(res.Inconclusive) < 50 {
		res.Inconclusive = append(res.Inconclusive, fmt.Sprintf(format, a...))
	}
}

// Rule documents how the cases of a group are made.
func Rule(s string) {
	mu.Lock()
	defer mu.Unlock()
	for _, r := range res.Rules {
		if r == s {
			return
		}
	}
	res.Rules = append(res.Rules, s)
}

// Count adds to a named counter of observed things.
func Count(name string, n int) {
	mu.Lock()
	res.Counters[name] += int64(n)
	mu.Unlock()
}

// Max keeps the largest value of a named counter ("max_..." by convention).
func Max(name string, n int) {
	mu.Lock()
	if int64(n) > res.Counters[name] {
		res.Counters[name] = int64(n)
	}
	mu.Unlock()
}

// Case is one deterministic case.
type Case struct {
	*rand.Rand
	Group string
	Index int
}

// ID is group/index.
func (c *Case) ID() string { return c.Group + "/" + strconv.Itoa(c.Index) }

// Violate records a violation of this case.
func (c *Case) Violate(sig string, detail interface{}) { violateAt(c.ID(), sig, detail) }

// Observed records one evaluated case; key identifies what was distinct about
// it, and an empty key marks a trivial one.
func (c *Case) Observed(key string) {
	Observe(c.Group, key)
}

// Observe records one evaluated case of a group.
func Observe(group, key string) {
	progress.Add(1)
	var h uint64
	if key != "" {
		f := fnv.New64a()
		io.WriteString(f, group)
		io.WriteString(f, "\x00")
		io.WriteString(f, key)
		h = f.Sum64()
	}
	mu.Lock()
	res.Evaluations++
	res.Counters["cases:"+group]++
	if key != "" {
		distinct[h] = struct{}{}
	}
	mu.Unlock()
}

// Sample keeps a few actual cases per group, written out.
func (c *Case) Sample(v interface{}) {
	if res.Shard != 0 && c.Index > 8 {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	if sampled[c.Group] >= 2 {
		return
	}
	sampled[c.Group]++
	if _, err := json.Marshal(v); err != nil {
		v = fmt.Sprintf("%+v", v)
	}
	res.Samples = append(res.Samples, map[string]interface{}{"case": c.ID(), "what": v})
}

// N picks the size for the tier.
func N(quick, thor int) int {
	if thorough {
		return thor
	}
	return quick
}

// Cases runs the cases of a group that belong to this shard.
func Cases(group string, n int, f func(c *Case)) {
	for i := 0; i < n; i++ {
		if only != "" {
			if only != group+"/"+strconv.Itoa(i) && only != group {
				continue
			}
		} else if i%res.Shards != res.Shard {
			continue
		}
		c := NewCase(group, i)
		id := c.ID()
		curCase.Store(&id)
		if curFile != nil {
			b := make([]byte, 128)
			for j := range b {
				b[j] = ' '
			}
			copy(b, id)
			curFile.WriteAt(b, 0)
		}
		f(c)
		progress.Add(1)
	}
}

// NewCase makes the random source of one case; it depends on the seed, the
// group and the index only.
func NewCase(group string, i int) *Case {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%d", res.Seed, group, i)
	return &Case{Rand: rand.New(rand.NewSource(int64(h.Sum64()))), Group: group, Index: i}
}

// MyShard tells whether a fixed piece of work belongs to this shard.
func MyShard(i int) bool { return only != "" || i%res.Shards == res.Shard }

const gears = "github.com/chanjarster/gears/"

// GearsGoroutines returns the blocks of a full stack dump that run library
// code, keyed by goroutine header.
func GearsGoroutines() []string {
	var out []string
	for _, g := range AllStacks() {
		if strings.Contains(g, gears) {
			out = append(out, g)
		}
	}
	return out
}

// AllStacks returns one string per goroutine.
func AllStacks() []string {
	n := 1 << 20
	for {
		b := make([]byte, n)
		k := runtime.Stack(b, true)
		if k < n {
			return strings.Split(strings.TrimSpace(string(b[:k])), "\n\n")
		}
		n *= 2
	}
}

// PauseWatchdog / ResumeWatchdog bracket parts that legitimately take long
// (subprocesses, compilations).
func PauseWatchdog()  { pauseWD.Add(1) }
func ResumeWatchdog() { pauseWD.Add(-1); progress.Add(1) }

var noProgress = 90 * time.Second

// watchdog looks for a workload that stopped moving.  The verdict comes from
// what the goroutines are doing, not from the time alone: the same library
// goroutine stuck at the same place in two dumps with nothing else runnable
// (deadlock), or burning CPU inside library code without any progress
// (livelock).  Everything else is inconclusive.
func watchdog() {
	last, since := progress.Load(), time.Now()
	for {
		time.Sleep(500 * time.Millisecond)
		p := progress.Load()
		if p != last || pauseWD.Load() > 0 {
			last, since = p, time.Now()
			continue
		}
		if time.Since(since) < noProgress {
			continue
		}
		a := snapshot()
		time.Sleep(3 * time.Second)
		b := snapshot()
		if progress.Load() != p {
			last, since = progress.Load(), time.Now()
			continue
		}
		var stuck, running []string
		otherRunnable := false
		for id, g := range a {
			g2, ok := b[id]
			if !ok || strings.Contains(g.body, "vk.watchdog") {
				continue
			}
			if !strings.Contains(g.body, gears) {
				if g2.running && !strings.Contains(g.body, "os/signal") {
					otherRunnable = true
				}
				continue
			}
			if g.running && g2.running {
				running = append(running, g2.full)
			} else if !g.running && !g2.running && g.body == g2.body {
				stuck = append(stuck, g2.full)
			}
		}
		switch {
		case len(running) > 0:
			Violate("livelock: no progress, library code keeps running", clip(running))
		case len(stuck) > 0 && !otherRunnable:
			Violate("deadlock: no progress, library goroutines blocked", clip(stuck))
		default:
			Inconclusive("no progress for %v, cause not in library code: %v", noProgress, clip(fullAll(b)))
		}
		Abort()
	}
}

func clip(s []string) []string {
	if len(s) > 6 {
		s = s[:6]
	}
	for i := range s {
		if len(s[i]) > 3000 {
			s[i] = s[i][:3000]
		}
	}
	return s
}

func fullAll(m map[string]gor) []string {
	var s []string
	for _, g := range m {
		s = append(s, g.full)
	}
	return s
}

type gor struct {
	full, body string
	running    bool
}

func snapshot() map[string]gor {
	m := map[string]gor{}
	for _, s := range AllStacks() {
		head, body, _ := strings.Cut(s, "\n")
		id, state, _ := strings.Cut(head, " [")
		m[id] = gor{full: s, body: body, running: strings.HasPrefix(state, "running") || strings.HasPrefix(state, "runnable")}
	}
	return m
}

// Catch runs f and returns the recovered panic value, if any.
func Catch(f func()) (p interface{}, panicked bool) {
	defer func() {
		if panicked {
			p = recover()
		}
	}()
	panicked = true
	f()
	panicked = false
	return
}
