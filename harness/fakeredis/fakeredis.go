// Package fakeredis is an in-memory redis server for monitors: RESP2 over any
// net.Conn, time taken from time.Now (so it follows the virtual time of a
// synctest bubble), Lua scripting by the verif/harness/lua interpreter, every
// command recorded, and faults injected per command.
package fakeredis

import (
	"bufio"
	"context"
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"io"
	"math"
	"net"
	"path"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/harness/lua"
)

// Err is an error reply, Status a simple string.
type Err string
type Status string

// NilBulk and NilArray are the null replies.
type nilBulk struct{}
type nilArray struct{}

// Cmd is one recorded command.
type Cmd struct {
	Conn   int
	DB     int
	Args   []string
	At     time.Time
	Script bool // issued by a script
	Reply  string
}

// Keys returns the declared keys of an EVAL/EVALSHA.
func (c Cmd) Keys() []string {
	if len(c.Args) < 3 {
		return nil
	}
	n, _ := strconv.Atoi(c.Args[2])
	if n < 0 || 3+n > len(c.Args) {
		return nil
	}
	return c.Args[3 : 3+n]
}

// FaultKind says what to do with a command.
type FaultKind int

const (
	NoFault    FaultKind = iota
	ErrorReply           // answer an error, do not execute
	DropBefore           // close the connection, do not execute
	DropAfter            // execute, close the connection without reply
	Garbage              // execute, answer bytes that are not RESP
	Raw                  // do not execute, answer Text verbatim
	Delay                // wait, then execute normally
)

// Fault is one injected fault.
type Fault struct {
	Kind FaultKind
	Text string
	Wait time.Duration
}

type item struct {
	kind  string
	str   string
	list  []string
	hash  map[string]string
	zset  map[string]float64
	set   map[string]bool
	expMs int64 // 0: none
}

// Server is one fake redis.
type Server struct {
	mu       sync.Mutex
	dbs      map[int]map[string]*item
	scripts  map[string]string
	log      []Cmd
	conns    map[int]*conn
	nconn    int
	lis      net.Listener
	closed   bool
	Username string
	Password string
	// OnCommand, when set, chooses the fault for a command read from a connection.
	OnCommand func(args []string) Fault
	// RefuseDial makes the dialer fail.
	RefuseDial bool
	// Drain makes dropped connections deliver the replies before the drop.
	Drain bool
	// NoLog switches recording off.
	NoLog bool
	wg    sync.WaitGroup
}

type conn struct {
	s     *Server
	id    int
	c     net.Conn
	db    int
	auth  bool
	multi bool
	dirty bool
	queue [][]string
	omu   sync.Mutex
	ocond *sync.Cond
	out   [][]byte
	done  bool
	busy  bool // the writer is writing
}

// New makes a server.
func New() *Server {
	return &Server{dbs: map[int]map[string]*item{}, scripts: map[string]string{}, conns: map[int]*conn{}}
}

// Dial connects in memory; fits redis.Options.Dialer.
func (s *Server) Dial(ctx context.Context, network, addr string) (net.Conn, error) {
	s.mu.Lock()
	if s.RefuseDial || s.closed {
		s.mu.Unlock()
		return nil, fmt.Errorf("dial: connection refused (injected)")
	}
	s.mu.Unlock()
	a, b := net.Pipe()
	s.serve(b)
	return a, nil
}

// Listen serves on a loopback port and returns its number.
func (s *Server) Listen() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s.lis = l
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.serve(c)
		}
	}()
	return l.Addr().(*net.TCPAddr).Port
}

// Close ends the server and all its connections.
func (s *Server) Close() {
	s.mu.Lock()
	s.closed = true
	if s.lis != nil {
		s.lis.Close()
	}
	var cs []*conn
	for _, c := range s.conns {
		cs = append(cs, c)
	}
	s.mu.Unlock()
	for _, c := range cs {
		c.close()
	}
	s.wg.Wait()
}

// KillConns drops the open connections.
func (s *Server) KillConns() {
	s.mu.Lock()
	var cs []*conn
	for _, c := range s.conns {
		cs = append(cs, c)
	}
	s.mu.Unlock()
	for _, c := range cs {
		c.close()
	}
}

// Log returns the recorded commands.
func (s *Server) Log() []Cmd {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Cmd(nil), s.log...)
}

// ResetLog forgets the recorded commands.
func (s *Server) ResetLog() { s.mu.Lock(); s.log = nil; s.mu.Unlock() }

// Conns counts the connections ever made.
func (s *Server) Conns() int { s.mu.Lock(); defer s.mu.Unlock(); return s.nconn }

// OpenConns counts the connections open now.
func (s *Server) OpenConns() int { s.mu.Lock(); defer s.mu.Unlock(); return len(s.conns) }

// Do executes a command directly (a harness peeking at or preparing the data).
func (s *Server) Do(db int, args ...string) interface{} {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.exec(&conn{s: s, db: db, auth: true}, args, true)
}

// Dump returns all live data of a db, canonically.
func (s *Server) Dump(db int) map[string]string {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := map[string]string{}
	for k := range s.dbs[db] {
		it := s.get(db, k)
		if it == nil {
			continue
		}
		var v string
		switch it.kind {
		case "string":
			v = strconv.Quote(it.str)
		case "list":
			v = fmt.Sprintf("%q", it.list)
		case "hash":
			v = fmt.Sprintf("%q", it.hash)
		case "zset":
			v = fmt.Sprint(it.zset)
		case "set":
			v = fmt.Sprint(it.set)
		}
		out[k] = it.kind + ":" + v + ":" + strconv.FormatInt(it.expMs, 10)
	}
	return out
}

func (s *Server) serve(c net.Conn) {
	s.mu.Lock()
	if s.closed {
		s.mu.Unlock()
		c.Close()
		return
	}
	s.nconn++
	k := &conn{s: s, id: s.nconn, c: c, auth: s.Password == ""}
	k.ocond = sync.NewCond(&k.omu)
	s.conns[k.id] = k
	s.wg.Add(2)
	s.mu.Unlock()
	go k.writer()
	go k.reader()
}

func (c *conn) close() {
	c.omu.Lock()
	c.done = true
	c.ocond.Broadcast()
	c.omu.Unlock()
	c.c.Close()
	c.s.mu.Lock()
	delete(c.s.conns, c.id)
	c.s.mu.Unlock()
}

func (c *conn) writer() {
	defer c.s.wg.Done()
	for {
		c.omu.Lock()
		if c.busy {
			c.busy = false
			c.ocond.Broadcast()
		}
		for len(c.out) == 0 && !c.done {
			c.ocond.Wait()
		}
		if len(c.out) == 0 {
			c.omu.Unlock()
			return
		}
		var b []byte
		for _, o := range c.out {
			b = append(b, o...)
		}
		c.out = nil
		c.busy = true
		c.omu.Unlock()
		if _, err := c.c.Write(b); err != nil {
			c.close()
			return
		}
	}
}

func (c *conn) send(b []byte) {
	c.omu.Lock()
	c.out = append(c.out, b)
	c.ocond.Signal()
	c.omu.Unlock()
}

// drain waits until the client has taken all replies.
func (c *conn) drain() {
	if !c.s.Drain {
		return
	}
	c.omu.Lock()
	for (len(c.out) > 0 || c.busy) && !c.done {
		c.ocond.Wait()
	}
	c.omu.Unlock()
}

func (c *conn) reader() {
	defer c.s.wg.Done()
	defer c.close()
	r := bufio.NewReader(c.c)
	for {
		args, err := readCommand(r)
		if err != nil {
			return
		}
		if len(args) == 0 {
			continue
		}
		var f Fault
		c.s.mu.Lock()
		hook := c.s.OnCommand
		c.s.mu.Unlock()
		if hook != nil {
			f = hook(args)
		}
		switch f.Kind {
		case ErrorReply:
			c.s.record(c, args, false, "-"+f.Text)
			c.send([]byte("-" + f.Text + "\r\n"))
			continue
		case Raw:
			c.s.record(c, args, false, f.Text)
			c.send([]byte(f.Text))
			continue
		case DropBefore:
			c.s.record(c, args, false, "(dropped)")
			c.drain()
			return
		case Delay:
			time.Sleep(f.Wait)
		}
		c.s.mu.Lock()
		reply := c.s.handle(c, args)
		c.s.mu.Unlock()
		switch f.Kind {
		case DropAfter:
			c.drain()
			return
		case Garbage:
			c.send([]byte("\x00garbage\xff\r\n"))
			continue
		}
		c.send(encode(nil, reply))
		if strings.EqualFold(args[0], "QUIT") {
			return
		}
	}
}

func (s *Server) record(c *conn, args []string, script bool, reply string) {
	s.mu.Lock()
	s.recordLocked(c, args, script, reply)
	s.mu.Unlock()
}

func (s *Server) recordLocked(c *conn, args []string, script bool, reply string) {
	if s.NoLog {
		return
	}
	s.log = append(s.log, Cmd{Conn: c.id, DB: c.db, Args: append([]string(nil), args...), At: time.Now(), Script: script, Reply: reply})
}

// handle deals with the per-connection state, then executes.
func (s *Server) handle(c *conn, args []string) interface{} {
	name := strings.ToUpper(args[0])
	if !c.auth && name != "AUTH" && name != "QUIT" {
		r := Err("NOAUTH Authentication required.")
		s.recordLocked(c, args, false, "-"+string(r))
		return r
	}
	if c.multi && name != "EXEC" && name != "DISCARD" && name != "MULTI" {
		s.recordLocked(c, args, false, "+QUEUED")
		if !known(name) {
			c.dirty = true
			return Err("ERR unknown command `" + args[0] + "`, with args beginning with: ")
		}
		c.queue = append(c.queue, args)
		return Status("QUEUED")
	}
	r := s.exec(c, args, false)
	s.recordLocked(c, args, false, string(encode(nil, r)))
	return r
}

func readCommand(r *bufio.Reader) ([]string, error) {
	line, err := r.ReadString('\n')
	if err != nil {
		return nil, err
	}
	line = strings.TrimRight(line, "\r\n")
	if !strings.HasPrefix(line, "*") {
		return strings.Fields(line), nil
	}
	n, err := strconv.Atoi(line[1:])
	if err != nil {
		return nil, err
	}
	var args []string
	for i := 0; i < n; i++ {
		h, err := r.ReadString('\n')
		if err != nil {
			return nil, err
		}
		h = strings.TrimRight(h, "\r\n")
		if len(h) < 2 || h[0] != '$' {
			return nil, fmt.Errorf("protocol")
		}
		l, err := strconv.Atoi(h[1:])
		if err != nil {
			return nil, err
		}
		b := make([]byte, l+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		args = append(args, string(b[:l]))
	}
	return args, nil
}

func encode(b []byte, r interface{}) []byte {
	switch v := r.(type) {
	case Err:
		return append(b, "-"+string(v)+"\r\n"...)
	case Status:
		return append(b, "+"+string(v)+"\r\n"...)
	case int64:
		return append(b, ":"+strconv.FormatInt(v, 10)+"\r\n"...)
	case int:
		return append(b, ":"+strconv.Itoa(v)+"\r\n"...)
	case string:
		return append(b, "$"+strconv.Itoa(len(v))+"\r\n"+v+"\r\n"...)
	case nilBulk:
		return append(b, "$-1\r\n"...)
	case nilArray:
		return append(b, "*-1\r\n"...)
	case []interface{}:
		b = append(b, "*"+strconv.Itoa(len(v))+"\r\n"...)
		for _, e := range v {
			b = encode(b, e)
		}
		return b
	case []string:
		b = append(b, "*"+strconv.Itoa(len(v))+"\r\n"...)
		for _, e := range v {
			b = encode(b, e)
		}
		return b
	}
	panic(fmt.Sprintf("reply %T", r))
}

func nowMs() int64 { return time.Now().UnixMilli() }

func (s *Server) db(n int) map[string]*item {
	if s.dbs[n] == nil {
		s.dbs[n] = map[string]*item{}
	}
	return s.dbs[n]
}

func (s *Server) get(db int, key string) *item {
	it := s.db(db)[key]
	if it != nil && it.expMs != 0 && nowMs() > it.expMs {
		delete(s.db(db), key)
		return nil
	}
	return it
}

const wrongType = Err("WRONGTYPE Operation against a key holding the wrong kind of value")
const notInt = Err("ERR value is not an integer or out of range")
const syntax = Err("ERR syntax error")

// typed returns the item of a kind, creating it when asked.
func (s *Server) typed(db int, key, kind string, create bool) (*item, bool) {
	it := s.get(db, key)
	if it == nil {
		if !create {
			return nil, true
		}
		it = &item{kind: kind}
		switch kind {
		case "hash":
			it.hash = map[string]string{}
		case "zset":
			it.zset = map[string]float64{}
		case "set":
			it.set = map[string]bool{}
		}
		s.db(db)[key] = it
		return it, true
	}
	return it, it.kind == kind
}

func (s *Server) dropEmpty(db int, key string, it *item) {
	if (it.kind == "list" && len(it.list) == 0) || (it.kind == "hash" && len(it.hash) == 0) ||
		(it.kind == "zset" && len(it.zset) == 0) || (it.kind == "set" && len(it.set) == 0) {
		delete(s.db(db), key)
	}
}

var arity = map[string]int{ // negative: at least
	"PING": -1, "ECHO": 2, "AUTH": -2, "SELECT": 2, "QUIT": 1, "GET": 2, "SET": -3, "SETEX": 4, "PSETEX": 4, "SETNX": 3, "GETSET": 3, "MGET": -2, "MSET": -3,
	"DEL": -2, "UNLINK": -2, "EXISTS": -2, "TTL": 2, "PTTL": 2, "EXPIRE": 3, "PEXPIRE": 3, "EXPIREAT": 3, "PEXPIREAT": 3, "PERSIST": 2,
	"INCR": 2, "DECR": 2, "INCRBY": 3, "DECRBY": 3, "APPEND": 3, "STRLEN": 2,
	"LLEN": 2, "RPUSH": -3, "LPUSH": -3, "RPUSHX": -3, "LPUSHX": -3, "LPOP": 2, "RPOP": 2, "LRANGE": 4, "LTRIM": 4, "LINDEX": 3, "LSET": 4, "LREM": 4,
	"HGET": 3, "HSET": -4, "HMSET": -4, "HSETNX": 4, "HGETALL": 2, "HDEL": -3, "HEXISTS": 3, "HLEN": 2, "HKEYS": 2, "HVALS": 2, "HMGET": -3, "HSCAN": -3,
	"ZADD": -4, "ZCARD": 2, "ZSCORE": 3, "ZREM": -3, "ZCOUNT": 4, "ZRANGE": -4, "ZREMRANGEBYSCORE": 4, "ZRANGEBYSCORE": -4, "ZREMRANGEBYRANK": 4,
	"SADD": -3, "SREM": -3, "SMEMBERS": 2, "SISMEMBER": 3, "SCARD": 2,
	"SCRIPT": -2, "EVAL": -3, "EVALSHA": -3, "MULTI": 1, "EXEC": 1, "DISCARD": 1, "WATCH": -2, "UNWATCH": 1,
	"TIME": 1, "KEYS": 2, "TYPE": 2, "FLUSHDB": -1, "FLUSHALL": -1, "DBSIZE": 1, "CLIENT": -2, "RENAME": 3, "COMMAND": -1, "READONLY": 1, "INFO": -1,
}

func known(n string) bool { _, ok := arity[strings.ToUpper(n)]; return ok }

func (s *Server) exec(c *conn, args []string, direct bool) interface{} {
	name := strings.ToUpper(args[0])
	ar, ok := arity[name]
	if !ok {
		return Err("ERR unknown command `" + args[0] + "`, with args beginning with: ")
	}
	if (ar > 0 && len(args) != ar) || (ar < 0 && len(args) < -ar) {
		return Err("ERR wrong number of arguments for '" + strings.ToLower(name) + "' command")
	}
	a := args[1:]
	db := c.db
	switch name {
	case "PING":
		if len(a) > 0 {
			return a[0]
		}
		return Status("PONG")
	case "ECHO":
		return a[0]
	case "QUIT", "UNWATCH", "WATCH", "CLIENT", "READONLY":
		return Status("OK")
	case "INFO":
		return "redis_version:5.0.7\r\n"
	case "AUTH":
		if s.Password == "" {
			return Err("ERR Client sent AUTH, but no password is set")
		}
		user, pass := "", a[0]
		if len(a) > 1 {
			user, pass = a[0], a[1]
		}
		if user != s.Username || pass != s.Password {
			return Err("WRONGPASS invalid username-password pair")
		}
		c.auth = true
		return Status("OK")
	case "SELECT":
		n, err := strconv.Atoi(a[0])
		if err != nil || n < 0 || n > 1<<31 {
			return Err("ERR invalid DB index")
		}
		c.db = n
		return Status("OK")
	case "MULTI":
		if c.multi {
			return Err("ERR MULTI calls can not be nested")
		}
		c.multi, c.dirty, c.queue = true, false, nil
		return Status("OK")
	case "DISCARD":
		if !c.multi {
			return Err("ERR DISCARD without MULTI")
		}
		c.multi, c.queue = false, nil
		return Status("OK")
	case "EXEC":
		if !c.multi {
			return Err("ERR EXEC without MULTI")
		}
		q, dirty := c.queue, c.dirty
		c.multi, c.queue, c.dirty = false, nil, false
		if dirty {
			return Err("EXECABORT Transaction discarded because of previous errors.")
		}
		out := []interface{}{}
		for _, m := range q {
			out = append(out, s.exec(c, m, direct))
		}
		return out
	case "TIME":
		t := time.Now()
		return []string{strconv.FormatInt(t.Unix(), 10), strconv.Itoa(t.Nanosecond() / 1000)}
	case "FLUSHDB":
		delete(s.dbs, db)
		return Status("OK")
	case "FLUSHALL":
		s.dbs = map[int]map[string]*item{}
		return Status("OK")
	case "DBSIZE":
		return len(s.db(db))
	case "COMMAND":
		return []interface{}{}
	case "KEYS":
		ks := []string{}
		for k := range s.db(db) {
			if s.get(db, k) != nil {
				if m, _ := path.Match(a[0], k); m || a[0] == "*" {
					ks = append(ks, k)
				}
			}
		}
		sort.Strings(ks)
		return ks
	case "TYPE":
		if it := s.get(db, a[0]); it != nil {
			return Status(it.kind)
		}
		return Status("none")
	case "RENAME":
		it := s.get(db, a[0])
		if it == nil {
			return Err("ERR no such key")
		}
		delete(s.db(db), a[0])
		s.db(db)[a[1]] = it
		return Status("OK")
	case "SCRIPT":
		switch strings.ToUpper(a[0]) {
		case "LOAD":
			if len(a) != 2 {
				return syntax
			}
			if err := lua.Check(a[1]); err != nil {
				return Err("ERR Error compiling script (new function): " + err.Error())
			}
			h := sha1.Sum([]byte(a[1]))
			sha := hex.EncodeToString(h[:])
			s.scripts[sha] = a[1]
			return sha
		case "EXISTS":
			out := []interface{}{}
			for _, x := range a[1:] {
				if _, ok := s.scripts[strings.ToLower(x)]; ok {
					out = append(out, 1)
				} else {
					out = append(out, 0)
				}
			}
			return out
		case "FLUSH":
			s.scripts = map[string]string{}
			return Status("OK")
		}
		return Err("ERR Unknown subcommand")
	case "EVAL", "EVALSHA":
		src := a[0]
		if name == "EVALSHA" {
			var ok bool
			src, ok = s.scripts[strings.ToLower(a[0])]
			if !ok {
				return Err("NOSCRIPT No matching script. Please use EVAL.")
			}
		} else {
			h := sha1.Sum([]byte(src))
			s.scripts[hex.EncodeToString(h[:])] = src
		}
		n, err := strconv.Atoi(a[1])
		if err != nil {
			return notInt
		}
		if n < 0 {
			return Err("ERR Number of keys can't be negative")
		}
		if n > len(a)-2 {
			return Err("ERR Number of keys can't be greater than number of args")
		}
		return s.script(c, src, a[2:2+n], a[2+n:])
	}
	return s.data(db, name, a)
}

func atoi(v string) (int64, bool) {
	n, err := strconv.ParseInt(v, 10, 64)
	return n, err == nil
}

func rangeIdx(l int, a, b string) (int, int, bool) {
	i, ok1 := atoi(a)
	j, ok2 := atoi(b)
	if !ok1 || !ok2 {
		return 0, 0, false
	}
	if i < 0 {
		i += int64(l)
	}
	if j < 0 {
		j += int64(l)
	}
	if i < 0 {
		i = 0
	}
	if j >= int64(l) {
		j = int64(l) - 1
	}
	if i > j {
		return 0, 0, true
	}
	return int(i), int(j) + 1, true
}

func score(v string) (float64, bool, bool) {
	excl := strings.HasPrefix(v, "(")
	v = strings.TrimPrefix(v, "(")
	switch strings.ToLower(v) {
	case "-inf":
		return math.Inf(-1), excl, true
	case "+inf", "inf":
		return math.Inf(1), excl, true
	}
	f, err := strconv.ParseFloat(v, 64)
	return f, excl, err == nil
}

func (s *Server) zsorted(it *item) []string {
	var m []string
	for k := range it.zset {
		m = append(m, k)
	}
	sort.Slice(m, func(i, j int) bool {
		if it.zset[m[i]] != it.zset[m[j]] {
			return it.zset[m[i]] < it.zset[m[j]]
		}
		return m[i] < m[j]
	})
	return m
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (s *Server) data(db int, name string, a []string) interface{} {
	key := a[0]
	switch name {
	case "GET", "STRLEN", "APPEND", "GETSET":
		it, ok := s.typed(db, key, "string", name == "APPEND" || name == "GETSET")
		if !ok {
			return wrongType
		}
		switch name {
		case "GET":
			if it == nil {
				return nilBulk{}
			}
			return it.str
		case "STRLEN":
			if it == nil {
				return 0
			}
			return len(it.str)
		case "APPEND":
			it.str += a[1]
			return len(it.str)
		}
		old := it.str
		it.str, it.expMs = a[1], 0
		return old
	case "MGET":
		out := []interface{}{}
		for _, k := range a {
			it := s.get(db, k)
			if it == nil || it.kind != "string" {
				out = append(out, nilBulk{})
			} else {
				out = append(out, it.str)
			}
		}
		return out
	case "MSET":
		if len(a)%2 != 0 {
			return Err("ERR wrong number of arguments for MSET")
		}
		for i := 0; i < len(a); i += 2 {
			s.db(db)[a[i]] = &item{kind: "string", str: a[i+1]}
		}
		return Status("OK")
	case "SET":
		var exp int64
		nx, xx, keep := false, false, false
		for i := 2; i < len(a); i++ {
			switch strings.ToUpper(a[i]) {
			case "NX":
				nx = true
			case "XX":
				xx = true
			case "KEEPTTL":
				keep = true
			case "EX", "PX":
				if i+1 >= len(a) {
					return syntax
				}
				n, ok := atoi(a[i+1])
				if !ok {
					return notInt
				}
				if n <= 0 {
					return Err("ERR invalid expire time in set")
				}
				if strings.ToUpper(a[i]) == "EX" {
					n *= 1000
				}
				exp = nowMs() + n
				i++
			default:
				return syntax
			}
		}
		old := s.get(db, key)
		if (nx && old != nil) || (xx && old == nil) || (nx && xx) {
			return nilBulk{}
		}
		if keep && old != nil {
			exp = old.expMs
		}
		s.db(db)[key] = &item{kind: "string", str: a[1], expMs: exp}
		return Status("OK")
	case "SETEX", "PSETEX":
		n, ok := atoi(a[1])
		if !ok {
			return notInt
		}
		if n <= 0 {
			return Err("ERR invalid expire time in " + strings.ToLower(name))
		}
		if name == "SETEX" {
			n *= 1000
		}
		s.db(db)[key] = &item{kind: "string", str: a[2], expMs: nowMs() + n}
		return Status("OK")
	case "SETNX":
		if s.get(db, key) != nil {
			return 0
		}
		s.db(db)[key] = &item{kind: "string", str: a[1]}
		return 1
	case "DEL", "UNLINK":
		n := 0
		for _, k := range a {
			if s.get(db, k) != nil {
				delete(s.db(db), k)
				n++
			}
		}
		return n
	case "EXISTS":
		n := 0
		for _, k := range a {
			if s.get(db, k) != nil {
				n++
			}
		}
		return n
	case "TTL", "PTTL":
		it := s.get(db, key)
		if it == nil {
			return -2
		}
		if it.expMs == 0 {
			return -1
		}
		ms := it.expMs - nowMs()
		if ms < 0 {
			ms = 0
		}
		if name == "PTTL" {
			return ms
		}
		return (ms + 500) / 1000
	case "EXPIRE", "PEXPIRE", "EXPIREAT", "PEXPIREAT":
		n, ok := atoi(a[1])
		if !ok {
			return notInt
		}
		it := s.get(db, key)
		if it == nil {
			return 0
		}
		if name == "EXPIRE" || name == "EXPIREAT" {
			n *= 1000
		}
		if name == "EXPIRE" || name == "PEXPIRE" {
			n += nowMs()
		}
		if n <= nowMs() {
			delete(s.db(db), key)
			return 1
		}
		it.expMs = n
		return 1
	case "PERSIST":
		it := s.get(db, key)
		if it == nil || it.expMs == 0 {
			return 0
		}
		it.expMs = 0
		return 1
	case "INCR", "DECR", "INCRBY", "DECRBY":
		by := int64(1)
		if len(a) > 1 {
			n, ok := atoi(a[1])
			if !ok {
				return notInt
			}
			by = n
		}
		if strings.HasPrefix(name, "DECR") {
			by = -by
		}
		it, ok := s.typed(db, key, "string", false)
		if !ok {
			return wrongType
		}
		if it == nil {
			it, _ = s.typed(db, key, "string", true)
			it.str = "0"
		}
		v, ok := atoi(it.str)
		if !ok {
			return notInt
		}
		it.str = strconv.FormatInt(v+by, 10)
		return v + by
	case "LLEN", "LPOP", "RPOP", "LRANGE", "LTRIM", "LINDEX", "LSET", "LREM", "RPUSHX", "LPUSHX":
		it, ok := s.typed(db, key, "list", false)
		if !ok {
			return wrongType
		}
		if it == nil {
			switch name {
			case "LPOP", "RPOP", "LINDEX":
				return nilBulk{}
			case "LRANGE":
				return []interface{}{}
			case "LTRIM":
				return Status("OK")
			case "LSET":
				return Err("ERR no such key")
			}
			return 0
		}
		defer s.dropEmpty(db, key, it)
		switch name {
		case "LLEN":
			return len(it.list)
		case "LPOP":
			v := it.list[0]
			it.list = it.list[1:]
			return v
		case "RPOP":
			v := it.list[len(it.list)-1]
			it.list = it.list[:len(it.list)-1]
			return v
		case "LRANGE", "LTRIM":
			i, j, ok := rangeIdx(len(it.list), a[1], a[2])
			if !ok {
				return notInt
			}
			v := append([]string{}, it.list[i:j]...)
			if name == "LTRIM" {
				it.list = v
				return Status("OK")
			}
			return v
		case "LINDEX", "LSET":
			n, ok := atoi(a[1])
			if !ok {
				return notInt
			}
			if n < 0 {
				n += int64(len(it.list))
			}
			if n < 0 || n >= int64(len(it.list)) {
				if name == "LSET" {
					return Err("ERR index out of range")
				}
				return nilBulk{}
			}
			if name == "LSET" {
				it.list[n] = a[2]
				return Status("OK")
			}
			return it.list[n]
		case "LREM":
			n, ok := atoi(a[1])
			if !ok {
				return notInt
			}
			removed := 0
			var keep []string
			for _, v := range it.list {
				if v == a[2] && (n == 0 || int64(removed) < n) {
					removed++
					continue
				}
				keep = append(keep, v)
			}
			it.list = keep
			return removed
		case "RPUSHX":
			it.list = append(it.list, a[1:]...)
			return len(it.list)
		}
		for _, v := range a[1:] {
			it.list = append([]string{v}, it.list...)
		}
		return len(it.list)
	case "RPUSH", "LPUSH":
		it, ok := s.typed(db, key, "list", true)
		if !ok {
			return wrongType
		}
		for _, v := range a[1:] {
			if name == "RPUSH" {
				it.list = append(it.list, v)
			} else {
				it.list = append([]string{v}, it.list...)
			}
		}
		return len(it.list)
	case "HSET", "HMSET":
		if len(a)%2 != 1 {
			return Err("ERR wrong number of arguments for '" + strings.ToLower(name) + "' command")
		}
		it, ok := s.typed(db, key, "hash", true)
		if !ok {
			return wrongType
		}
		n := 0
		for i := 1; i < len(a); i += 2 {
			if _, ok := it.hash[a[i]]; !ok {
				n++
			}
			it.hash[a[i]] = a[i+1]
		}
		if name == "HMSET" {
			return Status("OK")
		}
		return n
	case "HSETNX":
		it, ok := s.typed(db, key, "hash", true)
		if !ok {
			return wrongType
		}
		if _, ok := it.hash[a[1]]; ok {
			return 0
		}
		it.hash[a[1]] = a[2]
		return 1
	case "HGET", "HGETALL", "HDEL", "HEXISTS", "HLEN", "HKEYS", "HVALS", "HMGET", "HSCAN":
		it, ok := s.typed(db, key, "hash", false)
		if !ok {
			return wrongType
		}
		h := map[string]string{}
		if it != nil {
			h = it.hash
			defer s.dropEmpty(db, key, it)
		}
		var ks []string
		for k := range h {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		switch name {
		case "HGET":
			if v, ok := h[a[1]]; ok {
				return v
			}
			return nilBulk{}
		case "HMGET":
			out := []interface{}{}
			for _, k := range a[1:] {
				if v, ok := h[k]; ok {
					out = append(out, v)
				} else {
					out = append(out, nilBulk{})
				}
			}
			return out
		case "HGETALL":
			out := []string{}
			for _, k := range ks {
				out = append(out, k, h[k])
			}
			return out
		case "HSCAN":
			out := []string{}
			for _, k := range ks {
				out = append(out, k, h[k])
			}
			return []interface{}{"0", out}
		case "HKEYS":
			return append([]string{}, ks...)
		case "HVALS":
			out := []string{}
			for _, k := range ks {
				out = append(out, h[k])
			}
			return out
		case "HDEL":
			n := 0
			for _, k := range a[1:] {
				if _, ok := h[k]; ok {
					delete(h, k)
					n++
				}
			}
			return n
		case "HEXISTS":
			_, ok := h[a[1]]
			return b2i(ok)
		}
		return len(h)
	case "ZADD":
		it, ok := s.typed(db, key, "zset", true)
		if !ok {
			return wrongType
		}
		n := 0
		if len(a)%2 != 1 {
			return syntax
		}
		for i := 1; i < len(a); i += 2 {
			f, _, ok := score(a[i])
			if !ok {
				return Err("ERR value is not a valid float")
			}
			if _, ok := it.zset[a[i+1]]; !ok {
				n++
			}
			it.zset[a[i+1]] = f
		}
		return n
	case "ZCARD", "ZSCORE", "ZREM", "ZCOUNT", "ZRANGE", "ZREMRANGEBYSCORE", "ZRANGEBYSCORE", "ZREMRANGEBYRANK":
		it, ok := s.typed(db, key, "zset", false)
		if !ok {
			return wrongType
		}
		if it == nil {
			it = &item{kind: "zset", zset: map[string]float64{}}
		} else {
			defer s.dropEmpty(db, key, it)
		}
		switch name {
		case "ZCARD":
			return len(it.zset)
		case "ZSCORE":
			if f, ok := it.zset[a[1]]; ok {
				return strconv.FormatFloat(f, 'g', -1, 64)
			}
			return nilBulk{}
		case "ZREM":
			n := 0
			for _, m := range a[1:] {
				if _, ok := it.zset[m]; ok {
					delete(it.zset, m)
					n++
				}
			}
			return n
		case "ZRANGE", "ZREMRANGEBYRANK":
			m := s.zsorted(it)
			i, j, ok := rangeIdx(len(m), a[1], a[2])
			if !ok {
				return notInt
			}
			m = m[i:j]
			if name == "ZREMRANGEBYRANK" {
				for _, k := range m {
					delete(it.zset, k)
				}
				return len(m)
			}
			out := []string{}
			for _, k := range m {
				out = append(out, k)
				if len(a) > 3 {
					out = append(out, strconv.FormatFloat(it.zset[k], 'g', -1, 64))
				}
			}
			return out
		}
		lo, lx, ok1 := score(a[1])
		hi, hx, ok2 := score(a[2])
		if !ok1 || !ok2 {
			return Err("ERR min or max is not a float")
		}
		out := []string{}
		for _, k := range s.zsorted(it) {
			f := it.zset[k]
			if f < lo || f > hi || (lx && f == lo) || (hx && f == hi) {
				continue
			}
			out = append(out, k)
		}
		if name == "ZREMRANGEBYSCORE" {
			for _, k := range out {
				delete(it.zset, k)
			}
		}
		if name == "ZRANGEBYSCORE" {
			return out
		}
		return len(out)
	case "SADD", "SREM", "SMEMBERS", "SISMEMBER", "SCARD":
		it, ok := s.typed(db, key, "set", name == "SADD")
		if !ok {
			return wrongType
		}
		if it == nil {
			it = &item{kind: "set", set: map[string]bool{}}
		} else {
			defer s.dropEmpty(db, key, it)
		}
		n := 0
		switch name {
		case "SADD", "SREM":
			for _, m := range a[1:] {
				if it.set[m] == (name == "SREM") {
					n++
				}
				if name == "SADD" {
					it.set[m] = true
				} else {
					delete(it.set, m)
				}
			}
			return n
		case "SISMEMBER":
			return b2i(it.set[a[1]])
		case "SCARD":
			return len(it.set)
		}
		out := []string{}
		for k := range it.set {
			out = append(out, k)
		}
		sort.Strings(out)
		return out
	}
	return Err("ERR unknown command")
}

func toLua(r interface{}) lua.Value {
	switch v := r.(type) {
	case Err:
		t := lua.NewTable()
		t.Set("err", string(v))
		return t
	case Status:
		t := lua.NewTable()
		t.Set("ok", string(v))
		return t
	case int:
		return float64(v)
	case int64:
		return float64(v)
	case string:
		return v
	case nilBulk, nilArray:
		return false
	case []interface{}:
		t := lua.NewTable()
		for i, e := range v {
			t.Set(float64(i+1), toLua(e))
		}
		return t
	case []string:
		t := lua.NewTable()
		for i, e := range v {
			t.Set(float64(i+1), e)
		}
		return t
	}
	panic(fmt.Sprintf("%T", r))
}

func fromLua(v lua.Value) interface{} {
	switch x := v.(type) {
	case nil:
		return nilBulk{}
	case bool:
		if x {
			return 1
		}
		return nilBulk{}
	case float64:
		return int64(x)
	case string:
		return x
	case *lua.Table:
		if e, ok := x.Get("err").(string); ok {
			return Err(e)
		}
		if e, ok := x.Get("ok").(string); ok {
			return Status(e)
		}
		out := []interface{}{}
		for i := 1; ; i++ {
			e := x.Get(float64(i))
			if e == nil {
				break
			}
			out = append(out, fromLua(e))
		}
		return out
	}
	return nilBulk{}
}

func (s *Server) script(c *conn, src string, keys, argv []string) interface{} {
	kt, at, rt := lua.NewTable(), lua.NewTable(), lua.NewTable()
	for _, k := range keys {
		kt.Append(k)
	}
	for _, v := range argv {
		at.Append(v)
	}
	call := func(args []lua.Value, protect bool) ([]lua.Value, error) {
		var sa []string
		for _, v := range args {
			switch x := v.(type) {
			case string:
				sa = append(sa, x)
			case float64:
				sa = append(sa, strconv.FormatFloat(x, 'g', 17, 64))
			default:
				return nil, fmt.Errorf("Lua redis() command arguments must be strings or integers")
			}
		}
		if len(sa) == 0 {
			return nil, fmt.Errorf("Please specify at least one argument for redis.call()")
		}
		n := strings.ToUpper(sa[0])
		switch n {
		case "MULTI", "EXEC", "EVAL", "EVALSHA", "AUTH", "SCRIPT", "WATCH", "DISCARD":
			return nil, fmt.Errorf("This Redis command is not allowed from scripts")
		}
		for i := range sa {
			// 17 significant digits of an integer print as an integer in redis
			if f, ok := args[i].(float64); ok && f == math.Trunc(f) && math.Abs(f) < 1e17 {
				sa[i] = strconv.FormatFloat(f, 'f', -1, 64)
			}
		}
		db := c.db
		r := s.exec(c, sa, true)
		if n != "SELECT" {
			c.db = db
		}
		s.recordLocked(c, sa, true, string(encode(nil, r)))
		if e, ok := r.(Err); ok && !protect {
			t := lua.NewTable()
			t.Set("err", string(e))
			return nil, lua.ErrVal{V: t}
		}
		return []lua.Value{toLua(r)}, nil
	}
	rt.Set("call", lua.Fn(func(a []lua.Value) ([]lua.Value, error) { return call(a, false) }))
	rt.Set("pcall", lua.Fn(func(a []lua.Value) ([]lua.Value, error) {
		r, err := call(a, true)
		if err != nil {
			t := lua.NewTable()
			t.Set("err", err.Error())
			return []lua.Value{t}, nil
		}
		return r, nil
	}))
	reply := func(field string) lua.Value {
		return lua.Fn(func(a []lua.Value) ([]lua.Value, error) {
			t := lua.NewTable()
			v := ""
			if len(a) > 0 {
				v = lua.ToString(a[0])
			}
			t.Set(field, v)
			return []lua.Value{t}, nil
		})
	}
	rt.Set("error_reply", reply("err"))
	rt.Set("status_reply", reply("ok"))
	rt.Set("log", lua.Fn(func(a []lua.Value) ([]lua.Value, error) { return nil, nil }))
	rt.Set("replicate_commands", lua.Fn(func(a []lua.Value) ([]lua.Value, error) { return []lua.Value{true}, nil }))
	rt.Set("sha1hex", lua.Fn(func(a []lua.Value) ([]lua.Value, error) {
		h := sha1.Sum([]byte(lua.ToString(a[0])))
		return []lua.Value{hex.EncodeToString(h[:])}, nil
	}))
	for i, n := range []string{"LOG_DEBUG", "LOG_VERBOSE", "LOG_NOTICE", "LOG_WARNING"} {
		rt.Set(n, float64(i))
	}
	db := c.db
	out, err := lua.Run(src, map[string]lua.Value{"KEYS": kt, "ARGV": at, "redis": rt})
	c.db = db
	if err != nil {
		if e, ok := err.(lua.ErrVal); ok {
			if t, ok := e.V.(*lua.Table); ok {
				if m, ok := t.Get("err").(string); ok {
					return Err(oneLine(m))
				}
			}
		}
		return Err(oneLine("ERR Error running script: " + err.Error()))
	}
	if len(out) == 0 {
		return nilBulk{}
	}
	return fromLua(out[0])
}

func oneLine(s string) string { return strings.NewReplacer("\r", " ", "\n", " ").Replace(s) }
