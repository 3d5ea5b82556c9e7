// Monitor of P22: what clients built from configurations present to servers.
package p22

import (
	"context"
	"crypto/tls"
	"database/sql"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/SkyAPM/go2sky"
	"github.com/chanjarster/gears/confs"
	"github.com/chanjarster/gears/simplelog"
	"github.com/elastic/go-elasticsearch/v7"
	"github.com/go-redis/redis/v7"
	"github.com/go-sql-driver/mysql"
	"verif/harness/fakeredis"
	"verif/harness/fakesql"
	"verif/harness/spans"
	"verif/harness/tlsca"
	"verif/harness/vk"
)

type fatal struct{ text string }

// fataler turns ErrLogger.Fatal into a panic that can be caught.
type fataler struct{}

func (fataler) Write(b []byte) (int, error) { panic(fatal{string(b)}) }

var tracer *go2sky.Tracer

func TestMain(m *testing.M) {
	mysql.SetLogger(quiet{})
	tracer, _ = spans.New("p22")
	vk.Main(m, "P22")
}

type quiet struct{}

func (quiet) Print(...interface{}) {}

var specials = []string{"", "root", "a:b", "a@b", "a/b", "a?b", "a#b", "a%b", "a%41b", "a b", "a+b", "a&b=c", "a=b", "'a'", `a"b`, `a\b`, "é日本", "a,b", "[a]", "{a}", "(a)", "tcp(x)/y", "a;b", "$a!", "p@ss:w/rd?x=1#f", "://", "@", ":", "/", "?", "%", "%zz", "a\tb", "-", "~", "*", "|", "<a>", "^", "`"}

func text(c *vk.Case, max int, utf bool) string {
	if c.Intn(3) != 0 {
		return specials[c.Intn(len(specials))]
	}
	if utf {
		r := make([]rune, c.Intn(max))
		for i := range r {
			switch c.Intn(3) {
			case 0:
				r[i] = rune(33 + c.Intn(94))
			case 1:
				r[i] = []rune(":@/?#%&=+,; '\"\\[]")[c.Intn(17)]
			default:
				r[i] = rune(1 + c.Intn(0x3ff))
			}
		}
		return string(r)
	}
	b := make([]byte, c.Intn(max))
	for i := range b {
		b[i] = byte(1 + c.Intn(255))
	}
	return string(b)
}

func host(c *vk.Case) string {
	if c.Intn(4) == 0 {
		return "localhost"
	}
	return fmt.Sprintf("127.%d.%d.%d", c.Intn(3), c.Intn(3), 1+c.Intn(200))
}

func listenHost(h string) string {
	if h == "localhost" {
		return "127.0.0.1"
	}
	return h
}

type limits struct {
	open, idle int
	life       time.Duration
}

func limit(c *vk.Case) limits {
	l := limits{open: c.Intn(6), idle: c.Intn(5)}
	if c.Intn(10) == 0 {
		l.open = -1
	}
	if c.Intn(10) == 0 {
		l.idle = -1
	}
	switch c.Intn(4) {
	case 0:
		l.life = 60 * time.Millisecond
	case 1:
		l.life = time.Hour
	case 2:
		l.life = 40 * time.Minute
	}
	return l
}

// build runs a constructor; a Fatal or a panic comes back as text.
func build(f func() *sql.DB) (db *sql.DB, trouble string) {
	p, bad := vk.Catch(func() { db = f() })
	if bad {
		if x, ok := p.(fatal); ok {
			return nil, "fatal: " + x.text
		}
		return nil, fmt.Sprint("panic: ", p)
	}
	return db, ""
}

// pool checks the limits of a handle.
func pool(c *vk.Case, kind string, db *sql.DB, l limits, s *fakesql.Server) {
	want := l.open
	if want < 0 {
		want = 0
	}
	if got := db.Stats().MaxOpenConnections; got != want {
		c.Violate(kind+": maximum of open connections", map[string]interface{}{"got": got, "want": want})
		return
	}
	k := 1 + c.Intn(4)
	if want > 0 && k > want {
		k = want
	}
	var held []*sql.Conn
	get := func(d time.Duration) error {
		ctx, cancel := context.WithTimeout(context.Background(), d)
		defer cancel()
		x, err := db.Conn(ctx)
		if err == nil {
			held = append(held, x)
		}
		return err
	}
	for i := 0; i < k; i++ {
		if err := get(20 * time.Second); err != nil {
			c.Violate(kind+": connection refused below the limit", map[string]interface{}{"err": err.Error(), "limits": fmt.Sprint(l), "held": i})
			return
		}
	}
	if want > 0 && k == want {
		if err := get(30 * time.Millisecond); !errors.Is(err, context.DeadlineExceeded) {
			c.Violate(kind+": more connections than configured", map[string]interface{}{"err": fmt.Sprint(err), "limits": fmt.Sprint(l)})
		}
		vk.Count("open limit reached", 1)
	}
	n := len(held)
	for _, x := range held {
		x.Close()
	}
	idle := l.idle
	if idle < 0 {
		idle = 0
	}
	if want > 0 && idle > want {
		idle = want
	}
	if l.life == 0 || l.life > time.Minute {
		exp := n
		if exp > idle {
			exp = idle
		}
		if got := db.Stats().Idle; got != exp {
			c.Violate(kind+": idle connections", map[string]interface{}{"got": got, "want": exp, "limits": fmt.Sprint(l)})
			return
		}
		vk.Count("idle limit checked", 1)
	}
	if idle > 0 {
		if err := db.Ping(); err != nil {
			c.Violate(kind+": ping failed", err.Error())
			return
		}
		before := len(s.Sessions())
		if l.life == 60*time.Millisecond {
			time.Sleep(100 * time.Millisecond)
		} else {
			time.Sleep(20 * time.Millisecond)
		}
		if err := db.Ping(); err != nil {
			c.Violate(kind+": ping failed", err.Error())
			return
		}
		after := len(s.Sessions())
		if l.life == 60*time.Millisecond && after == before {
			c.Violate(kind+": connection outlived its life time", fmt.Sprint(l))
		}
		if l.life != 60*time.Millisecond && after != before {
			c.Violate(kind+": connection not reused", map[string]interface{}{"limits": fmt.Sprint(l), "stats": fmt.Sprintf("%+v", db.Stats())})
		}
		vk.Count("life time checked", 1)
	}
}

// first is the first session that presented itself.
func first(c *vk.Case, kind string, s *fakesql.Server) (fakesql.Session, bool) {
	ss := s.Sessions()
	for _, x := range ss {
		if x.Failed != "" {
			c.Violate(kind+": protocol trouble", x.Failed)
			return x, false
		}
	}
	for _, x := range ss {
		if x.Auth != nil {
			return x, true
		}
	}
	c.Violate(kind+": nobody logged in", fmt.Sprintf("%d connections", len(ss)))
	return fakesql.Session{}, false
}

type param struct{ k, v string }

// join writes parameters the documented way; blanks and entries that are not
// a pair are skipped by contract.
func join(c *vk.Case, ps []param) string {
	out := []string{}
	for _, p := range ps {
		if c.Intn(5) == 0 {
			out = append(out, []string{"", "junk", "bad=%zz", "bad=%"}[c.Intn(4)])
			vk.Count("parameter lists with an unusable entry", 1)
		}
		out = append(out, p.k+"="+url.QueryEscape(p.v))
	}
	return strings.Join(out, "&")
}

func TestMySQL(t *testing.T) {
	simplelog.ErrLogger.SetOutput(fataler{})
	vk.Rule("MySQL: user, proof of the password, database, SET statements, capability flags, times and limits on the wire equal the configuration after customizing")
	vk.Cases("mysql", vk.N(240, 3000), func(c *vk.Case) {
		h := host(c)
		s := fakesql.MySQL(listenHost(h))
		defer s.Close()
		l := limit(c)
		conf := &confs.MysqlConf{Host: h, Port: s.Port, Username: text(c, 30, false), Password: text(c, 40, false), Database: text(c, 30, false),
			MaxOpenConns: l.open, MaxIdleConns: l.idle, ConnMaxLifetime: l.life, ParseTime: c.Intn(2) == 0}
		if c.Intn(3) == 0 {
			conf.Timeout = time.Duration(1+c.Intn(9)) * time.Second
		}
		if c.Intn(3) == 0 {
			conf.ReadTimeout = time.Duration(3+c.Intn(9)) * time.Second
		}
		if c.Intn(3) == 0 {
			conf.WriteTimeout = time.Duration(3+c.Intn(9)) * time.Second
		}
		loc := time.UTC
		if c.Intn(2) == 0 {
			conf.Loc = []string{"Asia/Shanghai", "America/New_York", "UTC", "Local", "Europe/Paris", "Etc/GMT+3"}[c.Intn(6)]
			var err error
			if loc, err = time.LoadLocation(conf.Loc); err != nil {
				conf.Loc, loc = "", time.UTC
				vk.Count("no time zones", 1)
			}
		}
		sets := map[string]string{}
		names := ""
		found, multi := false, false
		ps := []param{}
		if c.Intn(2) == 0 {
			for _, k := range []string{"time_zone", "sql_mode", "tx_isolation", "wait_timeout", "x"} {
				if c.Intn(2) == 0 {
					v := []string{"'Asia/Shanghai'", "'a b'", "'+08:00'", "1", "'a&b'", "'a=b'", "'100%'", "'é'", "'x?y#z'", "'a/b@c:d'", "TRUE"}[c.Intn(11)]
					ps = append(ps, param{k, v})
					sets[k] = v
				}
			}
			if c.Intn(3) == 0 {
				ps = append(ps, param{"charset", "utf8mb4"})
				names = "utf8mb4"
			}
			if c.Intn(3) == 0 {
				ps = append(ps, param{"clientFoundRows", "true"})
				found = true
			}
			c.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
			conf.Params = join(c, ps)
		}
		user, pw, dbn := conf.Username, conf.Password, conf.Database
		parse := conf.ParseTime
		var other *fakesql.Server
		var cust confs.MysqlConfigCustomizer
		saw := 0
		if c.Intn(2) == 0 {
			kind := c.Intn(6)
			nu, np, nd := text(c, 20, false), text(c, 20, false), text(c, 20, false)
			if kind == 4 {
				other = fakesql.MySQL("127.0.0.1")
				defer other.Close()
			}
			cust = func(mc *mysql.Config) {
				saw++
				switch kind {
				case 0:
					mc.User, mc.Passwd, mc.DBName = nu, np, nd
				case 1:
					mc.Params["autocommit"] = "1"
					mc.Params["sql_mode"] = "'own'"
				case 2:
					mc.ClientFoundRows = true
					mc.MultiStatements = true
				case 3:
					mc.ParseTime = !mc.ParseTime
				case 4:
					mc.Addr = fmt.Sprintf("127.0.0.1:%d", other.Port)
				}
			}
			switch kind {
			case 0:
				user, pw, dbn = nu, np, nd
			case 1:
				sets["autocommit"] = "1"
				sets["sql_mode"] = "'own'"
			case 2:
				found, multi = true, true
			case 3:
				parse = !parse
			}
		}
		traced := c.Intn(2) == 0
		before := *conf
		db, trouble := build(func() *sql.DB {
			if traced {
				return confs.NewMySqlDbWithTracer(conf, tracer, cust)
			}
			return confs.NewMySqlDb(conf, cust)
		})
		det := map[string]interface{}{"conf": fmt.Sprintf("%+q", fmt.Sprint(before)), "traced": traced}
		if trouble != "" {
			det["trouble"] = trouble
			c.Violate("mysql: valid configuration refused", det)
			return
		}
		defer db.Close()
		srv := s
		if other != nil {
			srv = other
			if n := len(s.Sessions()); n != 0 {
				c.Violate("mysql: customizer's address ignored", det)
				return
			}
		}
		x, ok := first(c, "mysql", srv)
		if !ok {
			return
		}
		if x.User != user {
			det["got"] = x.User
			c.Violate("mysql: user", det)
		}
		if !x.Auth(pw) {
			c.Violate("mysql: password", det)
		}
		if x.Database != dbn {
			det["got"] = x.Database
			c.Violate("mysql: database", det)
		}
		if other == nil && x.Addr != fmt.Sprintf("%s:%d", listenHost(h), s.Port) {
			det["got"] = x.Addr
			c.Violate("mysql: address", det)
		}
		got := map[string]string{}
		gotNames := ""
		for _, q := range x.Queries {
			switch {
			case strings.HasPrefix(q, "SET NAMES "):
				gotNames = q[10:]
			case strings.HasPrefix(q, "SET "):
				for _, a := range strings.Split(q[4:], ",") {
					kv := strings.SplitN(strings.TrimSpace(a), "=", 2)
					if len(kv) != 2 {
						kv = append(kv, "")
					}
					if _, dup := got[kv[0]]; dup {
						c.Violate("mysql: parameter set twice", det)
					}
					got[kv[0]] = kv[1]
				}
			}
		}
		if !reflect.DeepEqual(got, sets) || gotNames != names {
			det["got"], det["want"] = fmt.Sprint(got, gotNames), fmt.Sprint(sets, names)
			c.Violate("mysql: connection parameters", det)
		}
		if (x.Caps&2 != 0) != found || (x.Caps&0x10000 != 0) != multi {
			det["caps"] = x.Caps
			c.Violate("mysql: capability flags", det)
		}
		if cust != nil && saw == 0 {
			c.Violate("mysql: customizer not called", det)
		}
		if !reflect.DeepEqual(before, *conf) {
			c.Violate("mysql: configuration changed", det)
		}
		var v interface{}
		if err := db.QueryRow("SELECT d").Scan(&v); err != nil {
			det["err"] = err.Error()
			c.Violate("mysql: query failed", det)
			return
		}
		if parse {
			w, _ := time.ParseInLocation("2006-01-02 15:04:05", fakesql.DateText, loc)
			g, isT := v.(time.Time)
			if !isT || !g.Equal(w) || g.Location().String() != loc.String() {
				det["got"], det["want"] = fmt.Sprint(v), fmt.Sprint(w)
				c.Violate("mysql: time values", det)
			}
		} else if b, isB := v.([]byte); !isB || string(b) != fakesql.DateText {
			det["got"] = fmt.Sprintf("%T %v", v, v)
			c.Violate("mysql: time values", det)
		}
		pool(c, "mysql", db, l, srv)
		c.Observed(fmt.Sprint("mysql", user, pw, dbn, conf.Params, traced, l))
		c.Sample(map[string]interface{}{"user": user, "database": dbn, "params": conf.Params, "limits": fmt.Sprint(l), "queries": x.Queries})
	})
	vk.Cases("mysqltime", vk.N(24, 160), func(c *vk.Case) {
		s := fakesql.MySQL("127.0.0.1")
		defer s.Close()
		d := time.Duration(150+50*c.Intn(6)) * time.Millisecond
		conf := &confs.MysqlConf{Host: "127.0.0.1", Port: s.Port, Username: "u", Password: "p", Database: "d"}
		traced := c.Intn(2) == 0
		mk := func() (*sql.DB, string) {
			return build(func() *sql.DB {
				if traced {
					return confs.NewMySqlDbWithTracer(conf, tracer, nil)
				}
				return confs.NewMySqlDb(conf, nil)
			})
		}
		kind := c.Intn(4)
		if kind == 2 || kind == 3 {
			dialTime(c, "mysql", kind == 2, func(port int, sec int) (func(), time.Duration) {
				conf.Port = port
				conf.Timeout = time.Duration(sec) * time.Second / 4
				return func() { db, _ := mk(); closeDB(db) }, conf.Timeout
			})
			return
		}
		if kind == 0 {
			conf.ReadTimeout = d
		} else {
			conf.WriteTimeout = d
			s.ReadBuffer(4096)
		}
		db, trouble := mk()
		if trouble != "" {
			c.Violate("mysql: valid configuration refused", trouble)
			return
		}
		defer db.Close()
		db.SetMaxOpenConns(1)
		s.Stall(true)
		q := "DO 1"
		if kind == 1 {
			q = "DO " + strings.Repeat("x", 4<<20-100)
		}
		ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
		defer cancel()
		t0 := time.Now()
		_, err := db.ExecContext(ctx, q)
		el := time.Since(t0)
		if err == nil || el < d || el > 30*time.Second {
			c.Violate([]string{"mysql: read timeout", "mysql: write timeout"}[kind], map[string]interface{}{"want": d.String(), "took": el.String(), "err": fmt.Sprint(err)})
		}
		vk.Count([]string{"read timeouts", "write timeouts"}[kind], 1)
		c.Observed(fmt.Sprint("time", kind, d, traced))
	})
}

func closeDB(db *sql.DB) {
	if db != nil {
		db.Close()
	}
}

// deaf is a listening socket whose backlog is full.
func deaf() (port int, done func(), ok bool) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return 0, nil, false
	}
	if err = syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err == nil {
		err = syscall.Listen(fd, 0)
	}
	if err != nil {
		syscall.Close(fd)
		return 0, nil, false
	}
	sa, _ := syscall.Getsockname(fd)
	port = sa.(*syscall.SockaddrInet4).Port
	var conns []net.Conn
	done = func() {
		for _, x := range conns {
			x.Close()
		}
		syscall.Close(fd)
	}
	for i := 0; i < 8; i++ {
		x, err := net.DialTimeout("tcp", "127.0.0.1:"+strconv.Itoa(port), 300*time.Millisecond)
		if err != nil {
			return port, done, true
		}
		conns = append(conns, x)
	}
	done()
	return 0, nil, false
}

// dialTime checks the time limit of establishing connections: a dial that gets
// no answer ends after the configured time, not before.
func dialTime(c *vk.Case, kind string, _ bool, mk func(port, sec int) (func(), time.Duration)) {
	port, done, ok := deaf()
	if !ok {
		vk.Count("no deaf sockets", 1)
		return
	}
	defer done()
	run, d := mk(port, 1+c.Intn(3))
	t0 := time.Now()
	end := make(chan struct{})
	go func() { run(); close(end) }()
	select {
	case <-end:
	case <-time.After(d + 25*time.Second):
		c.Violate(kind+": connect timeout", map[string]interface{}{"want": d.String(), "took": "more than 25 s longer"})
		return
	}
	if el := time.Since(t0); el < d {
		c.Violate(kind+": connect timeout", map[string]interface{}{"want": d.String(), "took": el.String()})
	}
	vk.Count("connect timeouts", 1)
	c.Observed(fmt.Sprint(kind, "dial", d))
}

func TestPostgres(t *testing.T) {
	simplelog.ErrLogger.SetOutput(fataler{})
	vk.Rule("PostgreSQL: user, password, database, run-time parameters and limits on the wire equal the configuration after customizing")
	cert := tlsca.Issue(nil, tlsca.Opts{Name: "pg", Server: true})
	vk.Cases("pg", vk.N(240, 3000), func(c *vk.Case) {
		h := host(c)
		s := fakesql.PG(listenHost(h))
		defer s.Close()
		s.SetOpt("auth", []string{"trust", "cleartext", "md5"}[c.Intn(3)])
		l := limit(c)
		nonempty := func(max int) string {
			for {
				if v := text(c, max, true); v != "" {
					return v
				}
			}
		}
		conf := &confs.PostgresqlConf{Host: h, Port: s.Port, Username: nonempty(30), Password: text(c, 40, true), Database: text(c, 30, true),
			MaxOpenConns: l.open, MaxIdleConns: l.idle, ConnMaxLifetime: l.life}
		if c.Intn(3) == 0 {
			conf.ConnectTimeout = 5 + c.Intn(60)
		}
		if conf.Password == "" {
			s.SetOpt("auth", "trust")
		}
		want := map[string]string{}
		ps := []param{}
		keys := []string{"search_path", "application_name", "timezone", "statement_timeout", "work_mem", "a.b", "IntervalStyle", "MyApp.UserName"}
		vals := []string{"a b", "a,b", "a, b", "public,x,y", "x&y", "x=y", "100%", "a?b#c", "'q'", `b\s`, "é日本", "a+b", " edge ", "1", "a;b", "/p"}
		for _, k := range keys {
			if c.Intn(3) == 0 {
				v := vals[c.Intn(len(vals))]
				ps = append(ps, param{k, v})
				want[k] = v
			}
		}
		mode := "disable"
		if c.Intn(4) == 0 {
			mode = "require"
			s.TLS(func(x net.Conn) net.Conn {
				return tls.Server(x, &tls.Config{Certificates: []tls.Certificate{cert}})
			})
		}
		var cust confs.PostgresqlUrlOptionsCustomizer
		if c.Intn(2) == 0 {
			own := map[string]string{"DateStyle": "", "lock_timeout": vals[c.Intn(len(vals))]}
			delete(own, "DateStyle")
			inParams := c.Intn(2) == 0
			if inParams {
				ps = append(ps, param{"sslmode", mode})
			} else {
				own["sslmode"] = mode
			}
			cust = func(o map[string]string) {
				for k, v := range own {
					o[k] = v
				}
			}
			want["lock_timeout"] = own["lock_timeout"]
		} else {
			ps = append(ps, param{"sslmode", mode})
		}
		c.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
		conf.Params = join(c, ps)
		traced := c.Intn(2) == 0
		before := *conf
		db, trouble := build(func() *sql.DB {
			if traced {
				return confs.NewPostgresqlDbWithTracer(conf, tracer, cust)
			}
			return confs.NewPostgresqlDb(conf, cust)
		})
		det := map[string]interface{}{"conf": fmt.Sprintf("%+q", fmt.Sprint(before)), "traced": traced, "auth": s.Opt("auth"), "want": fmt.Sprint(want)}
		if trouble != "" {
			det["trouble"] = trouble
			c.Violate("postgresql: valid configuration refused", det)
			return
		}
		defer db.Close()
		x, ok := first(c, "postgresql", s)
		if !ok {
			return
		}
		if x.User != conf.Username {
			det["got"] = x.User
			c.Violate("postgresql: user", det)
		}
		if !x.Auth(conf.Password) {
			c.Violate("postgresql: password", det)
		}
		if x.Database != conf.Database {
			det["got"] = x.Database
			c.Violate("postgresql: database", det)
		}
		if x.TLS != (mode == "require") {
			c.Violate("postgresql: sslmode", det)
		}
		got := map[string]string{}
		for k, v := range x.Params {
			switch k {
			case "user", "database", "client_encoding", "datestyle", "extra_float_digits":
			default:
				got[k] = v
			}
		}
		if !reflect.DeepEqual(got, want) {
			det["got"] = fmt.Sprint(got)
			c.Violate("postgresql: connection parameters", det)
		}
		if x.Addr != fmt.Sprintf("%s:%d", listenHost(h), s.Port) {
			det["got"] = x.Addr
			c.Violate("postgresql: address", det)
		}
		if !reflect.DeepEqual(before, *conf) {
			c.Violate("postgresql: configuration changed", det)
		}
		pool(c, "postgresql", db, l, s)
		c.Observed(fmt.Sprint("pg", conf.Username, conf.Password, conf.Database, conf.Params, traced, l))
		c.Sample(map[string]interface{}{"user": conf.Username, "database": conf.Database, "params": conf.Params, "limits": fmt.Sprint(l)})
	})
	vk.Cases("pgtime", vk.N(12, 80), func(c *vk.Case) {
		s := fakesql.PG("127.0.0.1")
		defer s.Close()
		conf := &confs.PostgresqlConf{Host: "127.0.0.1", Port: s.Port, Username: "u", Password: "p", Database: "d", Params: "sslmode=disable"}
		traced := c.Intn(2) == 0
		mk := func() (*sql.DB, string) {
			return build(func() *sql.DB {
				if traced {
					return confs.NewPostgresqlDbWithTracer(conf, tracer, nil)
				}
				return confs.NewPostgresqlDb(conf, nil)
			})
		}
		if c.Intn(2) == 0 {
			dialTime(c, "postgresql", true, func(port, sec int) (func(), time.Duration) {
				conf.Port = port
				conf.ConnectTimeout = sec
				return func() { db, _ := mk(); closeDB(db) }, time.Duration(sec) * time.Second
			})
			return
		}
		// a server that accepts but never answers
		s.Hang(true)
		conf.ConnectTimeout = 1 + c.Intn(2)
		d := time.Duration(conf.ConnectTimeout) * time.Second
		t0 := time.Now()
		end := make(chan string, 1)
		go func() { _, tr := mk(); end <- tr }()
		select {
		case tr := <-end:
			if el := time.Since(t0); el < d-50*time.Millisecond || tr == "" {
				c.Violate("postgresql: connect timeout", map[string]interface{}{"want": d.String(), "took": el.String(), "trouble": tr})
			}
		case <-time.After(d + 25*time.Second):
			c.Violate("postgresql: connect timeout", map[string]interface{}{"want": d.String(), "took": "more than 25 s longer"})
		}
		vk.Count("silent servers", 1)
		c.Observed(fmt.Sprint("pg silent", d, traced))
	})
}

func TestOracle(t *testing.T) {
	simplelog.ErrLogger.SetOutput(fataler{})
	vk.Rule("Oracle: user, password, service or SID, connect data and limits on the wire equal the configuration after customizing")
	vk.Cases("ora", vk.N(240, 2400), func(c *vk.Case) {
		h := host(c)
		s := fakesql.Oracle(listenHost(h))
		defer s.Close()
		l := limit(c)
		cred := func(max int) string {
			for {
				v := text(c, max, false)
				if v != "" && strings.ToUpper(v) != "SYS" {
					return v
				}
			}
		}
		conf := &confs.OracleConf{Host: h, Port: s.Port, Username: cred(25), Password: cred(30), MaxOpenConns: l.open, MaxIdleConns: l.idle, ConnMaxLifetime: l.life}
		if c.Intn(12) == 0 {
			conf.Password = ""
		}
		plain := func() string {
			for {
				v := strings.Trim(text(c, 20, false), "/")
				if v != "" {
					return v
				}
			}
		}
		if c.Intn(3) > 0 {
			conf.Service = plain()
		}
		if conf.Service == "" || c.Intn(3) == 0 {
			conf.Sid = strings.TrimSpace(strings.NewReplacer(",", "", "\xc2\x85", "", "\xc2\xa0", "").Replace(plain()))
			if conf.Sid == "" {
				conf.Sid = "XE"
			}
		}
		if c.Intn(3) == 0 {
			conf.ConnectTimeout = 5 + c.Intn(60)
		}
		if c.Intn(4) == 0 {
			// the configured node is down, the next one answers
			port, done := closed()
			defer done()
			conf.Port = port
			conf.Host = "127.0.0.1"
			conf.Servers = fmt.Sprintf("%s:%d", h, s.Port)
			if c.Intn(2) == 0 {
				conf.Servers = fmt.Sprintf("127.0.0.1:%d,%s", port, conf.Servers)
			}
		}
		inst, proxy, osuser := "", "", ""
		ps := []param{}
		if c.Intn(3) == 0 {
			inst = strings.TrimSpace(strings.Replace(plain(), ",", "", -1))
			if inst == "" {
				inst = "i1"
			}
			ps = append(ps, param{"INSTANCE NAME", inst})
		}
		if c.Intn(3) == 0 {
			proxy = "px&=%?#"
			ps = append(ps, param{"PROXY CLIENT NAME", proxy})
		}
		conf.Params = join(c, ps)
		var cust confs.OracleUrlOptionsCustomizer
		if c.Intn(2) == 0 {
			osuser = "os &u%"
			cust = func(o map[string]string) { o["OS USER"] = osuser }
		}
		traced := c.Intn(2) == 0
		before := *conf
		db, trouble := build(func() *sql.DB {
			if traced {
				return confs.NewOracleDbWithTracer(conf, tracer, cust)
			}
			return confs.NewOracleDb(conf, cust)
		})
		det := map[string]interface{}{"conf": fmt.Sprintf("%+q", fmt.Sprint(before)), "traced": traced}
		if trouble != "" {
			det["trouble"] = trouble
			c.Violate("oracle: valid configuration refused", det)
			return
		}
		defer db.Close()
		x, ok := first(c, "oracle", s)
		if !ok {
			return
		}
		det["connect data"] = x.Connect
		if x.User != conf.Username {
			det["got"] = x.User
			c.Violate("oracle: user", det)
		}
		if !x.Auth(conf.Password) {
			c.Violate("oracle: password", det)
		}
		target := "(SERVICE_NAME=" + conf.Service + ")"
		if conf.Sid != "" {
			target = "(SID=" + conf.Sid + ")"
		}
		if inst != "" {
			target += "(INSTANCE_NAME=" + inst + ")"
		}
		if !strings.Contains(x.Connect, "(CONNECT_DATA="+target+"(CID=") {
			det["want"] = target
			c.Violate("oracle: service, SID or instance", det)
		}
		if x.Params["PROXY_CLIENT_NAME"] != proxy || osuser != "" && (x.Params["AUTH_SID"] != osuser || !strings.Contains(x.Connect, "(USER="+osuser+")")) {
			det["got"] = fmt.Sprint(x.Params)
			c.Violate("oracle: connection parameters", det)
		}
		if x.Addr != fmt.Sprintf("%s:%d", listenHost(h), s.Port) {
			det["got"] = x.Addr
			c.Violate("oracle: address", det)
		}
		if !reflect.DeepEqual(before, *conf) {
			c.Violate("oracle: configuration changed", det)
		}
		pool(c, "oracle", db, l, s)
		c.Observed(fmt.Sprint("ora", conf.Username, conf.Password, conf.Service, conf.Sid, conf.Params, traced, l))
		c.Sample(map[string]interface{}{"user": conf.Username, "connect": x.Connect, "limits": fmt.Sprint(l)})
	})
	vk.Cases("oratime", vk.N(8, 48), func(c *vk.Case) {
		conf := &confs.OracleConf{Host: "127.0.0.1", Username: "u", Password: "p", Sid: "x"}
		traced := c.Intn(2) == 0
		dialTime(c, "oracle", true, func(port, sec int) (func(), time.Duration) {
			if c.Index%4 == 1 {
				sec += 16 // longer than the driver's own limit
			}
			conf.Port = port
			conf.ConnectTimeout = sec
			return func() {
				db, _ := build(func() *sql.DB {
					if traced {
						return confs.NewOracleDbWithTracer(conf, tracer, nil)
					}
					return confs.NewOracleDb(conf, nil)
				})
				closeDB(db)
			}, time.Duration(sec) * time.Second
		})
	})
}

// closed is a port nobody listens on, held so that nobody else gets it.
func closed() (int, func()) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		panic(err)
	}
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		panic(err)
	}
	sa, _ := syscall.Getsockname(fd)
	return sa.(*syscall.SockaddrInet4).Port, func() { syscall.Close(fd) }
}

func TestRedis(t *testing.T) {
	simplelog.ErrLogger.SetOutput(fataler{})
	vk.Rule("Redis: address dialled, password, database and pool limits equal the configuration after customizing")
	vk.Cases("redis", vk.N(320, 4000), func(c *vk.Case) {
		s := fakeredis.New()
		defer s.Close()
		s.Username = ""
		pw := text(c, 40, false)
		s.Password = pw
		h := []string{"localhost", "redis.example.org", "127.0.0.1", "10.1.2.3", "[::1]", "a-b_c"}[c.Intn(6)]
		conf := &confs.RedisConf{Host: h, Port: 1 + c.Intn(65535), Password: pw, Pool: c.Intn(6), MinIdle: c.Intn(4), Db: []int{c.Intn(16), c.Intn(16), c.Intn(1000), c.Intn(1 << 30)}[c.Intn(4)]}
		if conf.Pool > 0 && conf.MinIdle > conf.Pool {
			conf.MinIdle = conf.Pool
		}
		db, size, idle := conf.Db, conf.Pool, conf.MinIdle
		var mu sync.Mutex
		dialled := map[string]int{}
		kind := c.Intn(5)
		real := c.Intn(3) == 0
		if real {
			conf.Host = "127.0.0.1"
			conf.Port = s.Listen()
		}
		var hold, in, most int32
		s.OnCommand = func(args []string) fakeredis.Fault {
			want := atomic.LoadInt32(&hold)
			if want == 0 || strings.ToUpper(args[0]) != "GET" {
				return fakeredis.Fault{}
			}
			n := atomic.AddInt32(&in, 1)
			for {
				m := atomic.LoadInt32(&most)
				if n <= m || atomic.CompareAndSwapInt32(&most, m, n) {
					break
				}
			}
			for i := 0; i < 2000 && atomic.LoadInt32(&most) < want; i++ {
				time.Sleep(time.Millisecond)
			}
			time.Sleep(3 * time.Millisecond)
			atomic.AddInt32(&in, -1)
			return fakeredis.Fault{}
		}
		cust := func(o *redis.Options) {
			if !real {
				o.Dialer = func(ctx context.Context, network, addr string) (net.Conn, error) {
					mu.Lock()
					dialled[network+" "+addr]++
					mu.Unlock()
					return s.Dial(ctx, network, addr)
				}
			}
			o.MaxRetries = -1
			switch kind {
			case 0:
				o.DB = (o.DB + 3) % 16
			case 1:
				o.PoolSize = 2
				o.MinIdleConns = 1
			}
		}
		use := confs.RedisOptionCustomizer(cust)
		if real && kind > 1 && c.Intn(2) == 0 {
			use = nil
		}
		switch kind {
		case 0:
			db = (db + 3) % 16
		case 1:
			size, idle = 2, 1
		}
		before := *conf
		var cl *redis.Client
		p, bad := vk.Catch(func() { cl = confs.NewRedisClient(conf, use) })
		det := map[string]interface{}{"conf": fmt.Sprintf("%+q", fmt.Sprint(before)), "password": fmt.Sprintf("%q", pw), "kind": kind}
		if bad {
			det["trouble"] = fmt.Sprint(p)
			c.Violate("redis: valid configuration refused", det)
			return
		}
		defer cl.Close()
		if err := cl.Set("k", "v", 0).Err(); err != nil {
			det["err"] = err.Error()
			c.Violate("redis: command failed", det)
			return
		}
		if got := s.Dump(db); len(got) != 1 {
			det["want"] = db
			c.Violate("redis: database", det)
		}
		if !real {
			mu.Lock()
			for a := range dialled {
				if a != fmt.Sprintf("tcp %s:%d", conf.Host, conf.Port) {
					det["dialled"] = a
					c.Violate("redis: address", det)
				}
			}
			mu.Unlock()
		}
		if !reflect.DeepEqual(before, *conf) {
			c.Violate("redis: configuration changed", det)
		}
		auth := 0
		for _, x := range s.Log() {
			if strings.ToUpper(x.Args[0]) == "AUTH" {
				auth++
				if len(x.Args) != 2 || x.Args[1] != pw {
					c.Violate("redis: password", det)
				}
			}
		}
		if (auth > 0) != (pw != "") {
			c.Violate("redis: password", det)
		}
		// Pool limits.
		if idle > 0 {
			ok := false
			for i := 0; i < 5000 && !ok; i++ {
				if ok = s.OpenConns() >= idle; !ok {
					time.Sleep(time.Millisecond)
				}
			}
			if !ok {
				det["open"] = s.OpenConns()
				c.Violate("redis: minimal idle connections", det)
			}
			vk.Count("min idle checked", 1)
		}
		if size > 0 {
			k := size + 1 + c.Intn(4)
			atomic.StoreInt32(&hold, int32(size))
			var wg sync.WaitGroup
			for i := 0; i < k; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					cl.Get("k")
				}()
			}
			wg.Wait()
			if m := atomic.LoadInt32(&most); int(m) != size {
				det["concurrent"], det["want"] = m, size
				c.Violate("redis: pool size", det)
			}
			vk.Count("pool size reached", 1)
		}
		c.Observed(fmt.Sprint("redis", conf.Host, pw, db, size, idle))
	})
}

func TestES(t *testing.T) {
	simplelog.ErrLogger.SetOutput(fataler{})
	vk.Rule("Elasticsearch: hosts, credentials and limits seen by HTTP servers equal the configuration after customizing")
	vk.Cases("es", vk.N(160, 2000), func(c *vk.Case) {
		l := struct{ max, idle int }{c.Intn(6), 1 + c.Intn(4)}
		big := c.Index%20 == 7
		if big {
			// more than Go's own limit on idle connections in total
			l.max, l.idle = 0, 105+c.Intn(20)
		}
		var slow int32
		if c.Index%8 == 3 {
			slow = int32(200 + c.Intn(300))
		}
		var mu sync.Mutex
		type seen struct{ host, path, auth string }
		var log []seen
		var hold, most int32
		n := 1 + c.Intn(3)
		if c.Intn(10) == 0 {
			n = 4 + c.Intn(20)
		}
		if big {
			n = 1
		}
		var srvs []*httptest.Server
		open := make([]map[net.Conn]bool, n)
		in := make([]int32, n)
		addrs := []string{}
		prefixes := []string{}
		for i := 0; i < n; i++ {
			i := i
			open[i] = map[net.Conn]bool{}
			h := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				mu.Lock()
				a := r.Header["Authorization"]
				log = append(log, seen{r.Host, r.URL.Path, strings.Join(a, "|")})
				mu.Unlock()
				if d := atomic.SwapInt32(&slow, 0); d > 0 {
					time.Sleep(time.Duration(d) * time.Millisecond)
					vk.Count("es slow answers", 1)
				}
				if want := atomic.LoadInt32(&hold); want > 0 {
					k := atomic.AddInt32(&in[i], 1)
					for {
						m := atomic.LoadInt32(&most)
						if k <= m || atomic.CompareAndSwapInt32(&most, m, k) {
							break
						}
					}
					for j := 0; j < 2000 && atomic.LoadInt32(&in[i]) < want; j++ {
						time.Sleep(time.Millisecond)
						if atomic.LoadInt32(&most) >= want {
							break
						}
					}
					time.Sleep(4 * time.Millisecond)
					atomic.AddInt32(&in[i], -1)
				}
				w.Header().Set("Content-Type", "application/json")
				io.WriteString(w, "{}")
			}))
			h.Config.ConnState = func(x net.Conn, st http.ConnState) {
				mu.Lock()
				if st == http.StateClosed || st == http.StateHijacked {
					delete(open[i], x)
				} else {
					open[i][x] = true
				}
				mu.Unlock()
			}
			h.Start()
			srvs = append(srvs, h)
			p := []string{"", "/", "/es", "/a/b/"}[c.Intn(4)]
			prefixes = append(prefixes, strings.TrimRight(p, "/"))
			addrs = append(addrs, h.URL+p)
		}
		defer func() {
			for _, h := range srvs {
				h.CloseClientConnections()
				h.Close()
			}
		}()
		user := strings.Replace(text(c, 20, false), ":", "", -1)
		pw := text(c, 30, false)
		if user == "" {
			pw = ""
		}
		if pw == "" {
			user = ""
		}
		conf := &confs.EsConf{Addrs: strings.Join(addrs, ","), Username: user, Password: pw, MaxConnsPerHost: l.max, MaxIdleConnsPerHost: l.idle}
		var cust confs.EsConfigCustomizer
		var tr *http.Transport
		nu, np := user, pw
		kind := c.Intn(3)
		cust = func(mc *elasticsearch.Config) {
			tr, _ = mc.Transport.(*http.Transport)
			if kind == 0 {
				mc.Username, mc.Password = "cu", "c:p"
				mc.Header = http.Header{"X-Own": []string{"1"}}
			}
		}
		if kind == 0 {
			nu, np = "cu", "c:p"
		}
		if kind == 2 {
			cust = nil
		}
		before := *conf
		var es *elasticsearch.Client
		det := map[string]interface{}{"conf": fmt.Sprintf("%+q", fmt.Sprint(before)), "user": fmt.Sprintf("%q", nu), "password": fmt.Sprintf("%q", np)}
		if p, bad := vk.Catch(func() { es = confs.NewEsClient(conf, cust) }); bad {
			det["trouble"] = fmt.Sprint(p)
			c.Violate("elasticsearch: valid configuration refused", det)
			return
		}
		if tr != nil {
			defer tr.CloseIdleConnections()
		}
		if !reflect.DeepEqual(before, *conf) {
			c.Violate("elasticsearch: configuration changed", det)
		}
		call := func() {
			r, err := es.Info()
			if err != nil {
				det["err"] = err.Error()
				c.Violate("elasticsearch: request failed", det)
				return
			}
			io.Copy(io.Discard, r.Body)
			r.Body.Close()
		}
		for i := 0; i < 2*n; i++ {
			call()
		}
		mu.Lock()
		hosts := map[string]bool{}
		for _, x := range log {
			ok := false
			for i, h := range srvs {
				if strings.TrimPrefix(h.URL, "http://") == x.host && strings.TrimRight(x.path, "/") == prefixes[i] {
					ok = true
				}
			}
			if !ok {
				det["got"] = fmt.Sprint(x)
				c.Violate("elasticsearch: address", det)
			}
			hosts[x.host] = true
			r := http.Request{Header: http.Header{"Authorization": {x.auth}}}
			u, p, has := r.BasicAuth()
			if has != (nu != "") || u != nu || p != np {
				det["got"] = x.auth
				c.Violate("elasticsearch: credentials", det)
			}
		}
		mu.Unlock()
		if len(hosts) != n {
			det["hosts"] = len(hosts)
			c.Violate("elasticsearch: configured address never used", det)
		}
		// Connections per host: enough requests at once to exceed the limit on
		// every host.
		k := (l.max + 3) * n
		if l.max == 0 {
			k = 8 * n
			if big {
				k = l.idle + 5
			}
			atomic.StoreInt32(&hold, int32(k/n))
		} else {
			atomic.StoreInt32(&hold, int32(l.max))
		}
		var wg sync.WaitGroup
		for i := 0; i < k; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); call() }()
		}
		wg.Wait()
		atomic.StoreInt32(&hold, 0)
		m := int(atomic.LoadInt32(&most))
		want := l.max
		if want == 0 {
			want = k / n
		}
		if l.max > 0 && m > l.max || m < want {
			det["limit"], det["concurrent"] = l.max, m
			c.Violate("elasticsearch: connections per host", det)
		}
		vk.Count("es connection limit reached", 1)
		// Idle connections: each host served several at once; what stays open
		// settles at the limit.
		max := l.idle
		if l.max > 0 && l.max < max {
			max = l.max
		}
		settle := func() (most int) {
			mu.Lock()
			defer mu.Unlock()
			for i := range open {
				if len(open[i]) > most {
					most = len(open[i])
				}
			}
			return
		}
		got := -1
		for i := 0; i < 3000; i++ {
			if got = settle(); got <= max {
				break
			}
			time.Sleep(time.Millisecond)
		}
		if got > max || got < max && m >= l.idle {
			det["idle limit"], det["stay open"] = l.idle, got
			c.Violate("elasticsearch: idle connections per host", det)
		}
		vk.Count("es idle limit checked", 1)
		if big {
			vk.Count("es idle limit above 100", 1)
		}
		c.Observed(fmt.Sprint("es", n, user, pw, l))
		c.Sample(map[string]interface{}{"hosts": n, "user": user, "limits": fmt.Sprint(l), "concurrent": m, "idle": got})
	})
}
