// Monitor of P32: a factory hands out a client only when its server answered,
// and what it says never holds the password.
package p32

import (
	"bytes"
	"database/sql"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/SkyAPM/go2sky"
	"github.com/chanjarster/gears/confs"
	"github.com/chanjarster/gears/simplelog"
	"github.com/elastic/go-elasticsearch/v7"
	"github.com/go-redis/redis/v7"
	"github.com/go-sql-driver/mysql"
	"verif/harness/fakeredis"
	"verif/harness/fakesql"
	"verif/harness/spans"
	"verif/harness/vk"
)

type fatal struct{ text string }

// said keeps what the loggers write.
type said struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *said) Write(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.Write(b)
}

func (s *said) take() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	t := s.b.String()
	s.b.Reset()
	return t
}

var (
	std, errs said
	tracer    *go2sky.Tracer
)

type quiet struct{}

func (quiet) Print(...interface{}) {}

func TestMain(m *testing.M) {
	mysql.SetLogger(quiet{})
	tracer, _ = spans.New("p32")
	vk.Main(m, "P32")
}

// endsHere turns Fatal, which writes and then calls os.Exit, into a panic that
// can be caught. Other lines are only kept.
type endsHere struct{ to *said }

func (e endsHere) Write(b []byte) (int, error) {
	e.to.Write(b)
	pc := make([]uintptr, 32)
	fr := runtime.CallersFrames(pc[:runtime.Callers(2, pc)])
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "log.") && strings.Contains(f.Function, "Fatal") {
			panic(fatal{string(b)})
		}
		if !more {
			return len(b), nil
		}
	}
}

// nobody returns a port that stays bound but is not listened on.
func nobody() (int, func()) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		panic(err)
	}
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		panic(err)
	}
	sa, _ := syscall.Getsockname(fd)
	return sa.(*syscall.SockaddrInet4).Port, func() { syscall.Close(fd) }
}

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

// secret has a core nothing else contains, with any characters around it.
func secret(c *vk.Case) (pw, core string) {
	b := make([]byte, 14)
	for i := range b {
		b[i] = letters[c.Intn(len(letters))]
	}
	core = string(b)
	around := []string{"", "", "@", ":", "/", "%", "é", "a b", "?x=1", "#", "[", "&", "'", `"`, "\\"}
	return around[c.Intn(len(around))] + core + around[c.Intn(len(around))], core
}

var unusable = []string{"a b", "%zz", "[::1", "a\x7fb", "x y:z"}

type sqlKind struct {
	name  string
	serve func(host string) *fakesql.Server
	build func(c *vk.Case, host string, port int, user, pw string, wrong, traced bool) *sql.DB
}

var sqls = []sqlKind{
	{"mysql", fakesql.MySQL, func(c *vk.Case, host string, port int, user, pw string, wrong, traced bool) *sql.DB {
		conf := &confs.MysqlConf{Host: host, Port: port, Username: user, Password: pw, Database: "d", Timeout: 20 * time.Second, MaxOpenConns: c.Intn(3), MaxIdleConns: c.Intn(3)}
		if wrong {
			switch c.Intn(2) {
			case 0:
				conf.Loc = []string{"No/Where", "../etc", "\\x"}[c.Intn(3)]
			default:
				conf.Params = []string{"tls=nosuch", "timeout=x", "parseTime=x", "maxAllowedPacket=x", "collation=nosuch"}[c.Intn(5)]
			}
		}
		if traced {
			return confs.NewMySqlDbWithTracer(conf, tracer, nil)
		}
		return confs.NewMySqlDb(conf, nil)
	}},
	{"postgresql", fakesql.PG, func(c *vk.Case, host string, port int, user, pw string, wrong, traced bool) *sql.DB {
		conf := &confs.PostgresqlConf{Host: host, Port: port, Username: user, Password: pw, Database: "d", Params: "sslmode=disable", ConnectTimeout: 20, MaxOpenConns: c.Intn(3), MaxIdleConns: c.Intn(3)}
		if wrong {
			switch c.Intn(3) {
			case 0:
				conf.Params = []string{"sslmode=nosuch", "sslmode=disable&connect_timeout=x", "sslmode=verify-full&sslrootcert=/nonexistent/x"}[c.Intn(3)]
			case 1:
				conf.Host = unusable[c.Intn(len(unusable))]
			default:
				conf.Port = 70000 + c.Intn(100)
			}
		}
		if traced {
			return confs.NewPostgresqlDbWithTracer(conf, tracer, nil)
		}
		return confs.NewPostgresqlDb(conf, nil)
	}},
	{"oracle", fakesql.Oracle, func(c *vk.Case, host string, port int, user, pw string, wrong, traced bool) *sql.DB {
		conf := &confs.OracleConf{Host: host, Port: port, Username: user, Password: pw, Service: "s", ConnectTimeout: 20, MaxOpenConns: c.Intn(3), MaxIdleConns: c.Intn(3)}
		if wrong {
			switch c.Intn(3) {
			case 0:
				conf.Service = ""
				if c.Intn(2) == 0 {
					conf.Servers = fmt.Sprintf("%s:%d", host, port)
				}
				if c.Intn(3) == 0 {
					conf.Params = "SERVER=x"
				}
			case 1:
				conf.Host = unusable[c.Intn(len(unusable))]
			default:
				conf.Port = 70000 + c.Intn(100)
			}
		}
		if traced {
			return confs.NewOracleDbWithTracer(conf, tracer, nil)
		}
		return confs.NewOracleDb(conf, nil)
	}},
}

var modes = []string{"ok", "nobody", "close", "auth", "ping", "config"}

// judge looks at what construction did.
func judge(c *vk.Case, kind, mode, core string, got, logged bool, trouble interface{}, refused bool) {
	text := std.take() + errs.take()
	if f, ok := trouble.(fatal); ok {
		text += f.text
	} else if trouble != nil {
		text += fmt.Sprint(trouble)
	}
	det := map[string]interface{}{"kind": kind, "mode": mode, "said": text}
	switch {
	case strings.Contains(text, core):
		c.Violate(kind+": the password was printed", det)
	case mode == "ok" && (refused || !got):
		c.Violate(kind+": a server that answers was refused", det)
	case mode == "ok" && !logged:
		c.Violate(kind+": a client was handed out before its server was reached", det)
	case mode != "ok" && !refused:
		c.Violate(kind+": a client was handed out although its server cannot be used", det)
	}
	vk.Count(kind+" "+mode, 1)
}

func TestSQL(t *testing.T) {
	vk.Rule("databases: handed out exactly when the server lets the client in and answers; passwords never printed")
	simplelog.StdLogger.SetOutput(endsHere{&std})
	simplelog.ErrLogger.SetOutput(endsHere{&errs})
	vk.Cases("sql", vk.N(6000, 60000), func(c *vk.Case) {
		k := sqls[c.Intn(len(sqls))]
		mode := modes[c.Intn(len(modes))]
		traced := c.Intn(2) == 0
		pw, core := secret(c)
		user := "user"
		s := k.serve("127.0.0.1")
		defer s.Close()
		if k.name == "postgresql" {
			s.SetOpt("auth", []string{"cleartext", "md5", ""}[c.Intn(3)])
		}
		port := s.Port
		switch mode {
		case "nobody":
			p, free := nobody()
			defer free()
			port = p
		case "close", "auth", "ping":
			s.SetOpt("fail", mode)
		}
		std.take()
		errs.take()
		var db *sql.DB
		p, bad := vk.Catch(func() { db = k.build(c, "127.0.0.1", port, user, pw, mode == "config", traced) })
		logged := false
		for _, x := range s.Sessions() {
			logged = logged || x.Logged && x.Pings > 0 || x.Logged && k.name != "oracle" && len(x.Queries) > 0
		}
		if db != nil {
			db.Close()
		}
		c.Observed(fmt.Sprint(k.name, mode, traced, len(pw)-len(core), s.Opt("auth"), bad))
		judge(c, k.name, mode, core, db != nil, logged, p, bad)
	})
}

func TestRedis(t *testing.T) {
	vk.Rule("redis: handed out exactly when the server lets the client in and answers; passwords never printed")
	simplelog.StdLogger.SetOutput(endsHere{&std})
	simplelog.ErrLogger.SetOutput(endsHere{&errs})
	vk.Cases("redis", vk.N(1500, 16000), func(c *vk.Case) {
		mode := []string{"ok", "nobody", "close", "auth", "ping", "db"}[c.Intn(6)]
		pw, core := secret(c)
		s := fakeredis.New()
		defer s.Close()
		s.Username = ""
		s.Password = pw
		conf := &confs.RedisConf{Host: "127.0.0.1", Password: pw, Db: c.Intn(3), Pool: c.Intn(4), MinIdle: c.Intn(2)}
		nobodyPort := 0
		switch mode {
		case "nobody":
			p, free := nobody()
			defer free()
			nobodyPort = p
			conf.MinIdle = 0 // go-redis races with itself when idle connections cannot be dialled
		case "auth":
			s.Password = "other"
			if c.Intn(2) == 0 {
				conf.Password = ""
			}
		case "close":
			s.OnCommand = func([]string) fakeredis.Fault { return fakeredis.Fault{Kind: fakeredis.DropBefore} }
		case "ping", "db":
			want := map[string]string{"ping": "PING", "db": "SELECT"}[mode]
			if mode == "db" {
				conf.Db = 1 + c.Intn(15)
			}
			s.OnCommand = func(a []string) fakeredis.Fault {
				if strings.EqualFold(a[0], want) {
					return fakeredis.Fault{Kind: fakeredis.ErrorReply, Text: "LOADING Redis is loading the dataset in memory"}
				}
				return fakeredis.Fault{}
			}
		}
		if conf.Port = s.Listen(); nobodyPort != 0 {
			conf.Port = nobodyPort
		}
		std.take()
		errs.take()
		var cl *redis.Client
		p, bad := vk.Catch(func() {
			cl = confs.NewRedisClient(conf, []confs.RedisOptionCustomizer{nil, func(o *redis.Options) { o.MaxRetries = -1 }}[c.Intn(2)])
		})
		logged := false
		for _, x := range s.Log() {
			logged = logged || strings.EqualFold(x.Args[0], "PING")
		}
		if cl != nil {
			cl.Close()
		}
		c.Observed(fmt.Sprint(mode, conf.Db, conf.Pool, conf.MinIdle, len(pw)-len(core), bad))
		judge(c, "redis", mode, core, cl != nil, logged, p, bad)
	})
}

func TestES(t *testing.T) {
	vk.Rule("Elasticsearch: handed out exactly when the server answers without an error; passwords never printed")
	simplelog.StdLogger.SetOutput(endsHere{&std})
	simplelog.ErrLogger.SetOutput(endsHere{&errs})
	vk.Cases("es", vk.N(1500, 16000), func(c *vk.Case) {
		mode := []string{"ok", "nobody", "close", "auth", "ping", "config"}[c.Intn(6)]
		pw, core := secret(c)
		var mu sync.Mutex
		asked := 0
		status := 200
		switch mode {
		case "auth":
			status = []int{401, 403}[c.Intn(2)]
		case "ping":
			status = []int{400, 404, 429, 500, 502, 503, 504}[c.Intn(7)]
		}
		h := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			mu.Lock()
			asked++
			mu.Unlock()
			if mode == "close" {
				x, _, err := w.(http.Hijacker).Hijack()
				if err == nil {
					x.Close()
				}
				return
			}
			w.WriteHeader(status)
			io.WriteString(w, "{}")
		}))
		defer h.Close()
		conf := &confs.EsConf{Addrs: h.URL, Username: "u", Password: pw, MaxConnsPerHost: c.Intn(3), MaxIdleConnsPerHost: 1 + c.Intn(3)}
		switch mode {
		case "nobody":
			p, free := nobody()
			defer free()
			conf.Addrs = fmt.Sprintf("http://127.0.0.1:%d", p)
		case "config":
			conf.Addrs = []string{"http://a b/", "http://%zz/", "http://[::1", "://x", "nosuch://127.0.0.1:1"}[c.Intn(5)]
		}
		var tr *http.Transport
		std.take()
		errs.take()
		var es *elasticsearch.Client
		p, bad := vk.Catch(func() {
			es = confs.NewEsClient(conf, func(mc *elasticsearch.Config) {
				tr, _ = mc.Transport.(*http.Transport)
				mc.RetryBackoff = func(int) time.Duration { return time.Millisecond }
			})
		})
		if tr != nil {
			tr.CloseIdleConnections()
		}
		mu.Lock()
		logged := asked > 0
		mu.Unlock()
		c.Observed(fmt.Sprint(mode, status, conf.MaxConnsPerHost, conf.MaxIdleConnsPerHost, len(pw)-len(core), bad))
		judge(c, "elasticsearch", mode, core, es != nil, logged, p, bad)
	})
}
