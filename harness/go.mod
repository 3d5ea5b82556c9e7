module verif/harness

go 1.26

require (
	github.com/SkyAPM/go2sky v1.4.0
	github.com/SkyAPM/go2sky-plugins/sql v0.0.0-20220213102757-03fc22036723
	github.com/elastic/go-elasticsearch/v7 v7.10.0
	github.com/gin-contrib/pprof v1.3.0
	github.com/gin-gonic/gin v1.7.7
	github.com/go-ozzo/ozzo-routing v2.1.4+incompatible // indirect
	github.com/go-playground/validator/v10 v10.10.1 // indirect
	github.com/go-redis/redis/v7 v7.2.0
	github.com/go-sql-driver/mysql v1.6.0
	github.com/golang/gddo v0.0.0-20210115222349-20d68f94ee1f // indirect
	github.com/json-iterator/go v1.1.12 // indirect
	github.com/klauspost/compress v1.15.2 // indirect
	github.com/lib/pq v1.10.9 // indirect
	github.com/mattn/go-isatty v0.0.14 // indirect
	github.com/modern-go/concurrent v0.0.0-20180306012644-bacd9c7ef1dd // indirect
	github.com/modern-go/reflect2 v1.0.2
	github.com/qiangxue/fasthttp-routing v0.0.0-20160225050629-6ccdc2a18d87
	github.com/sijms/go-ora/v2 v2.4.18
	github.com/stretchr/testify v1.7.0
	github.com/ugorji/go v1.2.7 // indirect
	github.com/valyala/fasthttp v1.36.0
	golang.org/x/crypto v0.0.0-20220307211146-efcb8507fb70 // indirect
	golang.org/x/sys v0.0.0-20220307203707-22a9840ba4d7 // indirect
	gopkg.in/yaml.v2 v2.4.0 // indirect
	gopkg.in/yaml.v3 v3.0.0-20210107192922-496545a6307b
	skywalking.apache.org/repo/goapi v0.0.0-20220121092418-9c455d0dda3f
)

require (
	github.com/chanjarster/gears v0.0.0
	github.com/anishathalye/porcupine v1.3.1
	google.golang.org/grpc v1.40.0
)
replace github.com/chanjarster/gears => /repo
