// Package spans collects finished go2sky spans.
package spans

import (
	"sync"
	"sync/atomic"
	"time"

	"github.com/SkyAPM/go2sky"
)

// Span is a finished span as the reporter saw it.
type Span struct {
	TraceID, SegmentID string
	SpanID, ParentID   int32
	ParentSegment      string
	Op, Peer           string
	Type               string
	Layer              string
	IsError            bool
	Tags               []KV
	Logs               [][]KV
	Component          int32
	Refs               []Ref
	Start, End         int64
}

type KV struct{ K, V string }

type Ref struct {
	TraceID, SegmentID string
	SpanID             int32
	Service, Instance  string
	Endpoint, Addr     string
}

// late: segments were missed once, so the run has failed and need not wait as
// long again.
var late atomic.Bool

// Reporter implements go2sky.Reporter.
type Reporter struct {
	mu    sync.Mutex
	segs  [][]Span
	Segs  int
	Total int
}

func (r *Reporter) Boot(string, string, []go2sky.AgentConfigChangeWatcher) {}
func (r *Reporter) Close()                                                 {}
func (r *Reporter) Send(in []go2sky.ReportedSpan) {
	seg := []Span{}
	for _, s := range in {
		x := s.Context()
		v := Span{TraceID: x.TraceID, SegmentID: x.SegmentID, SpanID: x.SpanID, ParentID: x.ParentSpanID, ParentSegment: x.ParentSegmentID,
			Op: s.OperationName(), Peer: s.Peer(), Type: s.SpanType().String(), Layer: s.SpanLayer().String(), IsError: s.IsError(), Component: s.ComponentID(),
			Start: s.StartTime(), End: s.EndTime()}
		for _, t := range s.Tags() {
			v.Tags = append(v.Tags, KV{t.Key, t.Value})
		}
		for _, l := range s.Logs() {
			kv := []KV{}
			for _, d := range l.Data {
				kv = append(kv, KV{d.Key, d.Value})
			}
			v.Logs = append(v.Logs, kv)
		}
		for _, f := range s.Refs() {
			v.Refs = append(v.Refs, Ref{TraceID: f.TraceID, SegmentID: f.ParentSegmentID, SpanID: f.ParentSpanID, Service: f.ParentService, Instance: f.ParentServiceInstance, Endpoint: f.ParentEndpoint, Addr: f.AddressUsedAtClient})
		}
		seg = append(seg, v)
	}
	r.mu.Lock()
	r.segs = append(r.segs, seg)
	r.Segs++
	r.Total += len(seg)
	r.mu.Unlock()
}

// Take waits until n segments arrived and takes all that are there; ok is
// false when they did not come.
func (r *Reporter) Take(n int) (segs [][]Span, ok bool) {
	deadline := time.Now().Add(15 * time.Second)
	if late.Load() {
		deadline = time.Now().Add(time.Second)
	}
	for {
		r.mu.Lock()
		if len(r.segs) >= n {
			segs = r.segs
			r.segs = nil
			r.mu.Unlock()
			return segs, true
		}
		if time.Now().After(deadline) {
			segs = r.segs
			r.segs = nil
			r.mu.Unlock()
			late.Store(true)
			return segs, false
		}
		r.mu.Unlock()
		time.Sleep(100 * time.Microsecond)
	}
}

// Tag returns the values of a tag.
func (s Span) Tag(k string) []string {
	r := []string{}
	for _, t := range s.Tags {
		if t.K == k {
			r = append(r, t.V)
		}
	}
	return r
}

// New makes a tracer with its reporter.
func New(service string) (*go2sky.Tracer, *Reporter) {
	r := &Reporter{}
	t, err := go2sky.NewTracer(service, go2sky.WithReporter(r), go2sky.WithInstance(service+"-instance"))
	if err != nil {
		panic(err)
	}
	return t, r
}
