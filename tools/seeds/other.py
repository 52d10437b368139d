S('C10-span-id-length','C10','binary trace context that ends one byte before the end of the span ID',
 'The decoder takes the span ID when only seven of its bytes are there: it reads past the input or panics.',
 [('trace/propagation/propagation.go','len(b) >= 9 && b[0] == 1','len(b) >= 8 && b[0] == 1')],
 'trace/propagation','''package propagation

import "testing"

func TestSeedDemo(t *testing.T) {
	b := make([]byte, 26)
	b[18] = 1
	b = append([]byte(nil), b[:26]...)
	FromBinary(b[:26:26])
	FromBinary(b[:27-1:27-1])
	for n := 0; n <= 26; n++ {
		FromBinary(b[:n:n])
	}
}
''')
S('C13-empty-header-shared','C13','an outgoing request with an empty, non-nil header',
 'The header is copied only if there is something in it, so the trace header is written into the caller\'s empty map.',
 [('plugin/ochttp/trace.go','''		header := make(http.Header)
		for k, v := range req.Header {
			header[k] = v
		}
		req.Header = header
''','''		if req.Header == nil || len(req.Header) > 0 {
			header := make(http.Header)
			for k, v := range req.Header {
				header[k] = v
			}
			req.Header = header
		}
''')],'plugin/ochttp','''package ochttp

import (
	"errors"
	"net/http"
	"testing"
)

type seedRT struct{}

func (seedRT) RoundTrip(*http.Request) (*http.Response, error) { return nil, errors.New("no") }

func TestSeedDemo(t *testing.T) {
	req, _ := http.NewRequest("GET", "http://example.com/", nil)
	req.Header = http.Header{}
	tr := &Transport{Base: seedRT{}}
	tr.RoundTrip(req)
	if len(req.Header) != 0 {
		t.Fatalf("the caller's header was changed: %v", req.Header)
	}
}
''')
S('C14-empty-map-reused','C14','two tag.New calls on a context whose tag map is empty',
 'An empty map in the context is reused instead of copied: the second call changes the map of the first.',
 [('tag/map.go','''	m := newMap()
	orig := FromContext(ctx)
	if orig != nil {
''','''	m := newMap()
	orig := FromContext(ctx)
	if orig != nil && len(orig.m) == 0 {
		m = orig
	} else if orig != nil {
''')],'tag','''package tag

import (
	"context"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	k, _ := NewKey("k")
	base, _ := New(context.Background())
	a, _ := New(base, Upsert(k, "a"))
	b, _ := New(base, Upsert(k, "b"))
	if v, _ := FromContext(a).Value(k); v != "a" {
		t.Errorf("a has %q", v)
	}
	if v, _ := FromContext(b).Value(k); v != "b" {
		t.Errorf("b has %q", v)
	}
	if _, ok := FromContext(base).Value(k); ok {
		t.Error("the parent has the tag")
	}
}
''')
S('C20-exemplars-shared','C20','rows kept while further measurements with attachments are recorded',
 'A cloned distribution shares its exemplars with the live one, so rows handed out change later.',
 [('stats/view/aggregation_data.go','	c.ExemplarsPerBucket = append([]*metricdata.Exemplar(nil), a.ExemplarsPerBucket...)\n','	if len(a.ExemplarsPerBucket) == 0 {\n		c.ExemplarsPerBucket = nil\n	}\n')],
 'stats/view','''package view

import (
	"context"
	"testing"

	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/stats"
)

func TestSeedDemo(t *testing.T) {
	a := stats.Float64("seed/d", "", "1")
	v := &View{Name: "seed/d", Measure: a, Aggregation: Distribution(10)}
	if err := Register(v); err != nil {
		t.Fatal(err)
	}
	defer Unregister(v)
	rec := func(x float64) {
		stats.RecordWithOptions(context.Background(), stats.WithMeasurements(a.M(x)), stats.WithAttachments(metricdata.Attachments{"a": x}))
	}
	rec(1)
	rows, err := RetrieveData("seed/d")
	if err != nil || len(rows) != 1 {
		t.Fatalf("rows %v err %v", rows, err)
	}
	d := rows[0].Data.(*DistributionData)
	before := d.ExemplarsPerBucket[0].Value
	rec(2)
	RetrieveData("seed/d")
	if after := d.ExemplarsPerBucket[0].Value; before != after {
		t.Errorf("the exemplar changed from %v to %v", before, after)
	}
}
''')
S('C25-add-once','C25','concurrent additions to one floating point entry',
 'The addition gives up when the compare-and-swap loses a race: the increment is lost.',
 [('metric/gauge.go','''	var swapped bool
	for !swapped {
		oldVal := atomic.LoadUint64(&e.val)
		newVal := math.Float64bits(math.Float64frombits(oldVal) + val)
		swapped = atomic.CompareAndSwapUint64(&e.val, oldVal, newVal)
	}
''','''	for i := 0; i < 2; i++ {
		oldVal := atomic.LoadUint64(&e.val)
		newVal := math.Float64bits(math.Float64frombits(oldVal) + val)
		if atomic.CompareAndSwapUint64(&e.val, oldVal, newVal) {
			break
		}
	}
''')],'metric','''package metric

import (
	"sync"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	r := NewRegistry()
	g, _ := r.AddFloat64Gauge("g")
	e, _ := g.GetEntry()
	var wg sync.WaitGroup
	const n, k = 8, 300000
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < k; j++ {
				e.Add(1)
			}
		}()
	}
	wg.Wait()
	if got := r.Read()[0].TimeSeries[0].Points[0].Value.(float64); got != n*k {
		t.Errorf("the gauge is %v, want %v", got, n*k)
	}
}
''')
S('C27-flush-after-stop','C27','Flush after Stop of a reader with the default interval',
 'Stop leaves a reader with the default interval marked as running, so it cannot be flushed.',
 [('metric/metricexport/reader.go','	close(ir.quit)\n	close(ir.done)\n	ir.quit = nil\n','	close(ir.quit)\n	close(ir.done)\n	if ir.ReportingInterval != 0 {\n		ir.quit = nil\n	}\n')],
 'metric/metricexport','''package metricexport

import (
	"context"
	"sync"
	"testing"
	"time"

	"go.opencensus.io/metric"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricproducer"
)

type seedExp struct {
	mu sync.Mutex
	n  int
}

func (e *seedExp) ExportMetrics(context.Context, []*metricdata.Metric) error {
	e.mu.Lock()
	e.n++
	e.mu.Unlock()
	return nil
}

func TestSeedDemo(t *testing.T) {
	r := metric.NewRegistry()
	g, _ := r.AddInt64Gauge("g")
	en, _ := g.GetEntry()
	en.Set(1)
	metricproducer.GlobalManager().AddProducer(r)
	defer metricproducer.GlobalManager().DeleteProducer(r)
	e := &seedExp{}
	ir, err := NewIntervalReader(NewReader(), e)
	if err != nil {
		t.Fatal(err)
	}
	if err := ir.Start(); err != nil {
		t.Fatal(err)
	}
	done := make(chan bool)
	go func() {
		ir.Stop()
		ir.Flush()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("Stop or Flush hangs")
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.n == 0 {
		t.Error("Flush exported nothing")
	}
}
''')
S('C29-panic-skips-stats','C29','a handler that panics, or a goroutine exit, while serving',
 'The end of the request is recorded after the handler returned instead of deferred: a panicking handler is never counted.',
 [('plugin/ochttp/server.go','	defer statsEnd(&tags)\n','	finished := statsEnd\n'),
  ('plugin/ochttp/server.go','	handler.ServeHTTP(w, r)\n}\n\nfunc (h *Handler) startTrace','	handler.ServeHTTP(w, r)\n	finished(&tags)\n}\n\nfunc (h *Handler) startTrace')],
 'plugin/ochttp','''package ochttp

import (
	"net/http"
	"net/http/httptest"
	"testing"

	"go.opencensus.io/stats/view"
)

func TestSeedDemo(t *testing.T) {
	if err := view.Register(ServerLatencyView); err != nil {
		t.Fatal(err)
	}
	defer view.Unregister(ServerLatencyView)
	h := &Handler{Handler: http.HandlerFunc(func(http.ResponseWriter, *http.Request) { panic("oops") })}
	func() {
		defer func() { recover() }()
		h.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/x", nil))
	}()
	rows, err := view.RetrieveData(ServerLatencyView.Name)
	if err != nil || len(rows) != 1 {
		t.Fatalf("rows %v err %v", rows, err)
	}
}
''')
S('C30-last-bytes-with-eof','C30','a body whose last bytes come together with io.EOF, read to the end and never closed',
 'The end of the body is recognised only when it comes without bytes: the span of such a response never ends.',
 [('plugin/ochttp/trace.go','''	case io.EOF:
		bt.span.End()
	default:''','''	case io.EOF:
		if n == 0 {
			bt.span.End()
		}
	default:''')],'plugin/ochttp','''package ochttp

import (
	"io"
	"net/http"
	"testing"

	"go.opencensus.io/trace"
)

type seedBody struct{}

func (seedBody) Read(b []byte) (int, error) { b[0] = 1; return 1, io.EOF }
func (seedBody) Close() error               { return nil }

type seedTr struct{}

func (seedTr) RoundTrip(*http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200, Body: seedBody{}}, nil
}

type seedExp struct{ n int }

func (e *seedExp) ExportSpan(*trace.SpanData) { e.n++ }

func TestSeedDemo(t *testing.T) {
	e := &seedExp{}
	trace.RegisterExporter(e)
	defer trace.UnregisterExporter(e)
	req, _ := http.NewRequest("GET", "http://example.com/", nil)
	tr := &Transport{Base: seedTr{}, StartOptions: trace.StartOptions{Sampler: trace.AlwaysSample()}}
	resp, err := tr.RoundTrip(req)
	if err != nil {
		t.Fatal(err)
	}
	io.ReadAll(resp.Body)
	if e.n != 1 {
		t.Errorf("%d spans were exported", e.n)
	}
}
''')
S('C35-error-buckets','C35','a span name with finished spans of two different error codes',
 'The summary page shows the errors of the last error code only.',
 [('zpages/tracez.go','			row.Errors += e.Size\n','			row.Errors = e.Size\n')],'zpages','''package zpages

import (
	"context"
	"testing"

	"go.opencensus.io/internal"
	"go.opencensus.io/trace"
)

func TestSeedDemo(t *testing.T) {
	internal.LocalSpanStoreEnabled = true
	for _, code := range []int32{3, 4, 5} {
		_, s := trace.StartSpan(context.Background(), "seed", trace.WithSampler(trace.AlwaysSample()))
		s.SetStatus(trace.Status{Code: code})
		s.End()
	}
	for _, r := range getSummaryPageData().Rows {
		if r.Name == "seed" && r.Errors != 3 {
			t.Errorf("%d errors", r.Errors)
		}
	}
}
''')
S('C38-plain-counter','C38','messages of one RPC sent from several goroutines',
 'One of the counters of an RPC is incremented plainly while it is read atomically elsewhere.',
 [('plugin/ocgrpc/stats_common.go','	atomic.AddInt64(&d.sentCount, 1)\n','	d.sentCount++\n')],'plugin/ocgrpc','''package ocgrpc

import (
	"context"
	"sync"
	"testing"

	"google.golang.org/grpc/stats"
)

func TestSeedDemo(t *testing.T) {
	var h ClientHandler
	ctx := h.TagRPC(context.Background(), &stats.RPCTagInfo{FullMethodName: "/a/b"})
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 100; j++ {
				h.HandleRPC(ctx, &stats.OutPayload{Client: true, Length: 1})
			}
		}()
	}
	wg.Wait()
}
''',race=True)
S('C39-label-maps-shared','C39','merging where the first resource has no labels',
 'The labels of the second resource are returned as they are when the first has none: a later change shows in both.',
 [('resource/resource.go','''	for k, v := range b.Labels {
		res.Labels[k] = v
	}
''','''	if len(a.Labels) == 0 && b.Labels != nil {
		res.Labels = b.Labels
	} else {
		for k, v := range b.Labels {
			res.Labels[k] = v
		}
	}
''')],'resource','''package resource

import (
	"context"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	b := &Resource{Labels: map[string]string{"k": "b"}}
	d := func(r *Resource) Detector {
		return func(context.Context) (*Resource, error) { return r, nil }
	}
	r, err := MultiDetector(d(&Resource{Type: "t"}), d(b))(context.Background())
	if err != nil {
		t.Fatal(err)
	}
	r.Labels["k"] = "changed"
	if b.Labels["k"] != "b" {
		t.Error("the detector's resource was changed")
	}
}
''')
S('C40-parent-entries-shared','C40','a child trace state that overrides a key of its parent',
 'The parent\'s entries are not copied, so removing the overridden key moves entries in the parent\'s list.',
 [('trace/tracestate/tracestate.go','tracestate.entries = append([]Entry{}, parent.entries...)','tracestate.entries = parent.entries')],
 'trace/tracestate','''package tracestate

import "testing"

func TestSeedDemo(t *testing.T) {
	p, err := New(nil, Entry{"a", "1"}, Entry{"b", "2"}, Entry{"c", "3"})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := New(p, Entry{"a", "x"}); err != nil {
		t.Fatal(err)
	}
	es := p.Entries()
	if len(es) != 3 || es[0] != (Entry{"a", "1"}) || es[1] != (Entry{"b", "2"}) || es[2] != (Entry{"c", "3"}) {
		t.Errorf("the parent became %v", es)
	}
}
''')
S('C37-unknown-code-locked','C37','an error report for a status code with no stored span',
 'The early return for a status code without spans keeps the lock of the span store: every span of that name hangs when it starts or ends.',
 [('trace/spanstore.go','''	if code != 0 {
		if b, ok := s.errors[code]; ok {
			for _, sd := range b.buffer {
				if sd == nil {
					break
				}
				out = append(out, sd)
			}
		}
	} else {''','''	if code != 0 {
		b, ok := s.errors[code]
		if !ok {
			return nil
		}
		for _, sd := range b.buffer {
			if sd == nil {
				break
			}
			out = append(out, sd)
		}
	} else {'''),('trace/spanstore.go','''	var out []*SpanData
	s.mu.Lock()
	defer s.mu.Unlock()
	if code != 0 {''','''	var out []*SpanData
	s.mu.Lock()
	if code != 0 {'''),('trace/spanstore.go','''		for _, b := range s.errors {
			for _, sd := range b.buffer {
				if sd == nil {
					break
				}
				out = append(out, sd)
			}
		}
	}
	return out
}
''','''		for _, b := range s.errors {
			for _, sd := range b.buffer {
				if sd == nil {
					break
				}
				out = append(out, sd)
			}
		}
	}
	s.mu.Unlock()
	return out
}
''')],'trace','''package trace

import (
	"testing"
	"time"

	"go.opencensus.io/internal"
)

type seedReporter interface {
	ConfigureBucketSizes([]internal.BucketConfiguration)
	ReportSpansByError(name string, code int32) []*SpanData
}

func TestSeedDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		r := internal.Trace.(seedReporter)
		r.ConfigureBucketSizes([]internal.BucketConfiguration{{Name: "seed", MaxRequestsSucceeded: 3, MaxRequestsErrors: 3}})
		r.ReportSpansByError("seed", 7)
		r.ReportSpansByError("seed", 7)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("the span store hangs")
	}
}
''')
