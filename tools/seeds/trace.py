S('C01-snapshot-before-once','C01','two goroutines ending the same span, or a span ended twice with an exporter that is slow',
 'The export guard is tested and then set, instead of a once: concurrent End calls both export the span.',
 [('trace/trace.go','	endOnce sync.Once\n','	ended   bool\n'),
  ('trace/trace.go','	s.endOnce.Do(func() {\n		exp, _','	s.mu.Lock()\n	done := s.ended\n	s.mu.Unlock()\n	if done {\n		return\n	}\n	func() {\n		exp, _'),
  ('trace/trace.go','''					e.ExportSpan(sd)
				}
			}
		}
	})
''','''					e.ExportSpan(sd)
				}
			}
		}
	}()
	s.mu.Lock()
	s.ended = true
	s.mu.Unlock()
''')],'trace','''package trace

import (
	"context"
	"sync"
	"testing"
	"time"
)

type slowExp struct {
	mu sync.Mutex
	n  int
}

func (e *slowExp) ExportSpan(*SpanData) {
	e.mu.Lock()
	e.n++
	e.mu.Unlock()
	time.Sleep(50 * time.Millisecond)
}

func TestSeedDemo(t *testing.T) {
	e := &slowExp{}
	RegisterExporter(e)
	defer UnregisterExporter(e)
	_, s := StartSpan(context.Background(), "x", WithSampler(AlwaysSample()))
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); s.End() }()
	}
	wg.Wait()
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.n != 1 {
		t.Fatalf("exported %d times", e.n)
	}
}
''')
S('C02-status-outside-lock','C02','SetStatus on one goroutine while another one ends or snapshots the span',
 'The status is compared with the current one before taking the span lock: an unlocked read of span state.',
 [('trace/trace.go','	s.mu.Lock()\n	s.data.Status = status\n	s.mu.Unlock()','	if s.data.Status == status {\n		return\n	}\n	s.mu.Lock()\n	s.data.Status = status\n	s.mu.Unlock()')],
 'trace','''package trace

import (
	"context"
	"sync"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	_, s := StartSpan(context.Background(), "x", WithSampler(AlwaysSample()))
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				s.SetStatus(Status{Code: int32(i + g)})
			}
		}()
	}
	wg.Wait()
}
''',race=True)
S('C03-shared-annotations','C03','an annotation added after the snapshot was taken but before the record is read (active-span report), with spare capacity in the queue',
 'The annotation snapshot reuses one cached slice per span, so a later snapshot overwrites the records handed out before.',
 [('trace/trace.go','	annotationArr := make([]Annotation, 0, len(s.annotations.queue))\n','	annotationArr := s.annotationBuf[:0]\n'),
  ('trace/trace.go','		annotationArr = append(annotationArr, value.(Annotation))\n	}\n','		annotationArr = append(annotationArr, value.(Annotation))\n	}\n	s.annotationBuf = annotationArr\n'),
  ('trace/trace.go','	endOnce sync.Once\n','	endOnce sync.Once\n\n	// annotationBuf is reused between snapshots\n	annotationBuf []Annotation\n')],
 'trace','''package trace

import (
	"context"
	"testing"

	"go.opencensus.io/internal"
)

func TestSeedDemo(t *testing.T) {
	internal.LocalSpanStoreEnabled = true
	defer func() { internal.LocalSpanStoreEnabled = false }()
	ApplyConfig(Config{MaxAnnotationEventsPerSpan: 2})
	defer ApplyConfig(Config{MaxAnnotationEventsPerSpan: DefaultMaxAnnotationEventsPerSpan})
	_, s := StartSpan(context.Background(), "seed/annot", WithSampler(AlwaysSample()))
	s.Annotate(nil, "a")
	s.Annotate(nil, "b")
	first := internalOnly{}.ReportActiveSpans("seed/annot")[0]
	if got := first.Annotations[0].Message; got != "a" {
		t.Fatalf("got %q", got)
	}
	s.Annotate(nil, "c")
	internalOnly{}.ReportActiveSpans("seed/annot")
	if got := first.Annotations[0].Message; got != "a" {
		t.Fatalf("the record changed: %q", got)
	}
	s.End()
}
''')
S('C05-evict-after-full','C05','more annotations than the limit where the limit is 1',
 'The queue is trimmed after appending, by re-slicing from the limit: with more than one over it drops correctly but the count is only increased for the first eviction of a run.',
 [('trace/evictedqueue.go','''	if len(eq.queue) == eq.capacity {
		eq.queue = eq.queue[1:]
		eq.droppedCount++
	}
	eq.queue = append(eq.queue, value)''','''	eq.queue = append(eq.queue, value)
	if n := len(eq.queue) - eq.capacity; n > 0 {
		eq.queue = eq.queue[n:]
		if eq.droppedCount < eq.capacity {
			eq.droppedCount += n
		}
	}''')],
 'trace','''package trace

import "testing"

func TestSeedDemo(t *testing.T) {
	q := newEvictedQueue(3)
	for i := 0; i < 20; i++ {
		q.add(i)
	}
	if len(q.queue) != 3 || q.queue[0] != 17 || q.droppedCount != 17 {
		t.Fatalf("%v dropped %d", q.queue, q.droppedCount)
	}
}
''')
S('C08-exporters-in-place','C08','an exporter registered while a span is being ended on another goroutine',
 'Registering an exporter that is not the first one adds it to the published map in place.',
 [('trace/export.go','''	new[e] = struct{}{}
	exporters.Store(new)''','''	if old, ok := exporters.Load().(exportersMap); ok && len(old) > 0 {
		new = old
	}
	new[e] = struct{}{}
	exporters.Store(new)''')],
 'trace','''package trace

import (
	"context"
	"sync"
	"testing"
)

type nopExp struct{ _ int }

func (*nopExp) ExportSpan(*SpanData) {}

func TestSeedDemo(t *testing.T) {
	RegisterExporter(&nopExp{})
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 300; i++ {
			e := &nopExp{}
			RegisterExporter(e)
			UnregisterExporter(e)
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 300; i++ {
			_, s := StartSpan(context.Background(), "x", WithSampler(AlwaysSample()))
			s.End()
		}
	}()
	wg.Wait()
}
''',race=True)
S('C09-store-created-twice','C09','two goroutines starting the first two spans of one name at the same time',
 'The span store for a new name is created without looking again under the writer lock, so the second creator replaces the first one and its active spans are lost.',
 [('trace/spanstore.go','''	ssmu.Lock()
	defer ssmu.Unlock()
	s, ok = spanStores[name]
	if ok {
		return s
	}
	s = newSpanStore(name, defaultBucketSize, defaultBucketSize)
''','''	s = newSpanStore(name, defaultBucketSize, defaultBucketSize)
	ssmu.Lock()
	defer ssmu.Unlock()
''')],
 'trace','''package trace

import (
	"context"
	"fmt"
	"sync"
	"testing"

	"go.opencensus.io/internal"
)

func TestSeedDemo(t *testing.T) {
	internal.LocalSpanStoreEnabled = true
	defer func() { internal.LocalSpanStoreEnabled = false }()
	const n = 8
	for i := 0; i < 3000; i++ {
		name := fmt.Sprintf("seed/%d", i)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < n; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				StartSpan(context.Background(), name)
			}()
		}
		close(start)
		wg.Wait()
		if got := len(internalOnly{}.ReportActiveSpans(name)); got != n {
			t.Fatalf("%s: %d active spans, want %d", name, got, n)
		}
	}
}
''')
