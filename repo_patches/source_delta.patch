From a53c23c41bf8dc57505f5b34919c841396e62a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 01/41] fix: trace: Span.Internal is safe on a nil span

---
 trace/trace_api.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trace/trace_api.go b/trace/trace_api.go
index 9e2c3a9..d15b54c 100644
--- a/trace/trace_api.go
+++ b/trace/trace_api.go
@@ -150,6 +150,9 @@ type Span struct {
 
 // Internal returns the underlying implementation of the Span
 func (s *Span) Internal() SpanInterface {
+	if s == nil {
+		return nil
+	}
 	return s.internal
 }
 
-- 
2.43.0


From fe92bc86b9bc84174878d502714a2470acd8bcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 02/41] fix: trace: taking a snapshot of a span does not
 reorder attribute eviction

---
 trace/lrumap.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/trace/lrumap.go b/trace/lrumap.go
index 80095a5..b187013 100644
--- a/trace/lrumap.go
+++ b/trace/lrumap.go
@@ -21,14 +21,14 @@ import (
 // A simple lru.Cache wrapper that tracks the keys of the current contents and
 // the cumulative number of evicted items.
 type lruMap struct {
-	cacheKeys    map[lru.Key]bool
+	cacheKeys    map[lru.Key]interface{}
 	cache        *lru.Cache
 	droppedCount int
 }
 
 func newLruMap(size int) *lruMap {
 	lm := &lruMap{
-		cacheKeys:    make(map[lru.Key]bool),
+		cacheKeys:    make(map[lru.Key]interface{}),
 		cache:        lru.New(size),
 		droppedCount: 0,
 	}
@@ -52,10 +52,13 @@ func (lm lruMap) keys() []interface{} {
 }
 
 func (lm *lruMap) add(key, value interface{}) {
-	lm.cacheKeys[lru.Key(key)] = true
+	lm.cacheKeys[lru.Key(key)] = value
 	lm.cache.Add(lru.Key(key), value)
 }
 
+// get returns the value of key without changing its recency: reading the
+// attributes of an active span must not affect which one is evicted next.
 func (lm *lruMap) get(key interface{}) (interface{}, bool) {
-	return lm.cache.Get(key)
+	value, ok := lm.cacheKeys[lru.Key(key)]
+	return value, ok
 }
-- 
2.43.0


From fea29a8fddada84f4a441a77e2ea716abfc69edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 03/41] fix: trace: NewTraceID never returns the all-zero trace
 ID

---
 trace/trace.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trace/trace.go b/trace/trace.go
index 861df9d..14751c7 100644
--- a/trace/trace.go
+++ b/trace/trace.go
@@ -588,8 +588,10 @@ func (gen *defaultIDGenerator) NewTraceID() [16]byte {
 	// Construct the trace ID from two outputs of traceIDRand, with a constant
 	// added to each half for additional entropy.
 	gen.Lock()
-	binary.LittleEndian.PutUint64(tid[0:8], gen.traceIDRand.Uint64()+gen.traceIDAdd[0])
-	binary.LittleEndian.PutUint64(tid[8:16], gen.traceIDRand.Uint64()+gen.traceIDAdd[1])
+	for tid == ([16]byte{}) {
+		binary.LittleEndian.PutUint64(tid[0:8], gen.traceIDRand.Uint64()+gen.traceIDAdd[0])
+		binary.LittleEndian.PutUint64(tid[8:16], gen.traceIDRand.Uint64()+gen.traceIDAdd[1])
+	}
 	gen.Unlock()
 	return tid
 }
-- 
2.43.0


From 5110fc0bf342c83b5ee76724f236d2d27a7d33e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 04/41] fix: tag decoding must not panic on huge varint lengths

A length above the maximum int made the computed end wrap below the
buffer length, so the bounds check passed and slicing panicked.
---
 tag/map_codec.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tag/map_codec.go b/tag/map_codec.go
index c242e69..74b5769 100644
--- a/tag/map_codec.go
+++ b/tag/map_codec.go
@@ -126,10 +126,10 @@ func (eg *encoderGRPC) readBytesWithVarintLen() ([]byte, error) {
 	}
 
 	valueStart += eg.readIdx
-	valueEnd := valueStart + int(length)
-	if valueEnd > len(eg.buf) {
-		return nil, fmt.Errorf("malformed encoding: length:%v, upper:%v, maxLength:%v", length, valueEnd, len(eg.buf))
+	if length > uint64(len(eg.buf)-valueStart) {
+		return nil, fmt.Errorf("malformed encoding: length:%v, start:%v, maxLength:%v", length, valueStart, len(eg.buf))
 	}
+	valueEnd := valueStart + int(length)
 
 	eg.readIdx = valueEnd
 	return eg.buf[valueStart:valueEnd], nil
-- 
2.43.0


From d8f5898c5dec23cce60f5cdf458c4a1642d88dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 05/41] fix: tag.Do must not panic on a context without tags

---
 tag/profile_19.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tag/profile_19.go b/tag/profile_19.go
index 8fb1722..e3428bb 100644
--- a/tag/profile_19.go
+++ b/tag/profile_19.go
@@ -23,10 +23,12 @@ import (
 )
 
 func do(ctx context.Context, f func(ctx context.Context)) {
-	m := FromContext(ctx)
-	keyvals := make([]string, 0, 2*len(m.m))
-	for k, v := range m.m {
-		keyvals = append(keyvals, k.Name(), v.value)
+	var keyvals []string
+	if m := FromContext(ctx); m != nil {
+		keyvals = make([]string, 0, 2*len(m.m))
+		for k, v := range m.m {
+			keyvals = append(keyvals, k.Name(), v.value)
+		}
 	}
 	pprof.Do(ctx, pprof.Labels(keyvals...), f)
 }
-- 
2.43.0


From 873601371c5c233db85ee48e0d3ba4269b8f9eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:24 +0000
Subject: [PATCH 06/41] fix: reject the zero tag key in mutators

An invalid (zero) key was accepted by Insert, Update and Upsert although
no such key can be created, and every later tag.New on the resulting
context then failed.
---
 tag/map.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tag/map.go b/tag/map.go
index 0272ef8..81ef7c6 100644
--- a/tag/map.go
+++ b/tag/map.go
@@ -107,6 +107,9 @@ type Mutator interface {
 func Insert(k Key, v string, mds ...Metadata) Mutator {
 	return &mutator{
 		fn: func(m *Map) (*Map, error) {
+			if !checkKeyName(k.name) {
+				return nil, errInvalidKeyName
+			}
 			if !checkValue(v) {
 				return nil, errInvalidValue
 			}
@@ -126,6 +129,9 @@ func Insert(k Key, v string, mds ...Metadata) Mutator {
 func Update(k Key, v string, mds ...Metadata) Mutator {
 	return &mutator{
 		fn: func(m *Map) (*Map, error) {
+			if !checkKeyName(k.name) {
+				return nil, errInvalidKeyName
+			}
 			if !checkValue(v) {
 				return nil, errInvalidValue
 			}
@@ -146,6 +152,9 @@ func Update(k Key, v string, mds ...Metadata) Mutator {
 func Upsert(k Key, v string, mds ...Metadata) Mutator {
 	return &mutator{
 		fn: func(m *Map) (*Map, error) {
+			if !checkKeyName(k.name) {
+				return nil, errInvalidKeyName
+			}
 			if !checkValue(v) {
 				return nil, errInvalidValue
 			}
-- 
2.43.0


From 29948cb02b1de79fce6113050e189b5f909c84e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 07/41] fix: tracestate.New must not keep or write to the
 caller's slice

append(entries, ...) stored the parent's entries in the spare capacity of
the slice passed by the caller and, with an empty parent, shared it.
---
 trace/tracestate/tracestate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trace/tracestate/tracestate.go b/trace/tracestate/tracestate.go
index 2d6c713..a95f391 100644
--- a/trace/tracestate/tracestate.go
+++ b/trace/tracestate/tracestate.go
@@ -81,7 +81,10 @@ func (ts *Tracestate) add(entries []Entry) error {
 		return fmt.Errorf("adding %d key-value pairs to current %d pairs exceeds the limit of %d",
 			len(entries), len(ts.entries), maxKeyValuePairs)
 	}
-	ts.entries = append(entries, ts.entries...)
+	// Copy: the slice belongs to the caller.
+	all := make([]Entry, 0, len(entries)+len(ts.entries))
+	all = append(all, entries...)
+	ts.entries = append(all, ts.entries...)
 	return nil
 }
 
-- 
2.43.0


From 3340bc7b2b52f0d27957a11a5da04cef68cbbef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 08/41] fix: Tracestate.Entries returns a copy so that it
 cannot be modified

---
 trace/tracestate/tracestate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trace/tracestate/tracestate.go b/trace/tracestate/tracestate.go
index a95f391..74c14fb 100644
--- a/trace/tracestate/tracestate.go
+++ b/trace/tracestate/tracestate.go
@@ -55,12 +55,12 @@ type Entry struct {
 	Value string
 }
 
-// Entries returns a slice of Entry.
+// Entries returns a copy of the slice of Entry.
 func (ts *Tracestate) Entries() []Entry {
 	if ts == nil {
 		return nil
 	}
-	return ts.entries
+	return append([]Entry(nil), ts.entries...)
 }
 
 func (ts *Tracestate) remove(key string) *Entry {
-- 
2.43.0


From 2a3f3dd04dcf6934f34dedd19dc47677a8c4f840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:59 +0000
Subject: [PATCH 09/41] fix: resource label decoding accepts values containing
 quoted quotes

A value containing a double quote followed by a comma was cut at the
escaped quote, so FromEnv failed on what EncodeLabels writes.
---
 resource/resource.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resource/resource.go b/resource/resource.go
index b1764e1..e4c5078 100644
--- a/resource/resource.go
+++ b/resource/resource.go
@@ -57,7 +57,7 @@ func EncodeLabels(labels map[string]string) string {
 	return s
 }
 
-var labelRegex = regexp.MustCompile(`^\s*([[:ascii:]]{1,256}?)=("[[:ascii:]]{0,256}?")\s*,`)
+var labelRegex = regexp.MustCompile(`^\s*([[:ascii:]]{1,256}?)=("(?:[^[:^ascii:]"\\]|\\[[:ascii:]]){0,256}?")\s*,`)
 
 // DecodeLabels decodes a serialized label map as used in the OC_RESOURCE_LABELS variable.
 // A list of labels of the form `<key1>="<value1>",<key2>="<value2>",...` is accepted.
-- 
2.43.0


From 8fce63632fc7daa98c7830d869f68377cf9ae7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 10/41] fix: reject Stackdriver trace headers with a malformed
 trace ID or out-of-range options

---
 exporter/stackdriver/propagation/http.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exporter/stackdriver/propagation/http.go b/exporter/stackdriver/propagation/http.go
index 7cc02a1..b1201ba 100644
--- a/exporter/stackdriver/propagation/http.go
+++ b/exporter/stackdriver/propagation/http.go
@@ -57,7 +57,7 @@ func (f *HTTPFormat) SpanContextFromRequest(req *http.Request) (sc trace.SpanCon
 	tid, h := h[:slash], h[slash+1:]
 
 	buf, err := hex.DecodeString(tid)
-	if err != nil {
+	if err != nil || len(buf) != len(sc.TraceID) {
 		return trace.SpanContext{}, false
 	}
 	copy(sc.TraceID[:], buf)
@@ -78,7 +78,7 @@ func (f *HTTPFormat) SpanContextFromRequest(req *http.Request) (sc trace.SpanCon
 	if !strings.HasPrefix(h, "o=") {
 		return sc, true
 	}
-	o, err := strconv.ParseUint(h[2:], 10, 64)
+	o, err := strconv.ParseUint(h[2:], 10, 32)
 	if err != nil {
 		return trace.SpanContext{}, false
 	}
-- 
2.43.0


From af31eda5aeef1b761c5f80e7d03eefa9c6fb1af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:30 +0000
Subject: [PATCH 11/41] fix: reject traceparent headers whose flags are not two
 hex digits

---
 plugin/ochttp/propagation/tracecontext/propagation.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plugin/ochttp/propagation/tracecontext/propagation.go b/plugin/ochttp/propagation/tracecontext/propagation.go
index 48d8152..ea74565 100644
--- a/plugin/ochttp/propagation/tracecontext/propagation.go
+++ b/plugin/ochttp/propagation/tracecontext/propagation.go
@@ -96,8 +96,11 @@ func (f *HTTPFormat) SpanContextFromHeaders(tp string, ts string) (sc trace.Span
 	}
 	copy(sc.SpanID[:], sid)
 
+	if len(sections[3]) != 2 {
+		return trace.SpanContext{}, false
+	}
 	opts, err := hex.DecodeString(sections[3])
-	if err != nil || len(opts) < 1 {
+	if err != nil {
 		return trace.SpanContext{}, false
 	}
 	sc.TraceOptions = trace.TraceOptions(opts[0])
-- 
2.43.0


From 1072772c685be6b83fb9cb556daab1186fecada8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:32 +0000
Subject: [PATCH 12/41] fix: reject traceparent headers with uppercase hex
 digits

---
 plugin/ochttp/propagation/tracecontext/propagation.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/plugin/ochttp/propagation/tracecontext/propagation.go b/plugin/ochttp/propagation/tracecontext/propagation.go
index ea74565..d1f9b1f 100644
--- a/plugin/ochttp/propagation/tracecontext/propagation.go
+++ b/plugin/ochttp/propagation/tracecontext/propagation.go
@@ -62,6 +62,13 @@ func (f *HTTPFormat) SpanContextFromHeaders(tp string, ts string) (sc trace.Span
 		return trace.SpanContext{}, false
 	}
 
+	// Only lowercase hex digits are allowed.
+	for _, section := range sections[:4] {
+		if strings.ToLower(section) != section {
+			return trace.SpanContext{}, false
+		}
+	}
+
 	if len(sections[0]) != 2 {
 		return trace.SpanContext{}, false
 	}
-- 
2.43.0


From b781381d8b171458f54ab175b94e4222c2d37abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 13/41] fix: clear the rows of an unregistered view under the
 meter lock

Read may be collecting them concurrently.
---
 stats/view/worker_commands.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stats/view/worker_commands.go b/stats/view/worker_commands.go
index 9ac4cc0..1fd5ca6 100644
--- a/stats/view/worker_commands.go
+++ b/stats/view/worker_commands.go
@@ -101,7 +101,9 @@ func (cmd *unregisterFromViewReq) handleCommand(w *worker) {
 		if !vi.isSubscribed() {
 			// this was the last subscription and view is not collecting anymore.
 			// The collected data can be cleared.
+			w.mu.Lock()
 			vi.clearRows()
+			w.mu.Unlock()
 		}
 		w.unregisterView(vi)
 	}
-- 
2.43.0


From 536839a0249d3964918731143f442089518cb309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 14/41] fix: set the resource of a meter under its lock

Read uses it from other goroutines.
---
 stats/view/worker.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stats/view/worker.go b/stats/view/worker.go
index 6a79cd8..ee37b05 100644
--- a/stats/view/worker.go
+++ b/stats/view/worker.go
@@ -277,6 +277,8 @@ func NewMeter() Meter {
 // it is not provided when used with ExportView/RegisterExporter, because that
 // interface does not provide a means for reporting the Resource.
 func (w *worker) SetResource(r *resource.Resource) {
+	w.mu.Lock()
+	defer w.mu.Unlock()
 	w.r = r
 }
 
-- 
2.43.0


From 61d42dc7d2841354d54cc0748b5ebe9b73ab1f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 15/41] fix: do not write to shared aggregations when
 registering views

Meters that registered Count or Sum views concurrently raced on them.
---
 stats/view/view.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stats/view/view.go b/stats/view/view.go
index 293b54e..3ffbbf6 100644
--- a/stats/view/view.go
+++ b/stats/view/view.go
@@ -101,7 +101,11 @@ func (v *View) canonicalize() error {
 		}
 	}
 	// drop 0 bucket silently.
-	v.Aggregation.Buckets = dropZeroBounds(v.Aggregation.Buckets...)
+	// Aggregations may be shared (Count and Sum always are), so leave those
+	// that need no change alone.
+	if bounds := dropZeroBounds(v.Aggregation.Buckets...); len(bounds) != len(v.Aggregation.Buckets) {
+		v.Aggregation.Buckets = bounds
+	}
 
 	return nil
 }
-- 
2.43.0


From 7840eaf61d91ec9a7741c23b6d5379c160a8050f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 16/41] fix: distribution maximum of non-positive samples

The maximum started at the smallest positive number.
---
 stats/view/aggregation_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stats/view/aggregation_data.go b/stats/view/aggregation_data.go
index d93b520..03a333d 100644
--- a/stats/view/aggregation_data.go
+++ b/stats/view/aggregation_data.go
@@ -149,7 +149,7 @@ func newDistributionData(agg *Aggregation, t time.Time) *DistributionData {
 		ExemplarsPerBucket: make([]*metricdata.Exemplar, bucketCount),
 		bounds:             agg.Buckets,
 		Min:                math.MaxFloat64,
-		Max:                math.SmallestNonzeroFloat64,
+		Max:                -math.MaxFloat64,
 		Start:              t,
 	}
 }
-- 
2.43.0


From 607cf01a7a9f1d15679526b4bdc9cf654e0f5ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 17/41] fix: using a stopped meter panicked or blocked forever

Stop closed the command channel, so later commands panicked, and commands
still queued were never answered.
---
 stats/view/worker.go | 57 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/stats/view/worker.go b/stats/view/worker.go
index ee37b05..874f9dd 100644
--- a/stats/view/worker.go
+++ b/stats/view/worker.go
@@ -16,6 +16,7 @@
 package view
 
 import (
+	"errors"
 	"fmt"
 	"sync"
 	"time"
@@ -130,9 +131,23 @@ func (w *worker) Find(name string) (v *View) {
 		name: name,
 		c:    make(chan *getViewByNameResp),
 	}
-	w.c <- req
-	resp := <-req.c
-	return resp.v
+	w.send(req)
+	select {
+	case resp := <-req.c:
+		return resp.v
+	case <-w.done:
+		return nil
+	}
+}
+
+var errStopped = errors.New("the meter was stopped")
+
+// send queues a command, unless the meter was stopped.
+func (w *worker) send(cmd command) {
+	select {
+	case w.c <- cmd:
+	case <-w.done:
+	}
 }
 
 // Register begins collecting data for the given views.
@@ -148,8 +163,13 @@ func (w *worker) Register(views ...*View) error {
 		views: views,
 		err:   make(chan error),
 	}
-	w.c <- req
-	return <-req.err
+	w.send(req)
+	select {
+	case err := <-req.err:
+		return err
+	case <-w.done:
+		return errStopped
+	}
 }
 
 // Unregister the given views. Data will not longer be exported for these views
@@ -173,8 +193,11 @@ func (w *worker) Unregister(views ...*View) {
 		views: names,
 		done:  make(chan struct{}),
 	}
-	w.c <- req
-	<-req.done
+	w.send(req)
+	select {
+	case <-req.done:
+	case <-w.done:
+	}
 }
 
 // RetrieveData gets a snapshot of the data collected for the the view registered
@@ -191,9 +214,13 @@ func (w *worker) RetrieveData(viewName string) ([]*Row, error) {
 		v:   viewName,
 		c:   make(chan *retrieveDataResp),
 	}
-	w.c <- req
-	resp := <-req.c
-	return resp.rows, resp.err
+	w.send(req)
+	select {
+	case resp := <-req.c:
+		return resp.rows, resp.err
+	case <-w.done:
+		return nil, errStopped
+	}
 }
 
 func record(tags *tag.Map, ms interface{}, attachments map[string]interface{}) {
@@ -218,7 +245,7 @@ func (w *worker) recordMeasurement(tags *tag.Map, ms []stats.Measurement, attach
 		attachments: attachments,
 		t:           time.Now(),
 	}
-	w.c <- req
+	w.send(req)
 }
 
 // SetReportingPeriod sets the interval between reporting aggregated views in
@@ -251,8 +278,11 @@ func (w *worker) SetReportingPeriod(d time.Duration) {
 		d: d,
 		c: make(chan bool),
 	}
-	w.c <- req
-	<-req.c // don't return until the timer is set to the new duration.
+	w.send(req)
+	select {
+	case <-req.c: // don't return until the timer is set to the new duration.
+	case <-w.done:
+	}
 }
 
 // NewMeter constructs a Meter instance. You should only need to use this if
@@ -298,7 +328,6 @@ func (w *worker) start() {
 			w.reportUsage()
 		case <-w.quit:
 			w.timer.Stop()
-			close(w.c)
 			close(w.done)
 			return
 		}
-- 
2.43.0


From 9fb365023e9ad218f60cb5fc93a56d33dda81a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 18/41] fix: stopping a meter concurrently, twice or before it
 started

Concurrent calls of Stop closed a channel twice, stopping a meter that was not
started blocked forever, and a meter stopped while starting stayed registered
as a producer.
---
 stats/view/worker.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/stats/view/worker.go b/stats/view/worker.go
index 874f9dd..c8828ab 100644
--- a/stats/view/worker.go
+++ b/stats/view/worker.go
@@ -50,6 +50,9 @@ type worker struct {
 	timer      *time.Ticker
 	c          chan command
 	quit, done chan bool
+	stateMu    sync.Mutex // guards running and stopped
+	running    bool
+	stopped    bool
 	mu         sync.RWMutex
 	r          *resource.Resource
 
@@ -317,8 +320,15 @@ func (w *worker) Start() {
 }
 
 func (w *worker) start() {
+	w.stateMu.Lock()
+	if w.running || w.stopped {
+		w.stateMu.Unlock()
+		return
+	}
+	w.running = true
 	prodMgr := metricproducer.GlobalManager()
 	prodMgr.AddProducer(w)
+	w.stateMu.Unlock()
 
 	for {
 		select {
@@ -335,13 +345,17 @@ func (w *worker) start() {
 }
 
 func (w *worker) Stop() {
-	prodMgr := metricproducer.GlobalManager()
-	prodMgr.DeleteProducer(w)
-	select {
-	case <-w.quit:
-	default:
+	w.stateMu.Lock()
+	if !w.stopped {
+		w.stopped = true
 		close(w.quit)
+		if !w.running {
+			close(w.done)
+		}
 	}
+	prodMgr := metricproducer.GlobalManager()
+	prodMgr.DeleteProducer(w)
+	w.stateMu.Unlock()
 	<-w.done
 }
 
-- 
2.43.0


From b59c41df4754958f5594851455e508ef0fc717bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:17 +0000
Subject: [PATCH 19/41] fix: compare the tag keys and bucket bounds of views
 under the same name

A view grouping by other tag keys was taken for the registered one, and
two distributions with the same bounds for different ones (their newData
functions never compare equal).
---
 stats/view/view.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/stats/view/view.go b/stats/view/view.go
index 3ffbbf6..371a955 100644
--- a/stats/view/view.go
+++ b/stats/view/view.go
@@ -64,8 +64,23 @@ func (v *View) same(other *View) bool {
 	if v == nil {
 		return false
 	}
-	return reflect.DeepEqual(v.Aggregation, other.Aggregation) &&
-		v.Measure.Name() == other.Measure.Name()
+	if v.Measure.Name() != other.Measure.Name() || v.Aggregation.Type != other.Aggregation.Type {
+		return false
+	}
+	if len(v.TagKeys) != len(other.TagKeys) || len(v.Aggregation.Buckets) != len(other.Aggregation.Buckets) {
+		return false
+	}
+	for i := range v.TagKeys {
+		if v.TagKeys[i].Name() != other.TagKeys[i].Name() {
+			return false
+		}
+	}
+	for i := range v.Aggregation.Buckets {
+		if v.Aggregation.Buckets[i] != other.Aggregation.Buckets[i] {
+			return false
+		}
+	}
+	return true
 }
 
 // ErrNegativeBucketBounds error returned if histogram contains negative bounds.
-- 
2.43.0


From e182cbb8de25f555ada9a794f85ee1e84930a7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 20/41] fix: reject views that cannot be collected

A nil view, a measure of a foreign type or an Aggregation that was not
made by this package panicked in the worker, ending the process.
---
 stats/view/view.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/stats/view/view.go b/stats/view/view.go
index 371a955..955d381 100644
--- a/stats/view/view.go
+++ b/stats/view/view.go
@@ -91,12 +91,28 @@ var ErrNegativeBucketBounds = errors.New("negative bucket bounds not supported")
 // canonicalize canonicalizes v by setting explicit
 // defaults for Name and Description and sorting the TagKeys
 func (v *View) canonicalize() error {
+	if v == nil {
+		return errors.New("cannot register a nil view")
+	}
 	if v.Measure == nil {
 		return fmt.Errorf("cannot register view %q: measure not set", v.Name)
 	}
 	if v.Aggregation == nil {
 		return fmt.Errorf("cannot register view %q: aggregation not set", v.Name)
 	}
+	switch v.Measure.(type) {
+	case *stats.Int64Measure, *stats.Float64Measure:
+	default:
+		return fmt.Errorf("cannot register view %q: unknown type of measure", v.Name)
+	}
+	if v.Aggregation.newData == nil {
+		return fmt.Errorf("cannot register view %q: unknown aggregation", v.Name)
+	}
+	switch v.Aggregation.Type {
+	case AggTypeCount, AggTypeSum, AggTypeDistribution, AggTypeLastValue:
+	default:
+		return fmt.Errorf("cannot register view %q: unknown type of aggregation", v.Name)
+	}
 	if v.Name == "" {
 		v.Name = v.Measure.Name()
 	}
-- 
2.43.0


From caab613e1feb8e773f65a06417abc3fc8d3aef5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:24 +0000
Subject: [PATCH 21/41] fix: metric: encode label values of any length without
 collisions

---
 metric/common.go | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/metric/common.go b/metric/common.go
index 42acaae..d0e6a25 100644
--- a/metric/common.go
+++ b/metric/common.go
@@ -15,11 +15,10 @@
 package metric
 
 import (
+	"encoding/binary"
 	"sync"
 	"time"
 
-	"go.opencensus.io/internal/tagencoding"
-
 	"go.opencensus.io/metric/metricdata"
 )
 
@@ -92,29 +91,35 @@ func (bm *baseMetric) read() *metricdata.Metric {
 	return m
 }
 
+// encodeLabelVals encodes the label values as a map key. Each value is preceded by its length plus one,
+// or is just a zero if it is not present, so that different values never have the same key.
 func (bm *baseMetric) encodeLabelVals(labelVals []metricdata.LabelValue) string {
-	vb := &tagencoding.Values{}
+	var b []byte
+	var size [binary.MaxVarintLen64]byte
 	for _, v := range labelVals {
-		b := make([]byte, 1, len(v.Value)+1)
-		if v.Present {
-			b[0] = 1
-			b = append(b, []byte(v.Value)...)
+		if !v.Present {
+			b = append(b, 0)
+			continue
 		}
-		vb.WriteValue(b)
+		n := binary.PutUvarint(size[:], uint64(len(v.Value))+1)
+		b = append(b, size[:n]...)
+		b = append(b, v.Value...)
 	}
-	return string(vb.Bytes())
+	return string(b)
 }
 
 func (bm *baseMetric) decodeLabelVals(s string) []metricdata.LabelValue {
 	vals := make([]metricdata.LabelValue, 0, len(bm.keys))
-	vb := &tagencoding.Values{Buffer: []byte(s)}
+	b := []byte(s)
 	for range bm.keys {
-		v := vb.ReadValue()
-		if v[0] == 0 {
+		size, n := binary.Uvarint(b)
+		b = b[n:]
+		if size == 0 {
 			vals = append(vals, metricdata.LabelValue{})
-		} else {
-			vals = append(vals, metricdata.NewLabelValue(string(v[1:])))
+			continue
 		}
+		vals = append(vals, metricdata.NewLabelValue(string(b[:size-1])))
+		b = b[size-1:]
 	}
 	return vals
 }
-- 
2.43.0


From 1326927abc7cfbcc4b4faa47976964569a663a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:47 +0000
Subject: [PATCH 22/41] fix: metric: do not append label values to the shared
 constant label values

---
 metric/common.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/metric/common.go b/metric/common.go
index d0e6a25..cef1225 100644
--- a/metric/common.go
+++ b/metric/common.go
@@ -124,8 +124,15 @@ func (bm *baseMetric) decodeLabelVals(s string) []metricdata.LabelValue {
 	return vals
 }
 
+// withConstLabelVals returns a new slice with the values of the constant labels followed by labelVals.
+func (bm *baseMetric) withConstLabelVals(labelVals []metricdata.LabelValue) []metricdata.LabelValue {
+	all := make([]metricdata.LabelValue, 0, len(bm.constLabelValues)+len(labelVals))
+	all = append(all, bm.constLabelValues...)
+	return append(all, labelVals...)
+}
+
 func (bm *baseMetric) entryForValues(labelVals []metricdata.LabelValue, newEntry func() baseEntry) (interface{}, error) {
-	labelVals = append(bm.constLabelValues, labelVals...)
+	labelVals = bm.withConstLabelVals(labelVals)
 	if len(labelVals) != len(bm.keys) {
 		return nil, errKeyValueMismatch
 	}
@@ -138,7 +145,7 @@ func (bm *baseMetric) entryForValues(labelVals []metricdata.LabelValue, newEntry
 }
 
 func (bm *baseMetric) upsertEntry(labelVals []metricdata.LabelValue, newEntry func() baseEntry) error {
-	labelVals = append(bm.constLabelValues, labelVals...)
+	labelVals = bm.withConstLabelVals(labelVals)
 	if len(labelVals) != len(bm.keys) {
 		return errKeyValueMismatch
 	}
-- 
2.43.0


From c85e02fdc807ad78f525a06dca2e25fa63e159b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:58 +0000
Subject: [PATCH 23/41] fix: metric: keep a derived entry readable while it is
 replaced

---
 metric/common.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/metric/common.go b/metric/common.go
index cef1225..1e9ed76 100644
--- a/metric/common.go
+++ b/metric/common.go
@@ -150,7 +150,6 @@ func (bm *baseMetric) upsertEntry(labelVals []metricdata.LabelValue, newEntry fu
 		return errKeyValueMismatch
 	}
 	mapKey := bm.encodeLabelVals(labelVals)
-	bm.vals.Delete(mapKey)
 	bm.vals.Store(mapKey, newEntry())
 	return nil
 }
-- 
2.43.0


From 63d936592147adb13d09ecdc1e881ab2c48996ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:10 +0000
Subject: [PATCH 24/41] fix: metric: ignore a NaN increment of a cumulative

---
 metric/cumulative.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metric/cumulative.go b/metric/cumulative.go
index b25ba94..7d92e76 100644
--- a/metric/cumulative.go
+++ b/metric/cumulative.go
@@ -60,10 +60,10 @@ func (c *Float64Cumulative) GetEntry(labelVals ...metricdata.LabelValue) (*Float
 }
 
 // Inc increments the cumulative entry value by val. It returns without incrementing if the val
-// is negative.
+// is negative or not a number.
 func (e *Float64CumulativeEntry) Inc(val float64) {
 	var swapped bool
-	if val <= 0.0 {
+	if !(val > 0) {
 		return
 	}
 	for !swapped {
-- 
2.43.0


From a129702dc6922d4e4b94a81566742c4ae59ce99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:54 +0000
Subject: [PATCH 25/41] fix: metricexport: Flush of a nil IntervalReader is a
 no-op

---
 metric/metricexport/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metric/metricexport/reader.go b/metric/metricexport/reader.go
index 8a09d0f..979aa7a 100644
--- a/metric/metricexport/reader.go
+++ b/metric/metricexport/reader.go
@@ -174,6 +174,9 @@ func (ir *IntervalReader) Stop() {
 
 // Flush flushes the metrics if IntervalReader is stopped, otherwise no-op.
 func (ir *IntervalReader) Flush() {
+	if ir == nil {
+		return
+	}
 	ir.mu.Lock()
 	defer ir.mu.Unlock()
 
-- 
2.43.0


From 16adb9b30bd764597e0abab16e1803da817214a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:30 +0000
Subject: [PATCH 26/41] fix: ochttp: record the status code of the response
 header that was sent

---
 plugin/ochttp/server.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/plugin/ochttp/server.go b/plugin/ochttp/server.go
index 946b22e..8a27d57 100644
--- a/plugin/ochttp/server.go
+++ b/plugin/ochttp/server.go
@@ -209,6 +209,7 @@ func (t *trackingResponseWriter) Header() http.Header {
 }
 
 func (t *trackingResponseWriter) Write(data []byte) (int, error) {
+	t.headerSent(http.StatusOK)
 	n, err := t.writer.Write(data)
 	t.respSize += int64(n)
 	// Add message event for request bytes sent.
@@ -219,10 +220,32 @@ func (t *trackingResponseWriter) Write(data []byte) (int, error) {
 
 func (t *trackingResponseWriter) WriteHeader(statusCode int) {
 	t.writer.WriteHeader(statusCode)
+	t.headerSent(statusCode)
+}
+
+// headerSent records the status code of the response. The first final header
+// is the one that reaches the client: informational headers may precede it and
+// the server ignores later ones.
+func (t *trackingResponseWriter) headerSent(statusCode int) {
+	informational := statusCode < 200 && statusCode != http.StatusSwitchingProtocols
+	if t.statusCode != 0 || informational {
+		return
+	}
 	t.statusCode = statusCode
 	t.statusLine = http.StatusText(t.statusCode)
 }
 
+// trackingFlusher is the http.Flusher of a tracked writer: flushing sends the header.
+type trackingFlusher struct {
+	t *trackingResponseWriter
+	http.Flusher
+}
+
+func (f trackingFlusher) Flush() {
+	f.t.headerSent(http.StatusOK)
+	f.Flusher.Flush()
+}
+
 // wrappedResponseWriter returns a wrapped version of the original
 //
 //	ResponseWriter and only implements the same combination of additional
@@ -237,6 +260,9 @@ func (t *trackingResponseWriter) wrappedResponseWriter() http.ResponseWriter {
 		fl, i3 = t.writer.(http.Flusher)
 		rf, i4 = t.writer.(io.ReaderFrom)
 	)
+	if i3 {
+		fl = trackingFlusher{t, fl}
+	}
 
 	switch {
 	case !i0 && !i1 && !i2 && !i3 && !i4:
-- 
2.43.0


From e673678061bc80be9aa9095518240792467d8a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:41 +0000
Subject: [PATCH 27/41] fix: ochttp: count the response bytes written by
 ReadFrom

---
 plugin/ochttp/server.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/plugin/ochttp/server.go b/plugin/ochttp/server.go
index 8a27d57..d8f20f7 100644
--- a/plugin/ochttp/server.go
+++ b/plugin/ochttp/server.go
@@ -211,11 +211,16 @@ func (t *trackingResponseWriter) Header() http.Header {
 func (t *trackingResponseWriter) Write(data []byte) (int, error) {
 	t.headerSent(http.StatusOK)
 	n, err := t.writer.Write(data)
-	t.respSize += int64(n)
+	t.bodySent(int64(n))
+	return n, err
+}
+
+// bodySent records that n bytes of the response body were written.
+func (t *trackingResponseWriter) bodySent(n int64) {
+	t.respSize += n
 	// Add message event for request bytes sent.
 	span := trace.FromContext(t.ctx)
-	span.AddMessageSendEvent(0 /* TODO: messageID */, int64(n), -1)
-	return n, err
+	span.AddMessageSendEvent(0 /* TODO: messageID */, n, -1)
 }
 
 func (t *trackingResponseWriter) WriteHeader(statusCode int) {
@@ -235,6 +240,19 @@ func (t *trackingResponseWriter) headerSent(statusCode int) {
 	t.statusLine = http.StatusText(t.statusCode)
 }
 
+// trackingReaderFrom is the io.ReaderFrom of a tracked writer.
+type trackingReaderFrom struct {
+	t *trackingResponseWriter
+	io.ReaderFrom
+}
+
+func (rf trackingReaderFrom) ReadFrom(r io.Reader) (int64, error) {
+	rf.t.headerSent(http.StatusOK)
+	n, err := rf.ReaderFrom.ReadFrom(r)
+	rf.t.bodySent(n)
+	return n, err
+}
+
 // trackingFlusher is the http.Flusher of a tracked writer: flushing sends the header.
 type trackingFlusher struct {
 	t *trackingResponseWriter
@@ -263,6 +281,9 @@ func (t *trackingResponseWriter) wrappedResponseWriter() http.ResponseWriter {
 	if i3 {
 		fl = trackingFlusher{t, fl}
 	}
+	if i4 {
+		rf = trackingReaderFrom{t, rf}
+	}
 
 	switch {
 	case !i0 && !i1 && !i2 && !i3 && !i4:
-- 
2.43.0


From 54c41f16a407cad0af4046b2c8bcf9d19e5176a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:52 +0000
Subject: [PATCH 28/41] fix: ochttp: end the client span of a response without
 a body

---
 plugin/ochttp/trace.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plugin/ochttp/trace.go b/plugin/ochttp/trace.go
index ed3a5db..1591015 100644
--- a/plugin/ochttp/trace.go
+++ b/plugin/ochttp/trace.go
@@ -91,6 +91,11 @@ func (t *traceTransport) RoundTrip(req *http.Request) (*http.Response, error) {
 	span.AddAttributes(responseAttrs(resp)...)
 	span.SetStatus(TraceStatus(resp.StatusCode, resp.Status))
 
+	if resp.Body == nil {
+		span.End()
+		return resp, err
+	}
+
 	// span.End() will be invoked after
 	// a read from resp.Body returns io.EOF or when
 	// resp.Body.Close() is invoked.
-- 
2.43.0


From 64b754583c49d7351f5bcb82e0412bc150670b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:02 +0000
Subject: [PATCH 29/41] fix: ochttp: no data race between reading and closing a
 client body

---
 plugin/ochttp/client_stats.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/plugin/ochttp/client_stats.go b/plugin/ochttp/client_stats.go
index 17142aa..dd29cef 100644
--- a/plugin/ochttp/client_stats.go
+++ b/plugin/ochttp/client_stats.go
@@ -20,6 +20,7 @@ import (
 	"net/http"
 	"strconv"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"go.opencensus.io/stats"
@@ -85,8 +86,8 @@ func (t statsTransport) CancelRequest(req *http.Request) {
 }
 
 type tracker struct {
+	respSize          int64 // accessed atomically: the body may be closed during a read
 	ctx               context.Context
-	respSize          int64
 	respContentLength int64
 	reqSize           int64
 	start             time.Time
@@ -100,8 +101,9 @@ var _ io.ReadCloser = (*tracker)(nil)
 func (t *tracker) end() {
 	t.endOnce.Do(func() {
 		latencyMs := float64(time.Since(t.start)) / float64(time.Millisecond)
-		respSize := t.respSize
-		if t.respSize == 0 && t.respContentLength > 0 {
+		bodySize := atomic.LoadInt64(&t.respSize)
+		respSize := bodySize
+		if bodySize == 0 && t.respContentLength > 0 {
 			respSize = t.respContentLength
 		}
 		m := []stats.Measurement{
@@ -109,7 +111,7 @@ func (t *tracker) end() {
 			ClientReceivedBytes.M(respSize),
 			ClientRoundtripLatency.M(latencyMs),
 			ClientLatency.M(latencyMs),
-			ClientResponseBytes.M(t.respSize),
+			ClientResponseBytes.M(bodySize),
 		}
 		if t.reqSize >= 0 {
 			m = append(m, ClientRequestBytes.M(t.reqSize))
@@ -124,7 +126,7 @@ func (t *tracker) end() {
 
 func (t *tracker) Read(b []byte) (int, error) {
 	n, err := t.body.Read(b)
-	t.respSize += int64(n)
+	atomic.AddInt64(&t.respSize, int64(n))
 	switch err {
 	case nil:
 		return n, nil
-- 
2.43.0


From 5b275d41ed1353d4da0804110f0df3a810c43ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:23 +0000
Subject: [PATCH 30/41] fix: ocgrpc: ignore the begin event of an unknown RPC

---
 plugin/ocgrpc/stats_common.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plugin/ocgrpc/stats_common.go b/plugin/ocgrpc/stats_common.go
index 9cb2732..e4ecf71 100644
--- a/plugin/ocgrpc/stats_common.go
+++ b/plugin/ocgrpc/stats_common.go
@@ -103,6 +103,7 @@ func handleRPCBegin(ctx context.Context, s *stats.Begin) {
 		if grpclog.V(2) {
 			grpclog.Infoln("Failed to retrieve *rpcData from context.")
 		}
+		return
 	}
 
 	if s.IsClient() {
-- 
2.43.0


From 54d2c908a2a9c38879492806b8ffcd3368a3bfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:24 +0000
Subject: [PATCH 31/41] fix: ocgrpc: tag started server RPCs with the server
 method

---
 plugin/ocgrpc/stats_common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugin/ocgrpc/stats_common.go b/plugin/ocgrpc/stats_common.go
index e4ecf71..72609b3 100644
--- a/plugin/ocgrpc/stats_common.go
+++ b/plugin/ocgrpc/stats_common.go
@@ -112,7 +112,7 @@ func handleRPCBegin(ctx context.Context, s *stats.Begin) {
 			ocstats.WithMeasurements(ClientStartedRPCs.M(1)))
 	} else {
 		ocstats.RecordWithOptions(ctx,
-			ocstats.WithTags(tag.Upsert(KeyClientMethod, methodName(d.method))),
+			ocstats.WithTags(tag.Upsert(KeyServerMethod, methodName(d.method))),
 			ocstats.WithMeasurements(ServerStartedRPCs.M(1)))
 	}
 }
-- 
2.43.0


From 680a1d81632c29bf13774760e09a3b175aed31ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:32 +0000
Subject: [PATCH 32/41] fix: ocgrpc: record a status for errors that carry none

---
 plugin/ocgrpc/stats_common.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/plugin/ocgrpc/stats_common.go b/plugin/ocgrpc/stats_common.go
index 72609b3..b258ed6 100644
--- a/plugin/ocgrpc/stats_common.go
+++ b/plugin/ocgrpc/stats_common.go
@@ -156,10 +156,9 @@ func handleRPCEnd(ctx context.Context, s *stats.End) {
 
 	var st string
 	if s.Error != nil {
-		s, ok := status.FromError(s.Error)
-		if ok {
-			st = statusCodeToString(s)
-		}
+		// An error without a status counts as UNKNOWN.
+		s, _ := status.FromError(s.Error)
+		st = statusCodeToString(s)
 	} else {
 		st = "OK"
 	}
-- 
2.43.0


From e24f34520afb7caabe20fcafa8e3dc9acb340291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:50 +0000
Subject: [PATCH 33/41] fix: ocgrpc: link the incoming context of a public
 endpoint as parent

---
 plugin/ocgrpc/trace_common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugin/ocgrpc/trace_common.go b/plugin/ocgrpc/trace_common.go
index 61bc543..34d01e4 100644
--- a/plugin/ocgrpc/trace_common.go
+++ b/plugin/ocgrpc/trace_common.go
@@ -76,7 +76,7 @@ func (s *ServerHandler) traceTagRPC(ctx context.Context, rti *stats.RPCTagInfo)
 		trace.WithSpanKind(trace.SpanKindServer),
 		trace.WithSampler(s.StartOptions.Sampler))
 	if haveParent {
-		span.AddLink(trace.Link{TraceID: parent.TraceID, SpanID: parent.SpanID, Type: trace.LinkTypeChild})
+		span.AddLink(trace.Link{TraceID: parent.TraceID, SpanID: parent.SpanID, Type: trace.LinkTypeParent})
 	}
 	return ctx
 }
-- 
2.43.0


From 49402e5684d95b3f83666a1b31049b72ee1db21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:10 +0000
Subject: [PATCH 34/41] fix: ocgrpc: TagRPC without RPC information must not
 panic

---
 plugin/ocgrpc/trace_common.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/plugin/ocgrpc/trace_common.go b/plugin/ocgrpc/trace_common.go
index 34d01e4..c08e096 100644
--- a/plugin/ocgrpc/trace_common.go
+++ b/plugin/ocgrpc/trace_common.go
@@ -34,8 +34,7 @@ const traceContextKey = "grpc-trace-bin"
 // It returns ctx with the new trace span added and a serialization of the
 // SpanContext added to the outgoing gRPC metadata.
 func (c *ClientHandler) traceTagRPC(ctx context.Context, rti *stats.RPCTagInfo) context.Context {
-	name := strings.TrimPrefix(rti.FullMethodName, "/")
-	name = strings.Replace(name, "/", ".", -1)
+	name := spanName(rti)
 	ctx, span := trace.StartSpan(ctx, name,
 		trace.WithSampler(c.StartOptions.Sampler),
 		trace.WithSpanKind(trace.SpanKindClient)) // span is ended by traceHandleRPC
@@ -43,6 +42,15 @@ func (c *ClientHandler) traceTagRPC(ctx context.Context, rti *stats.RPCTagInfo)
 	return metadata.AppendToOutgoingContext(ctx, traceContextKey, string(traceContextBinary))
 }
 
+// spanName is the name of the span of an RPC.
+func spanName(rti *stats.RPCTagInfo) string {
+	if rti == nil {
+		return ""
+	}
+	name := strings.TrimPrefix(rti.FullMethodName, "/")
+	return strings.Replace(name, "/", ".", -1)
+}
+
 // TagRPC creates a new trace span for the server side of the RPC.
 //
 // It checks the incoming gRPC metadata in ctx for a SpanContext, and if
@@ -51,8 +59,7 @@ func (c *ClientHandler) traceTagRPC(ctx context.Context, rti *stats.RPCTagInfo)
 // It returns ctx, with the new trace span added.
 func (s *ServerHandler) traceTagRPC(ctx context.Context, rti *stats.RPCTagInfo) context.Context {
 	md, _ := metadata.FromIncomingContext(ctx)
-	name := strings.TrimPrefix(rti.FullMethodName, "/")
-	name = strings.Replace(name, "/", ".", -1)
+	name := spanName(rti)
 	traceContext := md[traceContextKey]
 	var (
 		parent     trace.SpanContext
-- 
2.43.0


From cc75c15d42b98f97e60181ed67b9ded723779a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:39 +0000
Subject: [PATCH 35/41] fix: runmetrics: refresh the memory gauges on every
 read

---
 plugin/runmetrics/producer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plugin/runmetrics/producer.go b/plugin/runmetrics/producer.go
index d76bebe..944e1a7 100644
--- a/plugin/runmetrics/producer.go
+++ b/plugin/runmetrics/producer.go
@@ -165,6 +165,10 @@ func Disable() {
 
 // Read reads the current runtime metrics.
 func (p *producer) Read() []*metricdata.Metric {
+	if p.deprecatedMemStats != nil {
+		p.deprecatedMemStats.read()
+	}
+
 	if p.memStats != nil {
 		p.memStats.read()
 	}
-- 
2.43.0


From 8f31d514397fbca8b6ff93d6ff71196f9b368460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:03 +0000
Subject: [PATCH 36/41] fix: runmetrics: serialize concurrent reads of the
 memory statistics

---
 plugin/runmetrics/producer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plugin/runmetrics/producer.go b/plugin/runmetrics/producer.go
index 944e1a7..336be56 100644
--- a/plugin/runmetrics/producer.go
+++ b/plugin/runmetrics/producer.go
@@ -19,6 +19,7 @@ type (
 		options RunMetricOptions
 		reg     *metric.Registry
 
+		mu                 sync.Mutex // serializes reads, which share the stats below
 		deprecatedMemStats *deprecatedMemStats
 		memStats           *memStats
 		cpuStats           *cpuStats
@@ -165,6 +166,9 @@ func Disable() {
 
 // Read reads the current runtime metrics.
 func (p *producer) Read() []*metricdata.Metric {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
 	if p.deprecatedMemStats != nil {
 		p.deprecatedMemStats.read()
 	}
-- 
2.43.0


From d097617bab881e19d5ac6b27c6329905e15f032d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:14 +0000
Subject: [PATCH 37/41] fix: zpages: query the last latency buckets with the
 bounds they are stored by

---
 zpages/tracez.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zpages/tracez.go b/zpages/tracez.go
index 330022c..631cba1 100644
--- a/zpages/tracez.go
+++ b/zpages/tracez.go
@@ -52,7 +52,7 @@ var (
 		100 * time.Millisecond,
 		time.Second,
 		10 * time.Second,
-		100 * time.Second,
+		time.Minute,
 	}
 	canonicalCodes = [...]string{
 		"OK",
-- 
2.43.0


From a06c9592bdaebc634f6ce0ce80b1a6163b6139de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:25 +0000
Subject: [PATCH 38/41] fix: zpages: show the input rate of received RPCs

---
 zpages/rpcz.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zpages/rpcz.go b/zpages/rpcz.go
index ef4dd15..c899171 100644
--- a/zpages/rpcz.go
+++ b/zpages/rpcz.go
@@ -304,6 +304,9 @@ func (s snapExporter) ExportView(vd *view.Data) {
 		case ocgrpc.ServerSentBytesPerRPCView:
 			s.OutputRateTotal = computeRate(0, sum)
 
+		case ocgrpc.ServerReceivedBytesPerRPCView:
+			s.InputRateTotal = computeRate(0, sum)
+
 		case ocgrpc.ServerReceivedMessagesPerRPCView:
 			s.CountTotal = uint64(count)
 			s.RPCRateTotal = computeRate(0, count)
-- 
2.43.0


From 648b0264de2c938c5deca32125ee870ea163c9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:36 +0000
Subject: [PATCH 39/41] fix: zpages: list only the spans of the error code
 asked for

---
 zpages/tracez.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zpages/tracez.go b/zpages/tracez.go
index 631cba1..9982b25 100644
--- a/zpages/tracez.go
+++ b/zpages/tracez.go
@@ -353,7 +353,7 @@ func traceSpans(spanName string, spanType, spanSubtype int) []*trace.SpanData {
 		}
 		spans = internalTrace.ReportSpansByLatency(spanName, min, max)
 	case 2: // error
-		spans = internalTrace.ReportSpansByError(spanName, 0)
+		spans = internalTrace.ReportSpansByError(spanName, int32(spanSubtype))
 	}
 	return spans
 }
-- 
2.43.0


From 014ece40864917994eb88915fb01c9c6a0cdd658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:44 +0000
Subject: [PATCH 40/41] fix: zpages: head the columns of the text RPC page by
 what they show

---
 zpages/rpcz.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zpages/rpcz.go b/zpages/rpcz.go
index c899171..e9fd7d9 100644
--- a/zpages/rpcz.go
+++ b/zpages/rpcz.go
@@ -108,8 +108,8 @@ func WriteTextRpczPage(w io.Writer) {
 			fmt.Fprint(w, "\nReceived:\n")
 		}
 		tw := tabwriter.NewWriter(w, 6, 8, 1, ' ', 0)
-		fmt.Fprint(tw, "Method\tCount\t\t\tAvgLat\t\t\tMaxLat\t\t\tRate\t\t\tIn (MiB/s)\t\t\tOut (MiB/s)\t\t\tErrors\t\t\n")
-		fmt.Fprint(tw, "\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\n")
+		fmt.Fprint(tw, "Method\tCount\t\t\tAvgLat\t\t\tRate\t\t\tIn (MiB/s)\t\t\tOut (MiB/s)\t\t\tErrors\t\t\n")
+		fmt.Fprint(tw, "\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\n")
 		for _, s := range sg.Snapshots {
 			fmt.Fprintf(tw, "%s\t%d\t%d\t%d\t%v\t%v\t%v\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%d\t%d\t%d\n",
 				s.Method,
-- 
2.43.0


From de45523681329cc39e4f779cf537c7c50897b664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 41/41] fix: zpages: release the page lock when writing the RPC
 page panics

---
 zpages/rpcz.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zpages/rpcz.go b/zpages/rpcz.go
index e9fd7d9..215e1d6 100644
--- a/zpages/rpcz.go
+++ b/zpages/rpcz.go
@@ -88,10 +88,10 @@ func WriteHTMLRpczPage(w io.Writer) {
 // It includes neither a header nor footer, so you can embed this data in other pages.
 func WriteHTMLRpczSummary(w io.Writer) {
 	mu.Lock()
+	defer mu.Unlock()
 	if err := statsTemplate.Execute(w, getStatsPage()); err != nil {
 		log.Printf("zpages: executing template: %v", err)
 	}
-	mu.Unlock()
 }
 
 // WriteTextRpczPage writes formatted text to w containing per-method RPC stats.
-- 
2.43.0

