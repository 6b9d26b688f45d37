From 8f826536879443cf5ab29a7c438689264a3acc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 01/40] fix: view: clear rows of an unregistered view under the
 worker's lock

Unregister cleared the collector while a concurrent Read of the meter could be
iterating over it.
---
 stats/view/worker.go          | 5 +++++
 stats/view/worker_commands.go | 5 -----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/stats/view/worker.go b/stats/view/worker.go
index 6a79cd8..192a501 100644
--- a/stats/view/worker.go
+++ b/stats/view/worker.go
@@ -352,6 +352,11 @@ func (w *worker) tryRegisterView(v *View) (*viewInternal, error) {
 func (w *worker) unregisterView(v *viewInternal) {
 	w.mu.Lock()
 	defer w.mu.Unlock()
+	if !v.isSubscribed() {
+		// this was the last subscription and view is not collecting anymore.
+		// The collected data can be cleared.
+		v.clearRows()
+	}
 	delete(w.views, v.view.Name)
 	delete(w.viewStartTimes, v)
 	if measure := w.measures[v.view.Measure.Name()]; measure != nil {
diff --git a/stats/view/worker_commands.go b/stats/view/worker_commands.go
index 9ac4cc0..5fbcc1a 100644
--- a/stats/view/worker_commands.go
+++ b/stats/view/worker_commands.go
@@ -98,11 +98,6 @@ func (cmd *unregisterFromViewReq) handleCommand(w *worker) {
 		w.reportView(vi)
 
 		vi.unsubscribe()
-		if !vi.isSubscribed() {
-			// this was the last subscription and view is not collecting anymore.
-			// The collected data can be cleared.
-			vi.clearRows()
-		}
 		w.unregisterView(vi)
 	}
 	cmd.done <- struct{}{}
-- 
2.43.0


From acac92e3a4453ed19ef6ddf1fd240226b26b267e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 02/40] fix: view: set the meter's resource under its lock

SetResource raced with Read.
---
 stats/view/worker.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stats/view/worker.go b/stats/view/worker.go
index 192a501..5135532 100644
--- a/stats/view/worker.go
+++ b/stats/view/worker.go
@@ -277,6 +277,8 @@ func NewMeter() Meter {
 // it is not provided when used with ExportView/RegisterExporter, because that
 // interface does not provide a means for reporting the Resource.
 func (w *worker) SetResource(r *resource.Resource) {
+	w.mu.Lock()
+	defer w.mu.Unlock()
 	w.r = r
 }
 
-- 
2.43.0


From d15aa03abe50e18d7816481eff4c6022bfc942f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 03/40] fix: view: report the right maximum for distributions
 of values below zero

Max started at the smallest positive float instead of the lowest one.
---
 stats/view/aggregation_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stats/view/aggregation_data.go b/stats/view/aggregation_data.go
index d93b520..03a333d 100644
--- a/stats/view/aggregation_data.go
+++ b/stats/view/aggregation_data.go
@@ -149,7 +149,7 @@ func newDistributionData(agg *Aggregation, t time.Time) *DistributionData {
 		ExemplarsPerBucket: make([]*metricdata.Exemplar, bucketCount),
 		bounds:             agg.Buckets,
 		Min:                math.MaxFloat64,
-		Max:                math.SmallestNonzeroFloat64,
+		Max:                -math.MaxFloat64,
 		Start:              t,
 	}
 }
-- 
2.43.0


From cceed9855c8d5fdd90f8df6e732ed927dec00538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 04/40] fix: view: make meter calls safe during and after Stop

Calls on a stopped meter panicked sending on a closed channel or blocked
forever, concurrent Stop calls could close the quit channel twice, and a Stop
overtaking Start left the meter registered as metric producer.
---
 stats/view/worker.go | 84 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 65 insertions(+), 19 deletions(-)

diff --git a/stats/view/worker.go b/stats/view/worker.go
index 5135532..2b6e012 100644
--- a/stats/view/worker.go
+++ b/stats/view/worker.go
@@ -16,6 +16,7 @@
 package view
 
 import (
+	"errors"
 	"fmt"
 	"sync"
 	"time"
@@ -49,6 +50,7 @@ type worker struct {
 	timer      *time.Ticker
 	c          chan command
 	quit, done chan bool
+	quitOnce   sync.Once
 	mu         sync.RWMutex
 	r          *resource.Resource
 
@@ -115,6 +117,8 @@ var _ Meter = (*worker)(nil)
 
 var defaultWorker *worker
 
+var errMeterStopped = errors.New("meter is stopped")
+
 var defaultReportingDuration = 10 * time.Second
 
 // Find returns a registered view associated with this name.
@@ -130,9 +134,30 @@ func (w *worker) Find(name string) (v *View) {
 		name: name,
 		c:    make(chan *getViewByNameResp),
 	}
-	w.c <- req
-	resp := <-req.c
-	return resp.v
+	if !w.send(req) {
+		return nil
+	}
+	select {
+	case resp := <-req.c:
+		return resp.v
+	case <-w.done:
+		return nil
+	}
+}
+
+// send queues cmd and reports whether it did so before the worker stopped.
+func (w *worker) send(cmd command) bool {
+	select {
+	case <-w.done:
+		return false
+	default:
+	}
+	select {
+	case w.c <- cmd:
+		return true
+	case <-w.done:
+		return false
+	}
 }
 
 // Register begins collecting data for the given views.
@@ -148,8 +173,15 @@ func (w *worker) Register(views ...*View) error {
 		views: views,
 		err:   make(chan error),
 	}
-	w.c <- req
-	return <-req.err
+	if !w.send(req) {
+		return errMeterStopped
+	}
+	select {
+	case err := <-req.err:
+		return err
+	case <-w.done:
+		return errMeterStopped
+	}
 }
 
 // Unregister the given views. Data will not longer be exported for these views
@@ -173,8 +205,13 @@ func (w *worker) Unregister(views ...*View) {
 		views: names,
 		done:  make(chan struct{}),
 	}
-	w.c <- req
-	<-req.done
+	if !w.send(req) {
+		return
+	}
+	select {
+	case <-req.done:
+	case <-w.done:
+	}
 }
 
 // RetrieveData gets a snapshot of the data collected for the the view registered
@@ -191,9 +228,15 @@ func (w *worker) RetrieveData(viewName string) ([]*Row, error) {
 		v:   viewName,
 		c:   make(chan *retrieveDataResp),
 	}
-	w.c <- req
-	resp := <-req.c
-	return resp.rows, resp.err
+	if !w.send(req) {
+		return nil, errMeterStopped
+	}
+	select {
+	case resp := <-req.c:
+		return resp.rows, resp.err
+	case <-w.done:
+		return nil, errMeterStopped
+	}
 }
 
 func record(tags *tag.Map, ms interface{}, attachments map[string]interface{}) {
@@ -218,7 +261,7 @@ func (w *worker) recordMeasurement(tags *tag.Map, ms []stats.Measurement, attach
 		attachments: attachments,
 		t:           time.Now(),
 	}
-	w.c <- req
+	w.send(req)
 }
 
 // SetReportingPeriod sets the interval between reporting aggregated views in
@@ -251,8 +294,14 @@ func (w *worker) SetReportingPeriod(d time.Duration) {
 		d: d,
 		c: make(chan bool),
 	}
-	w.c <- req
-	<-req.c // don't return until the timer is set to the new duration.
+	if !w.send(req) {
+		return
+	}
+	// don't return until the timer is set to the new duration.
+	select {
+	case <-req.c:
+	case <-w.done:
+	}
 }
 
 // NewMeter constructs a Meter instance. You should only need to use this if
@@ -298,7 +347,8 @@ func (w *worker) start() {
 			w.reportUsage()
 		case <-w.quit:
 			w.timer.Stop()
-			close(w.c)
+			// Stop may have deleted the producer before it was added above.
+			prodMgr.DeleteProducer(w)
 			close(w.done)
 			return
 		}
@@ -308,11 +358,7 @@ func (w *worker) start() {
 func (w *worker) Stop() {
 	prodMgr := metricproducer.GlobalManager()
 	prodMgr.DeleteProducer(w)
-	select {
-	case <-w.quit:
-	default:
-		close(w.quit)
-	}
+	w.quitOnce.Do(func() { close(w.quit) })
 	<-w.done
 }
 
-- 
2.43.0


From 21e9c28439dd00701bb535d4b456f88a6de2112b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 05/40] fix: view: do not write to aggregations that are
 already canonical

Registering Count and Sum views on two meters at once wrote to the shared
aggregation from both workers.
---
 stats/view/view.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stats/view/view.go b/stats/view/view.go
index 293b54e..20b2136 100644
--- a/stats/view/view.go
+++ b/stats/view/view.go
@@ -100,8 +100,11 @@ func (v *View) canonicalize() error {
 			return ErrNegativeBucketBounds
 		}
 	}
-	// drop 0 bucket silently.
-	v.Aggregation.Buckets = dropZeroBounds(v.Aggregation.Buckets...)
+	// drop 0 bucket silently. Leave aggregations that need no change alone, they
+	// may be shared with other views and other meters.
+	if b := dropZeroBounds(v.Aggregation.Buckets...); len(b) != len(v.Aggregation.Buckets) {
+		v.Aggregation.Buckets = b
+	}
 
 	return nil
 }
-- 
2.43.0


From 2ea761f2e7548481f98925090ac98ce91100ed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 06/40] fix: view: accept registering an equal distribution or
 last-value view again

Aggregations hold a function, so comparing them with reflect.DeepEqual found
equal definitions different unless they were the same object.
---
 stats/view/aggregation.go | 16 ++++++++++++++++
 stats/view/view.go        |  2 +-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/stats/view/aggregation.go b/stats/view/aggregation.go
index 61f72d2..1ec409b 100644
--- a/stats/view/aggregation.go
+++ b/stats/view/aggregation.go
@@ -50,6 +50,22 @@ type Aggregation struct {
 	newData func(time.Time) AggregationData
 }
 
+// same returns true if a and other, both canonicalized, aggregate alike.
+func (a *Aggregation) same(other *Aggregation) bool {
+	if a == other {
+		return true
+	}
+	if a.Type != other.Type || len(a.Buckets) != len(other.Buckets) {
+		return false
+	}
+	for i := range a.Buckets {
+		if a.Buckets[i] != other.Buckets[i] {
+			return false
+		}
+	}
+	return true
+}
+
 var (
 	aggCount = &Aggregation{
 		Type: AggTypeCount,
diff --git a/stats/view/view.go b/stats/view/view.go
index 20b2136..9f41b6a 100644
--- a/stats/view/view.go
+++ b/stats/view/view.go
@@ -64,7 +64,7 @@ func (v *View) same(other *View) bool {
 	if v == nil {
 		return false
 	}
-	return reflect.DeepEqual(v.Aggregation, other.Aggregation) &&
+	return v.Aggregation.same(other.Aggregation) &&
 		v.Measure.Name() == other.Measure.Name()
 }
 
-- 
2.43.0


From 24032b77c1c0e4d921f40ccc1e79e04f334e03fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:29 +0000
Subject: [PATCH 07/40] fix: tag: reject encoded lengths that overflow an int

---
 tag/map_codec.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tag/map_codec.go b/tag/map_codec.go
index c242e69..74b5769 100644
--- a/tag/map_codec.go
+++ b/tag/map_codec.go
@@ -126,10 +126,10 @@ func (eg *encoderGRPC) readBytesWithVarintLen() ([]byte, error) {
 	}
 
 	valueStart += eg.readIdx
-	valueEnd := valueStart + int(length)
-	if valueEnd > len(eg.buf) {
-		return nil, fmt.Errorf("malformed encoding: length:%v, upper:%v, maxLength:%v", length, valueEnd, len(eg.buf))
+	if length > uint64(len(eg.buf)-valueStart) {
+		return nil, fmt.Errorf("malformed encoding: length:%v, start:%v, maxLength:%v", length, valueStart, len(eg.buf))
 	}
+	valueEnd := valueStart + int(length)
 
 	eg.readIdx = valueEnd
 	return eg.buf[valueStart:valueEnd], nil
-- 
2.43.0


From 34a63b1e263d2a077fc868f8e51ae2b6d5430fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:30 +0000
Subject: [PATCH 08/40] fix: tag: let Do run with a context that has no tags

---
 tag/profile_19.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tag/profile_19.go b/tag/profile_19.go
index 8fb1722..5435c8e 100644
--- a/tag/profile_19.go
+++ b/tag/profile_19.go
@@ -24,6 +24,9 @@ import (
 
 func do(ctx context.Context, f func(ctx context.Context)) {
 	m := FromContext(ctx)
+	if m == nil {
+		m = newMap()
+	}
 	keyvals := make([]string, 0, 2*len(m.m))
 	for k, v := range m.m {
 		keyvals = append(keyvals, k.Name(), v.value)
-- 
2.43.0


From f247d5e19438d3b3ca81f194cebc8013ffa04dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 09/40] fix: trace: keep attribute eviction order when an
 active span is reported

---
 trace/lrumap.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/trace/lrumap.go b/trace/lrumap.go
index 80095a5..e35b9fb 100644
--- a/trace/lrumap.go
+++ b/trace/lrumap.go
@@ -21,19 +21,19 @@ import (
 // A simple lru.Cache wrapper that tracks the keys of the current contents and
 // the cumulative number of evicted items.
 type lruMap struct {
-	cacheKeys    map[lru.Key]bool
+	values       map[lru.Key]interface{} // what is in cache, readable without marking it as used
 	cache        *lru.Cache
 	droppedCount int
 }
 
 func newLruMap(size int) *lruMap {
 	lm := &lruMap{
-		cacheKeys:    make(map[lru.Key]bool),
+		values:       make(map[lru.Key]interface{}),
 		cache:        lru.New(size),
 		droppedCount: 0,
 	}
 	lm.cache.OnEvicted = func(key lru.Key, value interface{}) {
-		delete(lm.cacheKeys, key)
+		delete(lm.values, key)
 		lm.droppedCount++
 	}
 	return lm
@@ -44,18 +44,20 @@ func (lm lruMap) len() int {
 }
 
 func (lm lruMap) keys() []interface{} {
-	keys := make([]interface{}, 0, len(lm.cacheKeys))
-	for k := range lm.cacheKeys {
+	keys := make([]interface{}, 0, len(lm.values))
+	for k := range lm.values {
 		keys = append(keys, k)
 	}
 	return keys
 }
 
 func (lm *lruMap) add(key, value interface{}) {
-	lm.cacheKeys[lru.Key(key)] = true
+	lm.values[lru.Key(key)] = value
 	lm.cache.Add(lru.Key(key), value)
 }
 
+// get returns the value of key without making it the most recently used one.
 func (lm *lruMap) get(key interface{}) (interface{}, bool) {
-	return lm.cache.Get(key)
+	value, ok := lm.values[lru.Key(key)]
+	return value, ok
 }
-- 
2.43.0


From 54e48e96acdb9c560b433668d3f9390c261ea602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:53 +0000
Subject: [PATCH 10/40] fix: trace: never generate the zero trace ID

---
 trace/trace.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trace/trace.go b/trace/trace.go
index 861df9d..529fdb8 100644
--- a/trace/trace.go
+++ b/trace/trace.go
@@ -588,8 +588,10 @@ func (gen *defaultIDGenerator) NewTraceID() [16]byte {
 	// Construct the trace ID from two outputs of traceIDRand, with a constant
 	// added to each half for additional entropy.
 	gen.Lock()
-	binary.LittleEndian.PutUint64(tid[0:8], gen.traceIDRand.Uint64()+gen.traceIDAdd[0])
-	binary.LittleEndian.PutUint64(tid[8:16], gen.traceIDRand.Uint64()+gen.traceIDAdd[1])
+	for tid == [16]byte{} {
+		binary.LittleEndian.PutUint64(tid[0:8], gen.traceIDRand.Uint64()+gen.traceIDAdd[0])
+		binary.LittleEndian.PutUint64(tid[8:16], gen.traceIDRand.Uint64()+gen.traceIDAdd[1])
+	}
 	gen.Unlock()
 	return tid
 }
-- 
2.43.0


From 1360001a0913e47f5a3576d273687d845ab30877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:41 +0000
Subject: [PATCH 11/40] fix: tracecontext: require exactly two hex digits of
 trace flags

---
 plugin/ochttp/propagation/tracecontext/propagation.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plugin/ochttp/propagation/tracecontext/propagation.go b/plugin/ochttp/propagation/tracecontext/propagation.go
index 48d8152..ea74565 100644
--- a/plugin/ochttp/propagation/tracecontext/propagation.go
+++ b/plugin/ochttp/propagation/tracecontext/propagation.go
@@ -96,8 +96,11 @@ func (f *HTTPFormat) SpanContextFromHeaders(tp string, ts string) (sc trace.Span
 	}
 	copy(sc.SpanID[:], sid)
 
+	if len(sections[3]) != 2 {
+		return trace.SpanContext{}, false
+	}
 	opts, err := hex.DecodeString(sections[3])
-	if err != nil || len(opts) < 1 {
+	if err != nil {
 		return trace.SpanContext{}, false
 	}
 	sc.TraceOptions = trace.TraceOptions(opts[0])
-- 
2.43.0


From 1bec8f2537f410a0269a44f8a01a9df369ce4a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:41 +0000
Subject: [PATCH 12/40] fix: tracecontext: reject requests with several
 traceparent headers

---
 plugin/ochttp/propagation/tracecontext/propagation.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plugin/ochttp/propagation/tracecontext/propagation.go b/plugin/ochttp/propagation/tracecontext/propagation.go
index ea74565..2b1c48f 100644
--- a/plugin/ochttp/propagation/tracecontext/propagation.go
+++ b/plugin/ochttp/propagation/tracecontext/propagation.go
@@ -47,7 +47,10 @@ type HTTPFormat struct{}
 
 // SpanContextFromRequest extracts a span context from incoming requests.
 func (f *HTTPFormat) SpanContextFromRequest(req *http.Request) (sc trace.SpanContext, ok bool) {
-	tp, _ := getRequestHeader(req, traceparentHeader, false)
+	tp, ok := getRequestHeader(req, traceparentHeader, false)
+	if !ok {
+		return trace.SpanContext{}, false
+	}
 	ts, _ := getRequestHeader(req, tracestateHeader, true)
 	return f.SpanContextFromHeaders(tp, ts)
 }
-- 
2.43.0


From b4919c082fe16936f81d2603b72f426ed2783f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:41 +0000
Subject: [PATCH 13/40] fix: tracecontext: do not leave a stale tracestate
 header on the request

---
 plugin/ochttp/propagation/tracecontext/propagation.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plugin/ochttp/propagation/tracecontext/propagation.go b/plugin/ochttp/propagation/tracecontext/propagation.go
index 2b1c48f..3ac7ade 100644
--- a/plugin/ochttp/propagation/tracecontext/propagation.go
+++ b/plugin/ochttp/propagation/tracecontext/propagation.go
@@ -204,5 +204,7 @@ func (f *HTTPFormat) SpanContextToRequest(sc trace.SpanContext, req *http.Reques
 	req.Header.Set(traceparentHeader, tp)
 	if ts != "" {
 		req.Header.Set(tracestateHeader, ts)
+	} else {
+		req.Header.Del(tracestateHeader)
 	}
 }
-- 
2.43.0


From 6290180f6263b3a596d68e9e7bb65d93db7ad418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:41 +0000
Subject: [PATCH 14/40] fix: tracestate: do not share the caller's entries
 slice

---
 trace/tracestate/tracestate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trace/tracestate/tracestate.go b/trace/tracestate/tracestate.go
index 2d6c713..233d7de 100644
--- a/trace/tracestate/tracestate.go
+++ b/trace/tracestate/tracestate.go
@@ -81,7 +81,7 @@ func (ts *Tracestate) add(entries []Entry) error {
 		return fmt.Errorf("adding %d key-value pairs to current %d pairs exceeds the limit of %d",
 			len(entries), len(ts.entries), maxKeyValuePairs)
 	}
-	ts.entries = append(entries, ts.entries...)
+	ts.entries = append(append([]Entry(nil), entries...), ts.entries...)
 	return nil
 }
 
-- 
2.43.0


From e6283d6aae1201ef36f68dbf15d18777654ee0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:41 +0000
Subject: [PATCH 15/40] fix: stackdriver propagation: require a trace ID of 32
 hex digits

---
 exporter/stackdriver/propagation/http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exporter/stackdriver/propagation/http.go b/exporter/stackdriver/propagation/http.go
index 7cc02a1..cc5e518 100644
--- a/exporter/stackdriver/propagation/http.go
+++ b/exporter/stackdriver/propagation/http.go
@@ -57,7 +57,7 @@ func (f *HTTPFormat) SpanContextFromRequest(req *http.Request) (sc trace.SpanCon
 	tid, h := h[:slash], h[slash+1:]
 
 	buf, err := hex.DecodeString(tid)
-	if err != nil {
+	if err != nil || len(buf) != len(sc.TraceID) {
 		return trace.SpanContext{}, false
 	}
 	copy(sc.TraceID[:], buf)
-- 
2.43.0


From 4d603bb24caa132d73c4b33730f98bc5e4ba304a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:41 +0000
Subject: [PATCH 16/40] fix: stackdriver propagation: reject options that do
 not fit 32 bits

---
 exporter/stackdriver/propagation/http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exporter/stackdriver/propagation/http.go b/exporter/stackdriver/propagation/http.go
index cc5e518..b1201ba 100644
--- a/exporter/stackdriver/propagation/http.go
+++ b/exporter/stackdriver/propagation/http.go
@@ -78,7 +78,7 @@ func (f *HTTPFormat) SpanContextFromRequest(req *http.Request) (sc trace.SpanCon
 	if !strings.HasPrefix(h, "o=") {
 		return sc, true
 	}
-	o, err := strconv.ParseUint(h[2:], 10, 64)
+	o, err := strconv.ParseUint(h[2:], 10, 32)
 	if err != nil {
 		return trace.SpanContext{}, false
 	}
-- 
2.43.0


From f8306b4c952206255b138cc43b1b315e883ec08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:00 +0000
Subject: [PATCH 17/40] fix: metric: do not write label values into the shared
 constant labels

---
 metric/common.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/metric/common.go b/metric/common.go
index 42acaae..920f96b 100644
--- a/metric/common.go
+++ b/metric/common.go
@@ -119,8 +119,14 @@ func (bm *baseMetric) decodeLabelVals(s string) []metricdata.LabelValue {
 	return vals
 }
 
+// allLabelVals returns a new slice of the constant label values followed by labelVals.
+func (bm *baseMetric) allLabelVals(labelVals []metricdata.LabelValue) []metricdata.LabelValue {
+	all := make([]metricdata.LabelValue, 0, len(bm.constLabelValues)+len(labelVals))
+	return append(append(all, bm.constLabelValues...), labelVals...)
+}
+
 func (bm *baseMetric) entryForValues(labelVals []metricdata.LabelValue, newEntry func() baseEntry) (interface{}, error) {
-	labelVals = append(bm.constLabelValues, labelVals...)
+	labelVals = bm.allLabelVals(labelVals)
 	if len(labelVals) != len(bm.keys) {
 		return nil, errKeyValueMismatch
 	}
@@ -133,7 +139,7 @@ func (bm *baseMetric) entryForValues(labelVals []metricdata.LabelValue, newEntry
 }
 
 func (bm *baseMetric) upsertEntry(labelVals []metricdata.LabelValue, newEntry func() baseEntry) error {
-	labelVals = append(bm.constLabelValues, labelVals...)
+	labelVals = bm.allLabelVals(labelVals)
 	if len(labelVals) != len(bm.keys) {
 		return errKeyValueMismatch
 	}
-- 
2.43.0


From 9b25cdc894cab2f2fb42a4fba1b28b41213e6fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:00 +0000
Subject: [PATCH 18/40] fix: metric: replace derived entries without removing
 them first

---
 metric/common.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/metric/common.go b/metric/common.go
index 920f96b..960c99c 100644
--- a/metric/common.go
+++ b/metric/common.go
@@ -144,7 +144,6 @@ func (bm *baseMetric) upsertEntry(labelVals []metricdata.LabelValue, newEntry fu
 		return errKeyValueMismatch
 	}
 	mapKey := bm.encodeLabelVals(labelVals)
-	bm.vals.Delete(mapKey)
 	bm.vals.Store(mapKey, newEntry())
 	return nil
 }
-- 
2.43.0


From 613bad39a28a35f8adb619a99948afbc2f81dea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:15 +0000
Subject: [PATCH 19/40] fix: metric: support label values of 255 and more bytes

---
 metric/common.go | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/metric/common.go b/metric/common.go
index 960c99c..d36e711 100644
--- a/metric/common.go
+++ b/metric/common.go
@@ -15,11 +15,10 @@
 package metric
 
 import (
+	"encoding/binary"
 	"sync"
 	"time"
 
-	"go.opencensus.io/internal/tagencoding"
-
 	"go.opencensus.io/metric/metricdata"
 )
 
@@ -93,28 +92,34 @@ func (bm *baseMetric) read() *metricdata.Metric {
 }
 
 func (bm *baseMetric) encodeLabelVals(labelVals []metricdata.LabelValue) string {
-	vb := &tagencoding.Values{}
+	var b []byte
+	var n [binary.MaxVarintLen64]byte
 	for _, v := range labelVals {
-		b := make([]byte, 1, len(v.Value)+1)
-		if v.Present {
-			b[0] = 1
-			b = append(b, []byte(v.Value)...)
+		if !v.Present {
+			b = append(b, 0)
+			continue
 		}
-		vb.WriteValue(b)
+		b = append(b, 1)
+		b = append(b, n[:binary.PutUvarint(n[:], uint64(len(v.Value)))]...)
+		b = append(b, v.Value...)
 	}
-	return string(vb.Bytes())
+	return string(b)
 }
 
 func (bm *baseMetric) decodeLabelVals(s string) []metricdata.LabelValue {
 	vals := make([]metricdata.LabelValue, 0, len(bm.keys))
-	vb := &tagencoding.Values{Buffer: []byte(s)}
+	b := []byte(s)
 	for range bm.keys {
-		v := vb.ReadValue()
-		if v[0] == 0 {
+		present := b[0] == 1
+		b = b[1:]
+		if !present {
 			vals = append(vals, metricdata.LabelValue{})
-		} else {
-			vals = append(vals, metricdata.NewLabelValue(string(v[1:])))
+			continue
 		}
+		length, n := binary.Uvarint(b)
+		b = b[n:]
+		vals = append(vals, metricdata.NewLabelValue(string(b[:length])))
+		b = b[length:]
 	}
 	return vals
 }
-- 
2.43.0


From 416c01e52f08cb48a8ec98c47df5e414a7f8fb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:15 +0000
Subject: [PATCH 20/40] fix: metric: check and add the name of a metric
 atomically

---
 metric/registry.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metric/registry.go b/metric/registry.go
index 6c58ff9..15212ad 100644
--- a/metric/registry.go
+++ b/metric/registry.go
@@ -26,6 +26,7 @@ import (
 // External synchronization is required if you want to add gauges and cumulative to the same
 // registry from multiple goroutines.
 type Registry struct {
+	addMu       sync.Mutex // makes checking and adding a metric's name atomic
 	baseMetrics sync.Map
 }
 
@@ -235,6 +236,8 @@ func createMetricOption(mos ...Options) *metricOptions {
 }
 
 func (r *Registry) initBaseMetric(bm *baseMetric, name string, mos ...Options) (*baseMetric, error) {
+	r.addMu.Lock()
+	defer r.addMu.Unlock()
 	val, ok := r.baseMetrics.Load(name)
 	if ok {
 		existing := val.(*baseMetric)
-- 
2.43.0


From 0efde25a7c3f0ebe913bb95a43034b96900a0646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:38 +0000
Subject: [PATCH 21/40] fix: runmetrics: fill in memory gauges when derived
 cumulatives are not used

---
 plugin/runmetrics/producer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plugin/runmetrics/producer.go b/plugin/runmetrics/producer.go
index d76bebe..944e1a7 100644
--- a/plugin/runmetrics/producer.go
+++ b/plugin/runmetrics/producer.go
@@ -165,6 +165,10 @@ func Disable() {
 
 // Read reads the current runtime metrics.
 func (p *producer) Read() []*metricdata.Metric {
+	if p.deprecatedMemStats != nil {
+		p.deprecatedMemStats.read()
+	}
+
 	if p.memStats != nil {
 		p.memStats.read()
 	}
-- 
2.43.0


From 04f8a7560f752c16beaed477cc57384b6570986e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:38 +0000
Subject: [PATCH 22/40] fix: runmetrics: make concurrent reads race free and
 consistent

---
 plugin/runmetrics/producer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plugin/runmetrics/producer.go b/plugin/runmetrics/producer.go
index 944e1a7..10b17e9 100644
--- a/plugin/runmetrics/producer.go
+++ b/plugin/runmetrics/producer.go
@@ -18,6 +18,7 @@ type (
 	producer struct {
 		options RunMetricOptions
 		reg     *metric.Registry
+		readMu  sync.Mutex // one Read at a time: the statistics below are shared
 
 		deprecatedMemStats *deprecatedMemStats
 		memStats           *memStats
@@ -165,6 +166,9 @@ func Disable() {
 
 // Read reads the current runtime metrics.
 func (p *producer) Read() []*metricdata.Metric {
+	p.readMu.Lock()
+	defer p.readMu.Unlock()
+
 	if p.deprecatedMemStats != nil {
 		p.deprecatedMemStats.read()
 	}
-- 
2.43.0


From 738d1161f84b64693fdb974a441a1fcc1497f1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:05 +0000
Subject: [PATCH 23/40] fix: resource: decode label values that contain quotes
 and commas

---
 resource/resource.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resource/resource.go b/resource/resource.go
index b1764e1..c9cfc6e 100644
--- a/resource/resource.go
+++ b/resource/resource.go
@@ -57,7 +57,7 @@ func EncodeLabels(labels map[string]string) string {
 	return s
 }
 
-var labelRegex = regexp.MustCompile(`^\s*([[:ascii:]]{1,256}?)=("[[:ascii:]]{0,256}?")\s*,`)
+var labelRegex = regexp.MustCompile(`^\s*([[:ascii:]]{1,256}?)=("(?:[\x00-!#-\[\]-\x7f]|\\[[:ascii:]]){0,256}")\s*,`)
 
 // DecodeLabels decodes a serialized label map as used in the OC_RESOURCE_LABELS variable.
 // A list of labels of the form `<key1>="<value1>",<key2>="<value2>",...` is accepted.
@@ -70,7 +70,7 @@ func DecodeLabels(s string) (map[string]string, error) {
 
 	for len(s) > 0 {
 		match := labelRegex.FindStringSubmatch(s)
-		if len(match) == 0 {
+		if len(match) == 0 || strings.Contains(match[1], `="`) {
 			return nil, fmt.Errorf("invalid label formatting, remainder: %s", s)
 		}
 		v := match[2]
-- 
2.43.0


From 017a1c51fb029faeed7e34f62489882d55b7a076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:05 +0000
Subject: [PATCH 24/40] fix: resource: decode the empty list of labels

---
 resource/resource.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/resource/resource.go b/resource/resource.go
index c9cfc6e..48902f7 100644
--- a/resource/resource.go
+++ b/resource/resource.go
@@ -65,8 +65,12 @@ var labelRegex = regexp.MustCompile(`^\s*([[:ascii:]]{1,256}?)=("(?:[\x00-!#-\[\
 // Most users will want to use FromEnv instead.
 func DecodeLabels(s string) (map[string]string, error) {
 	m := map[string]string{}
+	s = strings.TrimRight(strings.TrimSpace(s), ",")
+	if s == "" {
+		return m, nil
+	}
 	// Ensure a trailing comma, which allows us to keep the regex simpler
-	s = strings.TrimRight(strings.TrimSpace(s), ",") + ","
+	s += ","
 
 	for len(s) > 0 {
 		match := labelRegex.FindStringSubmatch(s)
-- 
2.43.0


From b5b437bdb643524589d2e3038a01808131f79b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:22 +0000
Subject: [PATCH 25/40] fix: ochttp client records 0, not -1, sent bytes for
 requests without body

---
 plugin/ochttp/client_stats.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/plugin/ochttp/client_stats.go b/plugin/ochttp/client_stats.go
index 17142aa..670da56 100644
--- a/plugin/ochttp/client_stats.go
+++ b/plugin/ochttp/client_stats.go
@@ -104,8 +104,13 @@ func (t *tracker) end() {
 		if t.respSize == 0 && t.respContentLength > 0 {
 			respSize = t.respContentLength
 		}
+		sentBytes := t.reqSize
+		if sentBytes < 0 {
+			// The request has no body.
+			sentBytes = 0
+		}
 		m := []stats.Measurement{
-			ClientSentBytes.M(t.reqSize),
+			ClientSentBytes.M(sentBytes),
 			ClientReceivedBytes.M(respSize),
 			ClientRoundtripLatency.M(latencyMs),
 			ClientLatency.M(latencyMs),
-- 
2.43.0


From dcad36d4a0498691c11c891ed5533ad6bff934ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:22 +0000
Subject: [PATCH 26/40] fix: ochttp client does not wrap a missing response
 body

---
 plugin/ochttp/trace.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plugin/ochttp/trace.go b/plugin/ochttp/trace.go
index ed3a5db..1591015 100644
--- a/plugin/ochttp/trace.go
+++ b/plugin/ochttp/trace.go
@@ -91,6 +91,11 @@ func (t *traceTransport) RoundTrip(req *http.Request) (*http.Response, error) {
 	span.AddAttributes(responseAttrs(resp)...)
 	span.SetStatus(TraceStatus(resp.StatusCode, resp.Status))
 
+	if resp.Body == nil {
+		span.End()
+		return resp, err
+	}
+
 	// span.End() will be invoked after
 	// a read from resp.Body returns io.EOF or when
 	// resp.Body.Close() is invoked.
-- 
2.43.0


From e0bcde9b7a272e40dcdb90e24df5541a386bba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:22 +0000
Subject: [PATCH 27/40] fix: ochttp client counts response bytes atomically,
 bodies are closed while being read

---
 plugin/ochttp/client_stats.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/plugin/ochttp/client_stats.go b/plugin/ochttp/client_stats.go
index 670da56..c8d152b 100644
--- a/plugin/ochttp/client_stats.go
+++ b/plugin/ochttp/client_stats.go
@@ -20,6 +20,7 @@ import (
 	"net/http"
 	"strconv"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"go.opencensus.io/stats"
@@ -85,8 +86,8 @@ func (t statsTransport) CancelRequest(req *http.Request) {
 }
 
 type tracker struct {
+	respSize          int64 // access atomically; first for 64-bit alignment
 	ctx               context.Context
-	respSize          int64
 	respContentLength int64
 	reqSize           int64
 	start             time.Time
@@ -100,8 +101,9 @@ var _ io.ReadCloser = (*tracker)(nil)
 func (t *tracker) end() {
 	t.endOnce.Do(func() {
 		latencyMs := float64(time.Since(t.start)) / float64(time.Millisecond)
-		respSize := t.respSize
-		if t.respSize == 0 && t.respContentLength > 0 {
+		bytesRead := atomic.LoadInt64(&t.respSize)
+		respSize := bytesRead
+		if bytesRead == 0 && t.respContentLength > 0 {
 			respSize = t.respContentLength
 		}
 		sentBytes := t.reqSize
@@ -114,7 +116,7 @@ func (t *tracker) end() {
 			ClientReceivedBytes.M(respSize),
 			ClientRoundtripLatency.M(latencyMs),
 			ClientLatency.M(latencyMs),
-			ClientResponseBytes.M(t.respSize),
+			ClientResponseBytes.M(bytesRead),
 		}
 		if t.reqSize >= 0 {
 			m = append(m, ClientRequestBytes.M(t.reqSize))
@@ -129,7 +131,7 @@ func (t *tracker) end() {
 
 func (t *tracker) Read(b []byte) (int, error) {
 	n, err := t.body.Read(b)
-	t.respSize += int64(n)
+	atomic.AddInt64(&t.respSize, int64(n))
 	switch err {
 	case nil:
 		return n, nil
-- 
2.43.0


From b6040bd7b13c7a9b94eeb30cbebbe7caa6b3ba7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:41 +0000
Subject: [PATCH 28/40] fix: ochttp server counts response bytes written
 through io.ReaderFrom

---
 plugin/ochttp/server.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/plugin/ochttp/server.go b/plugin/ochttp/server.go
index 946b22e..368e096 100644
--- a/plugin/ochttp/server.go
+++ b/plugin/ochttp/server.go
@@ -223,6 +223,21 @@ func (t *trackingResponseWriter) WriteHeader(statusCode int) {
 	t.statusLine = http.StatusText(t.statusCode)
 }
 
+// trackingReaderFrom accounts for response bytes that the original
+// ResponseWriter reads itself.
+type trackingReaderFrom struct {
+	t  *trackingResponseWriter
+	rf io.ReaderFrom
+}
+
+func (r *trackingReaderFrom) ReadFrom(src io.Reader) (int64, error) {
+	n, err := r.rf.ReadFrom(src)
+	r.t.respSize += n
+	span := trace.FromContext(r.t.ctx)
+	span.AddMessageSendEvent(0 /* TODO: messageID */, n, -1)
+	return n, err
+}
+
 // wrappedResponseWriter returns a wrapped version of the original
 //
 //	ResponseWriter and only implements the same combination of additional
@@ -237,6 +252,9 @@ func (t *trackingResponseWriter) wrappedResponseWriter() http.ResponseWriter {
 		fl, i3 = t.writer.(http.Flusher)
 		rf, i4 = t.writer.(io.ReaderFrom)
 	)
+	if i4 {
+		rf = &trackingReaderFrom{t, rf}
+	}
 
 	switch {
 	case !i0 && !i1 && !i2 && !i3 && !i4:
-- 
2.43.0


From d845ab10c17b0d70c6af9f4c74da1a5b1b69fb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:41 +0000
Subject: [PATCH 29/40] fix: ochttp server reports the status that was sent,
 not the last one asked for

---
 plugin/ochttp/server.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/plugin/ochttp/server.go b/plugin/ochttp/server.go
index 368e096..e1e5e2b 100644
--- a/plugin/ochttp/server.go
+++ b/plugin/ochttp/server.go
@@ -209,6 +209,7 @@ func (t *trackingResponseWriter) Header() http.Header {
 }
 
 func (t *trackingResponseWriter) Write(data []byte) (int, error) {
+	t.setStatus(http.StatusOK) // unless WriteHeader was called before
 	n, err := t.writer.Write(data)
 	t.respSize += int64(n)
 	// Add message event for request bytes sent.
@@ -219,6 +220,16 @@ func (t *trackingResponseWriter) Write(data []byte) (int, error) {
 
 func (t *trackingResponseWriter) WriteHeader(statusCode int) {
 	t.writer.WriteHeader(statusCode)
+	t.setStatus(statusCode)
+}
+
+// setStatus notes the status of the response. The first final status is the
+// one sent to the client: later ones are ignored by the underlying writer, and
+// informational ones (1xx, except 101) may precede it.
+func (t *trackingResponseWriter) setStatus(statusCode int) {
+	if t.statusCode != 0 || statusCode < 200 && statusCode != http.StatusSwitchingProtocols {
+		return
+	}
 	t.statusCode = statusCode
 	t.statusLine = http.StatusText(t.statusCode)
 }
@@ -231,6 +242,7 @@ type trackingReaderFrom struct {
 }
 
 func (r *trackingReaderFrom) ReadFrom(src io.Reader) (int64, error) {
+	r.t.setStatus(http.StatusOK) // unless WriteHeader was called before
 	n, err := r.rf.ReadFrom(src)
 	r.t.respSize += n
 	span := trace.FromContext(r.t.ctx)
@@ -238,6 +250,17 @@ func (r *trackingReaderFrom) ReadFrom(src io.Reader) (int64, error) {
 	return n, err
 }
 
+// trackingFlusher notes that flushing sends the response header.
+type trackingFlusher struct {
+	t  *trackingResponseWriter
+	fl http.Flusher
+}
+
+func (f *trackingFlusher) Flush() {
+	f.t.setStatus(http.StatusOK) // unless WriteHeader was called before
+	f.fl.Flush()
+}
+
 // wrappedResponseWriter returns a wrapped version of the original
 //
 //	ResponseWriter and only implements the same combination of additional
@@ -252,6 +275,9 @@ func (t *trackingResponseWriter) wrappedResponseWriter() http.ResponseWriter {
 		fl, i3 = t.writer.(http.Flusher)
 		rf, i4 = t.writer.(io.ReaderFrom)
 	)
+	if i3 {
+		fl = &trackingFlusher{t, fl}
+	}
 	if i4 {
 		rf = &trackingReaderFrom{t, rf}
 	}
-- 
2.43.0


From 6e31b14289a910f896941e938074f801cebf50e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:42 +0000
Subject: [PATCH 30/40] fix: ochttp records the route of WithRouteTag also if
 the handler panics

---
 plugin/ochttp/route.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/plugin/ochttp/route.go b/plugin/ochttp/route.go
index 5e6a343..4a50667 100644
--- a/plugin/ochttp/route.go
+++ b/plugin/ochttp/route.go
@@ -33,25 +33,27 @@ func SetRoute(ctx context.Context, route string) {
 // WithRouteTag returns an http.Handler that records stats with the
 // http_server_route tag set to the given value.
 func WithRouteTag(handler http.Handler, route string) http.Handler {
-	return taggedHandlerFunc(func(w http.ResponseWriter, r *http.Request) []tag.Mutator {
-		addRoute := []tag.Mutator{tag.Upsert(KeyServerRoute, route)}
-		ctx, _ := tag.New(r.Context(), addRoute...)
+	return taggedHandlerFunc(func(w http.ResponseWriter, r *http.Request, added func(...tag.Mutator)) {
+		addRoute := tag.Upsert(KeyServerRoute, route)
+		// The route is known and recorded also if the handler panics.
+		defer added(addRoute)
+		ctx, _ := tag.New(r.Context(), addRoute)
 		r = r.WithContext(ctx)
 		handler.ServeHTTP(w, r)
-		return addRoute
 	})
 }
 
-// taggedHandlerFunc is a http.Handler that returns tags describing the
+// taggedHandlerFunc is a http.Handler that adds tags describing the
 // processing of the request. These tags will be recorded along with the
 // measures in this package at the end of the request.
-type taggedHandlerFunc func(w http.ResponseWriter, r *http.Request) []tag.Mutator
+type taggedHandlerFunc func(w http.ResponseWriter, r *http.Request, added func(...tag.Mutator))
 
 func (h taggedHandlerFunc) ServeHTTP(w http.ResponseWriter, r *http.Request) {
-	tags := h(w, r)
-	if a, ok := r.Context().Value(addedTagsKey{}).(*addedTags); ok {
-		a.t = append(a.t, tags...)
-	}
+	h(w, r, func(tags ...tag.Mutator) {
+		if a, ok := r.Context().Value(addedTagsKey{}).(*addedTags); ok {
+			a.t = append(a.t, tags...)
+		}
+	})
 }
 
 type addedTagsKey struct{}
-- 
2.43.0


From 73e84e49d9d521f24e5a1cd2c55c93ca655ceae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 31/40] fix: ocgrpc does not panic on the start of an RPC it
 did not tag

---
 plugin/ocgrpc/stats_common.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plugin/ocgrpc/stats_common.go b/plugin/ocgrpc/stats_common.go
index 9cb2732..e4ecf71 100644
--- a/plugin/ocgrpc/stats_common.go
+++ b/plugin/ocgrpc/stats_common.go
@@ -103,6 +103,7 @@ func handleRPCBegin(ctx context.Context, s *stats.Begin) {
 		if grpclog.V(2) {
 			grpclog.Infoln("Failed to retrieve *rpcData from context.")
 		}
+		return
 	}
 
 	if s.IsClient() {
-- 
2.43.0


From 202dc005afad998224f4dd432e9792745cd3632b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 32/40] fix: ocgrpc tags an RPC that failed with an error
 without a status UNKNOWN

---
 plugin/ocgrpc/stats_common.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/plugin/ocgrpc/stats_common.go b/plugin/ocgrpc/stats_common.go
index e4ecf71..f741bdd 100644
--- a/plugin/ocgrpc/stats_common.go
+++ b/plugin/ocgrpc/stats_common.go
@@ -156,10 +156,9 @@ func handleRPCEnd(ctx context.Context, s *stats.End) {
 
 	var st string
 	if s.Error != nil {
-		s, ok := status.FromError(s.Error)
-		if ok {
-			st = statusCodeToString(s)
-		}
+		// An error that carries no status counts as UNKNOWN.
+		s, _ := status.FromError(s.Error)
+		st = statusCodeToString(s)
 	} else {
 		st = "OK"
 	}
-- 
2.43.0


From 4a298ec2547497d76734b9d6a91185b3d79b751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 33/40] fix: ocgrpc links the caller's span of a public
 endpoint as parent, not child

---
 plugin/ocgrpc/trace_common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugin/ocgrpc/trace_common.go b/plugin/ocgrpc/trace_common.go
index 61bc543..34d01e4 100644
--- a/plugin/ocgrpc/trace_common.go
+++ b/plugin/ocgrpc/trace_common.go
@@ -76,7 +76,7 @@ func (s *ServerHandler) traceTagRPC(ctx context.Context, rti *stats.RPCTagInfo)
 		trace.WithSpanKind(trace.SpanKindServer),
 		trace.WithSampler(s.StartOptions.Sampler))
 	if haveParent {
-		span.AddLink(trace.Link{TraceID: parent.TraceID, SpanID: parent.SpanID, Type: trace.LinkTypeChild})
+		span.AddLink(trace.Link{TraceID: parent.TraceID, SpanID: parent.SpanID, Type: trace.LinkTypeParent})
 	}
 	return ctx
 }
-- 
2.43.0


From 3c13a52eaf55ffa5ea6de55406a25c482e402818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 34/40] fix: tracez lists the spans of the buckets that its
 summary counts (last bound is 1m, not 100s)

---
 zpages/tracez.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/zpages/tracez.go b/zpages/tracez.go
index 330022c..c9238ee 100644
--- a/zpages/tracez.go
+++ b/zpages/tracez.go
@@ -52,7 +52,7 @@ var (
 		100 * time.Millisecond,
 		time.Second,
 		10 * time.Second,
-		100 * time.Second,
+		time.Minute,
 	}
 	canonicalCodes = [...]string{
 		"OK",
@@ -416,11 +416,7 @@ func getSummaryPageData() summaryPageData {
 		if len(data.Header) == 0 {
 			data.Header = []string{"Name", "Active"}
 			for _, b := range s.LatencyBuckets {
-				l := b.MinLatency
-				s := fmt.Sprintf(">%v", l)
-				if l == 100*time.Second {
-					s = ">100s"
-				}
+				s := fmt.Sprintf(">%v", b.MinLatency)
 				data.Header = append(data.Header, s)
 				data.LatencyBucketNames = append(data.LatencyBucketNames, s)
 			}
-- 
2.43.0


From 6b4328f3e56d8f3f70cf851650e100de00219786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 35/40] fix: tracez does not list a span whose latency equals a
 bucket's upper bound in that bucket

---
 zpages/tracez.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zpages/tracez.go b/zpages/tracez.go
index c9238ee..469300f 100644
--- a/zpages/tracez.go
+++ b/zpages/tracez.go
@@ -351,6 +351,9 @@ func traceSpans(spanName string, spanType, spanSubtype int) []*trace.SpanData {
 		} else if 0 < spanSubtype && spanSubtype < n {
 			min, max = defaultLatencies[spanSubtype-1], defaultLatencies[spanSubtype]
 		}
+		if 0 <= spanSubtype && spanSubtype < n {
+			max-- // the upper bound of a bucket is exclusive
+		}
 		spans = internalTrace.ReportSpansByLatency(spanName, min, max)
 	case 2: // error
 		spans = internalTrace.ReportSpansByError(spanName, 0)
-- 
2.43.0


From b1e6d90b91aebacb8712c92f9268ca3113259c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 36/40] fix: tracez lists only the spans with the requested
 error code

---
 zpages/tracez.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zpages/tracez.go b/zpages/tracez.go
index 469300f..b20bd89 100644
--- a/zpages/tracez.go
+++ b/zpages/tracez.go
@@ -356,7 +356,7 @@ func traceSpans(spanName string, spanType, spanSubtype int) []*trace.SpanData {
 		}
 		spans = internalTrace.ReportSpansByLatency(spanName, min, max)
 	case 2: // error
-		spans = internalTrace.ReportSpansByError(spanName, 0)
+		spans = internalTrace.ReportSpansByError(spanName, int32(spanSubtype))
 	}
 	return spans
 }
-- 
2.43.0


From cc5ff958b40422580667bf5ce603cf8f8dc1b324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 37/40] fix: rpcz shows the input rate of received RPCs

---
 zpages/rpcz.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zpages/rpcz.go b/zpages/rpcz.go
index ef4dd15..c899171 100644
--- a/zpages/rpcz.go
+++ b/zpages/rpcz.go
@@ -304,6 +304,9 @@ func (s snapExporter) ExportView(vd *view.Data) {
 		case ocgrpc.ServerSentBytesPerRPCView:
 			s.OutputRateTotal = computeRate(0, sum)
 
+		case ocgrpc.ServerReceivedBytesPerRPCView:
+			s.InputRateTotal = computeRate(0, sum)
+
 		case ocgrpc.ServerReceivedMessagesPerRPCView:
 			s.CountTotal = uint64(count)
 			s.RPCRateTotal = computeRate(0, count)
-- 
2.43.0


From d39b407e087d817aa80e0d8cf48bcd33d0c8d068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 38/40] fix: headings of the rpcz text page match its columns
 and units

---
 zpages/rpcz.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zpages/rpcz.go b/zpages/rpcz.go
index c899171..8c10538 100644
--- a/zpages/rpcz.go
+++ b/zpages/rpcz.go
@@ -108,8 +108,8 @@ func WriteTextRpczPage(w io.Writer) {
 			fmt.Fprint(w, "\nReceived:\n")
 		}
 		tw := tabwriter.NewWriter(w, 6, 8, 1, ' ', 0)
-		fmt.Fprint(tw, "Method\tCount\t\t\tAvgLat\t\t\tMaxLat\t\t\tRate\t\t\tIn (MiB/s)\t\t\tOut (MiB/s)\t\t\tErrors\t\t\n")
-		fmt.Fprint(tw, "\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\n")
+		fmt.Fprint(tw, "Method\tCount\t\t\tAvgLat\t\t\tRate\t\t\tIn (KiB/s)\t\t\tOut (KiB/s)\t\t\tErrors\t\t\n")
+		fmt.Fprint(tw, "\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\tMin\tHr\tTot\n")
 		for _, s := range sg.Snapshots {
 			fmt.Fprintf(tw, "%s\t%d\t%d\t%d\t%v\t%v\t%v\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%.2f\t%d\t%d\t%d\n",
 				s.Method,
-- 
2.43.0


From c4aebcc85afcd807513d2924737905eb55230319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 39/40] fix: zpages serves its public files

---
 zpages/zpages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zpages/zpages.go b/zpages/zpages.go
index 7ee2c2e..5a060f1 100644
--- a/zpages/zpages.go
+++ b/zpages/zpages.go
@@ -57,7 +57,7 @@ func Handle(mux *http.ServeMux, pathPrefix string) {
 	}
 	mux.HandleFunc(path.Join(pathPrefix, "rpcz"), rpczHandler)
 	mux.HandleFunc(path.Join(pathPrefix, "tracez"), tracezHandler)
-	mux.Handle(path.Join(pathPrefix, "public/"), http.FileServer(fs))
+	mux.Handle(path.Join(pathPrefix, "public")+"/", http.StripPrefix(pathPrefix, http.FileServer(fs)))
 }
 
 var enableOnce sync.Once
-- 
2.43.0


From fdb3972a045cee72ef1e821f84ec7a1603fffade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 40/40] fix: tracez keeps events with equal times in the order
 they were recorded

---
 zpages/tracez.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zpages/tracez.go b/zpages/tracez.go
index b20bd89..56305fe 100644
--- a/zpages/tracez.go
+++ b/zpages/tracez.go
@@ -298,7 +298,7 @@ func traceRows(s *trace.SpanData) []traceRow {
 	for i := range s.MessageEvents {
 		es = append(es, &s.MessageEvents[i])
 	}
-	sort.Sort(es)
+	sort.Stable(es)
 	for _, e := range es {
 		switch e := e.(type) {
 		case *trace.Annotation:
-- 
2.43.0

