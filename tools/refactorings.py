#!/usr/bin/env python3
"""refactorings.py [id...]: applies edits that keep the behaviour, one at a time, to a copy of /repo and runs the checks
anchored to the edited files (tools/mutants.py MAP); every check must stay quiet. Prints one line per refactoring."""
import sys, os, json, subprocess, shutil, tempfile, threading, queue
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import mutants

R = {}
def r(id, *edits): R[id] = edits

W, WC, VV, COL = "stats/view/worker.go", "stats/view/worker_commands.go", "stats/view/view.go", "stats/view/collector.go"
T, SS, EXP, CFG = "trace/trace.go", "trace/spanstore.go", "trace/export.go", "trace/config.go"

r("worker-answers-buffered", (W, "c:    make(chan *getViewByNameResp),", "c:    make(chan *getViewByNameResp, 1),"),
  (W, "err:   make(chan error),", "err:   make(chan error, 1),"), (W, "c:   make(chan *retrieveDataResp),", "c:   make(chan *retrieveDataResp, 1),"),
  (W, "done:  make(chan struct{}),", "done:  make(chan struct{}, 1),"))
r("worker-answer-closes", (WC, "	cmd.done <- struct{}{}\n", "	close(cmd.done)\n"))
r("worker-retrieve-outside-lock", (WC, '''	w.mu.Lock()
	defer w.mu.Unlock()
	vi, ok := w.views[cmd.v]
	if !ok {
		cmd.c <- &retrieveDataResp{
			nil,
			fmt.Errorf("cannot retrieve data; view %q is not registered", cmd.v),
		}
		return
	}

	if !vi.isSubscribed() {
		cmd.c <- &retrieveDataResp{
			nil,
			fmt.Errorf("cannot retrieve data; view %q has no subscriptions or collection is not forcibly started", cmd.v),
		}
		return
	}
	cmd.c <- &retrieveDataResp{
		vi.collectedRows(),
		nil,
	}
}
''', '''	resp := cmd.retrieve(w)
	cmd.c <- resp
}

func (cmd *retrieveDataReq) retrieve(w *worker) *retrieveDataResp {
	w.mu.Lock()
	defer w.mu.Unlock()
	vi, ok := w.views[cmd.v]
	switch {
	case !ok:
		return &retrieveDataResp{err: fmt.Errorf("cannot retrieve data; view %q is not registered", cmd.v)}
	case !vi.isSubscribed():
		return &retrieveDataResp{err: fmt.Errorf("cannot retrieve data; view %q has no subscriptions or collection is not forcibly started", cmd.v)}
	}
	return &retrieveDataResp{rows: vi.collectedRows()}
}
'''))
r("worker-record-explicit-unlock", (WC, '''	w.mu.Lock()
	defer w.mu.Unlock()
	for _, m := range cmd.ms {
		if (m == stats.Measurement{}) { // not registered
			continue
		}
		ref := w.getMeasureRef(m.Measure().Name())
		for v := range ref.views {
			v.addSample(cmd.tm, m.Value(), cmd.attachments, cmd.t)
		}
	}
''', '''	w.mu.Lock()
	for i := 0; i < len(cmd.ms); i++ {
		if m := cmd.ms[i]; m != (stats.Measurement{}) {
			name, value := m.Measure().Name(), m.Value()
			for v := range w.getMeasureRef(name).views {
				v.addSample(cmd.tm, value, cmd.attachments, cmd.t)
			}
		}
	}
	w.mu.Unlock()
'''))
r("worker-report-two-passes", (W, '''	for _, v := range w.views {
		w.reportView(v)
	}
''', '''	due := make([]*viewInternal, 0, len(w.views))
	for _, v := range w.views {
		due = append(due, v)
	}
	for _, v := range due {
		w.reportView(v)
	}
'''), (W, '''	w.exportersMu.Lock()
	defer w.exportersMu.Unlock()
	for e := range w.exporters {
		e.ExportView(viewData)
	}
''', '''	w.exportersMu.Lock()
	for e := range w.exporters {
		e.ExportView(viewData)
	}
	w.exportersMu.Unlock()
'''))
r("worker-unregister-order", (W, '''	if !v.isSubscribed() {
		// this was the last subscription and view is not collecting anymore.
		// The collected data can be cleared.
		v.clearRows()
	}
	delete(w.views, v.view.Name)
	delete(w.viewStartTimes, v)
	if measure := w.measures[v.view.Measure.Name()]; measure != nil {
		delete(measure.views, v)
	}
''', '''	if measure, ok := w.measures[v.view.Measure.Name()]; ok {
		delete(measure.views, v)
	}
	delete(w.viewStartTimes, v)
	delete(w.views, v.view.Name)
	if v.isSubscribed() {
		return
	}
	v.clearRows()
'''))
r("worker-quit-flag", (W, "	w.quitOnce.Do(func() { close(w.quit) })\n	<-w.done\n", "	w.quitOnce.Do(w.closeQuit)\n	select {\n	case <-w.done:\n	}\n"),
  (W, "func (w *worker) getMeasureRef(", "func (w *worker) closeQuit() { close(w.quit) }\n\nfunc (w *worker) getMeasureRef("))
r("worker-read-helper", (W, '''	now := time.Now()
	metrics := make([]*metricdata.Metric, 0, len(w.views))
	for _, v := range w.views {
		metric := w.toMetric(v, now)
		if metric != nil {
			metrics = append(metrics, metric)
		}
	}
	return metrics
''', '''	metrics := []*metricdata.Metric{}
	add := func(m *metricdata.Metric) {
		if m == nil {
			return
		}
		metrics = append(metrics, m)
	}
	now := time.Now()
	for name := range w.views {
		add(w.toMetric(w.views[name], now))
	}
	return metrics
'''))
r("collector-lookup", (COL, '''	aggregator, ok := c.signatures[s]
	if !ok {
		aggregator = c.a.newData(t)
		c.signatures[s] = aggregator
	}
	aggregator.addSample(v, attachments, t)
''', '''	if _, ok := c.signatures[s]; !ok {
		c.signatures[s] = c.a.newData(t)
	}
	c.signatures[s].addSample(v, attachments, t)
'''), (COL, '''	reqLen := 0
	for _, k := range keys {
		s, _ := m.Value(k)
		// We will store each key + its length
		reqLen += len(s) + 1
	}
	vb := &tagencoding.Values{
		Buffer: make([]byte, reqLen),
	}
	for _, k := range keys {
		v, _ := m.Value(k)
		vb.WriteValue([]byte(v))
	}
''', '''	vals := make([]string, len(keys))
	reqLen := len(keys)
	for i := range keys {
		vals[i], _ = m.Value(keys[i])
		reqLen += len(vals[i])
	}
	vb := &tagencoding.Values{Buffer: make([]byte, reqLen)}
	for _, v := range vals {
		vb.WriteValue([]byte(v))
	}
'''))
r("span-data-deferred-unlock", (T, '''	var sd SpanData
	s.mu.Lock()
	sd = *s.data
''', '''	s.mu.Lock()
	defer s.mu.Unlock()
	sd := *s.data
'''), (T, '''		sd.DroppedLinkCount = s.links.droppedCount
	}
	s.mu.Unlock()
	return &sd
''', '''		sd.DroppedLinkCount = s.links.droppedCount
	}
	return &sd
'''))
r("span-end-helper", (T, '''		exp, _ := exporters.Load().(exportersMap)
		mustExport := s.spanContext.IsSampled() && len(exp) > 0
		if s.spanStore != nil || mustExport {
			sd := s.makeSpanData()
			sd.EndTime = internal.MonotonicEndTime(sd.StartTime)
			if s.spanStore != nil {
				s.spanStore.finished(s, sd)
			}
			if mustExport {
				for e := range exp {
					e.ExportSpan(sd)
				}
			}
		}
	})
}
''', '''		s.finish()
	})
}

func (s *span) finish() {
	var exp exportersMap
	if s.spanContext.IsSampled() {
		exp, _ = exporters.Load().(exportersMap)
	}
	if s.spanStore == nil && len(exp) == 0 {
		return
	}
	sd := s.makeSpanData()
	sd.EndTime = internal.MonotonicEndTime(sd.StartTime)
	if st := s.spanStore; st != nil {
		st.finished(s, sd)
	}
	for e := range exp {
		e.ExportSpan(sd)
	}
}
'''))
r("span-events-under-lock", (T, '''	now := time.Now()
	s.mu.Lock()
	s.messageEvents.add(MessageEvent{
		Time:                 now,
		EventType:            MessageEventTypeSent,
		MessageID:            messageID,
		UncompressedByteSize: uncompressedByteSize,
		CompressedByteSize:   compressedByteSize,
	})
	s.mu.Unlock()
}
''', '''	s.messageEvent(MessageEventTypeSent, messageID, uncompressedByteSize, compressedByteSize)
}

func (s *span) messageEvent(typ MessageEventType, id, raw, wire int64) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.messageEvents.add(MessageEvent{Time: time.Now(), EventType: typ, MessageID: id, UncompressedByteSize: raw, CompressedByteSize: wire})
}
'''), (T, '''	now := time.Now()
	s.mu.Lock()
	s.messageEvents.add(MessageEvent{
		Time:                 now,
		EventType:            MessageEventTypeRecv,
		MessageID:            messageID,
		UncompressedByteSize: uncompressedByteSize,
		CompressedByteSize:   compressedByteSize,
	})
	s.mu.Unlock()
''', '''	s.messageEvent(MessageEventTypeRecv, messageID, uncompressedByteSize, compressedByteSize)
'''), (T, '''	now := time.Now()
	var am map[string]interface{}
	if len(attributes) != 0 {
		am = make(map[string]interface{}, len(attributes))
		for _, attr := range attributes {
			am[attr.key] = attr.value
		}
	}
	s.mu.Lock()
''', '''	var am map[string]interface{}
	for i, attr := range attributes {
		if i == 0 {
			am = map[string]interface{}{}
		}
		am[attr.key] = attr.value
	}
	s.mu.Lock()
	now := time.Now()
'''))
r("start-span-reordered", (T, '''	s := &span{}
	s.spanContext = parent

	cfg := config.Load().(*Config)
''', '''	cfg := config.Load().(*Config)
	s := &span{spanContext: parent}
'''), (T, '''	if !hasParent {
		s.spanContext.TraceID = cfg.IDGenerator.NewTraceID()
	}
	s.spanContext.SpanID = cfg.IDGenerator.NewSpanID()
	sampler := cfg.DefaultSampler

	if !hasParent || remoteParent || o.Sampler != nil {
''', '''	s.spanContext.SpanID = cfg.IDGenerator.NewSpanID()
	if !hasParent {
		s.spanContext.TraceID = cfg.IDGenerator.NewTraceID()
	}
	sampler := cfg.DefaultSampler

	if o.Sampler != nil || remoteParent || !hasParent {
'''), (T, '''	s.lruAttributes = newLruMap(cfg.MaxAttributesPerSpan)
	s.annotations = newEvictedQueue(cfg.MaxAnnotationEventsPerSpan)
	s.messageEvents = newEvictedQueue(cfg.MaxMessageEventsPerSpan)
	s.links = newEvictedQueue(cfg.MaxLinksPerSpan)

	if hasParent {
		s.data.ParentSpanID = parent.SpanID
	}
''', '''	if hasParent {
		s.data.ParentSpanID = parent.SpanID
	}
	s.links = newEvictedQueue(cfg.MaxLinksPerSpan)
	s.messageEvents = newEvictedQueue(cfg.MaxMessageEventsPerSpan)
	s.annotations = newEvictedQueue(cfg.MaxAnnotationEventsPerSpan)
	s.lruAttributes = newLruMap(cfg.MaxAttributesPerSpan)
'''))
r("exporters-rwmutex", (EXP, "	exporterMu sync.Mutex\n	exporters  atomic.Value\n", "	exporterMu sync.RWMutex\n	exporters  exporterBox\n"),
  (EXP, "type exportersMap map[Exporter]struct{}\n", '''type exportersMap map[Exporter]struct{}

// exporterBox holds an immutable set of exporters.
type exporterBox struct {
	mu sync.RWMutex
	m  interface{}
}

func (b *exporterBox) Load() interface{} {
	b.mu.RLock()
	defer b.mu.RUnlock()
	return b.m
}

func (b *exporterBox) Store(m interface{}) {
	b.mu.Lock()
	b.m = m
	b.mu.Unlock()
}
'''), (EXP, '	"sync/atomic"\n', ''))
r("exporters-one-helper", (EXP, '''	exporterMu.Lock()
	new := make(exportersMap)
	if old, ok := exporters.Load().(exportersMap); ok {
		for k, v := range old {
			new[k] = v
		}
	}
	new[e] = struct{}{}
	exporters.Store(new)
	exporterMu.Unlock()
}
''', '''	changeExporters(func(m exportersMap) { m[e] = struct{}{} })
}

func changeExporters(f func(exportersMap)) {
	exporterMu.Lock()
	defer exporterMu.Unlock()
	new := exportersMap{}
	old, _ := exporters.Load().(exportersMap)
	for k := range old {
		new[k] = struct{}{}
	}
	f(new)
	exporters.Store(new)
}
'''), (EXP, '''	exporterMu.Lock()
	new := make(exportersMap)
	if old, ok := exporters.Load().(exportersMap); ok {
		for k, v := range old {
			new[k] = v
		}
	}
	delete(new, e)
	exporters.Store(new)
	exporterMu.Unlock()
''', '''	changeExporters(func(m exportersMap) { delete(m, e) })
'''))
r("spanstore-active-outside-lock", (SS, '''	var out []*SpanData
	s.mu.Lock()
	defer s.mu.Unlock()
	for activeSpan := range s.active {
		if s, ok := activeSpan.(*span); ok {
			out = append(out, s.makeSpanData())
		}
	}
	return out
''', '''	s.mu.Lock()
	spans := make([]*span, 0, len(s.active))
	for a := range s.active {
		if sp, ok := a.(*span); ok {
			spans = append(spans, sp)
		}
	}
	s.mu.Unlock()
	var out []*SpanData
	for _, sp := range spans {
		out = append(out, sp.makeSpanData())
	}
	return out
'''))
r("spanstore-summary-helper", (SS, '''	out := make(map[string]internal.PerMethodSummary)
	ssmu.RLock()
	defer ssmu.RUnlock()
	for name, s := range spanStores {
		s.mu.Lock()
''', '''	ssmu.RLock()
	stores := make(map[string]*spanStore, len(spanStores))
	for name, s := range spanStores {
		stores[name] = s
	}
	ssmu.RUnlock()
	out := make(map[string]internal.PerMethodSummary, len(stores))
	for name, s := range stores {
		s.mu.Lock()
'''))
r("spanstore-always-locks", (SS, '''	ssmu.RLock()
	s, ok := spanStores[name]
	ssmu.RUnlock()
	if ok {
		return s
	}
	ssmu.Lock()
	defer ssmu.Unlock()
	s, ok = spanStores[name]
	if ok {
		return s
	}
	s = newSpanStore(name, defaultBucketSize, defaultBucketSize)
	spanStores[name] = s
	return s
''', '''	ssmu.Lock()
	defer ssmu.Unlock()
	if s := spanStores[name]; s != nil {
		return s
	}
	s := newSpanStore(name, defaultBucketSize, defaultBucketSize)
	spanStores[name] = s
	return s
'''), (SS, '''	s.mu.Lock()
	delete(s.active, span)
	if code == 0 {
		s.latency[latencyBucket(latency)].add(sd)
	} else {
		if s.errors == nil {
			s.errors = make(map[int32]*bucket)
		}
		if b := s.errors[code]; b != nil {
			b.add(sd)
		} else {
			b := makeBucket(s.maxSpansPerErrorBucket)
			s.errors[code] = &b
			b.add(sd)
		}
	}
	s.mu.Unlock()
''', '''	s.mu.Lock()
	defer s.mu.Unlock()
	defer delete(s.active, span)
	if code == 0 {
		i := latencyBucket(latency)
		s.latency[i].add(sd)
		return
	}
	if s.errors == nil {
		s.errors = map[int32]*bucket{}
	}
	b, ok := s.errors[code]
	if !ok {
		nb := makeBucket(s.maxSpansPerErrorBucket)
		b = &nb
		s.errors[code] = b
	}
	b.add(sd)
'''))
r("config-mutex", (CFG, "	configWriteMu.Lock()\n	defer configWriteMu.Unlock()\n	c := *config.Load().(*Config)\n", "	configWriteMu.Lock()\n	defer configWriteMu.Unlock()\n	old := config.Load().(*Config)\n	c := Config{}\n	c = *old\n"),
  (CFG, '''	if cfg.MaxAttributesPerSpan > 0 {
		c.MaxAttributesPerSpan = cfg.MaxAttributesPerSpan
	}
	if cfg.MaxLinksPerSpan > 0 {
		c.MaxLinksPerSpan = cfg.MaxLinksPerSpan
	}
''', '''	override := func(dst *int, v int) {
		if v > 0 {
			*dst = v
		}
	}
	override(&c.MaxLinksPerSpan, cfg.MaxLinksPerSpan)
	override(&c.MaxAttributesPerSpan, cfg.MaxAttributesPerSpan)
'''))
r("id-generator-mutex", (T, "		id = atomic.AddUint64(&gen.nextSpanID, gen.spanIDInc)\n", "		for {\n			old := atomic.LoadUint64(&gen.nextSpanID)\n			id = old + gen.spanIDInc\n			if atomic.CompareAndSwapUint64(&gen.nextSpanID, old, id) {\n				break\n			}\n		}\n"))
r("queue-copies", ("trace/evictedqueue.go", '''	if len(eq.queue) == eq.capacity {
		eq.queue = eq.queue[1:]
		eq.droppedCount++
	}
	eq.queue = append(eq.queue, value)
''', '''	if len(eq.queue) < eq.capacity {
		eq.queue = append(eq.queue, value)
		return
	}
	kept := append([]interface{}(nil), eq.queue[1:]...)
	eq.queue = append(kept, value)
	eq.droppedCount++
'''))
r("gauge-add-loop", ("metric/gauge.go", '''	var swapped bool
	for !swapped {
		oldVal := atomic.LoadUint64(&e.val)
		newVal := math.Float64bits(math.Float64frombits(oldVal) + val)
		swapped = atomic.CompareAndSwapUint64(&e.val, oldVal, newVal)
	}
''', '''	for {
		old := atomic.LoadUint64(&e.val)
		if atomic.CompareAndSwapUint64(&e.val, old, math.Float64bits(math.Float64frombits(old)+val)) {
			return
		}
	}
'''))
r("manager-read-lock", ("metric/metricproducer/manager.go", '''	pm.mu.Lock()
	defer pm.mu.Unlock()
	producers := make([]Producer, len(pm.producers))
	i := 0
	for producer := range pm.producers {
		producers[i] = producer
		i++
	}
	return producers
''', '''	pm.mu.RLock()
	defer pm.mu.RUnlock()
	producers := make([]Producer, 0, len(pm.producers))
	for producer := range pm.producers {
		producers = append(producers, producer)
	}
	return producers
'''))
r("interval-reader-closes-quit", ("metric/metricexport/reader.go", '''			ir.timer.Stop()
			ir.done <- true
			return
''', '''			ir.timer.Stop()
			close(ir.done)
			return
'''), ("metric/metricexport/reader.go", '''	ir.quit <- true
	<-ir.done
	close(ir.quit)
	close(ir.done)
	ir.quit = nil
''', '''	close(ir.quit)
	<-ir.done
	ir.quit = nil
'''))
r("tag-mutators-helper", ("tag/map.go", '''func (m *Map) update(k Key, v string, md metadatas) {
	if _, ok := m.m[k]; ok {
		m.m[k] = tagContent{value: v, m: md}
	}
}
''', '''func (m *Map) has(k Key) bool {
	_, ok := m.m[k]
	return ok
}

func (m *Map) update(k Key, v string, md metadatas) {
	if !m.has(k) {
		return
	}
	m.upsert(k, v, md)
}
'''), ("tag/map.go", '''			m.insert(k, v.value, v.m)
		}
	}
	var err error
	for _, mod := range mutator {
		m, err = mod.Mutate(m)
		if err != nil {
			return ctx, err
		}
	}
	return NewContext(ctx, m), nil
''', '''			m.m[k] = v
		}
	}
	for i := 0; i < len(mutator); i++ {
		next, err := mutator[i].Mutate(m)
		if err != nil {
			return ctx, err
		}
		m = next
	}
	return NewContext(ctx, m), nil
'''))
r("tag-codec-buffer", ("tag/map_codec.go", '''		tmp := make([]byte, 2*(len(eg.buf)+1)+expected)
		copy(tmp, eg.buf)
		eg.buf = tmp
''', '''		eg.buf = append(eg.buf, make([]byte, len(eg.buf)+2+expected)...)
'''), ("tag/map_codec.go", '''		k, err := eg.readBytesWithVarintLen()
		if err != nil {
			return err
		}

		v, err := eg.readBytesWithVarintLen()
		if err != nil {
			return err
		}

		key, err := NewKey(string(k))
		if err != nil {
			return err
		}
		val := string(v)
''', '''		k, err := eg.readStringWithVarintLen()
		if err != nil {
			return err
		}
		val, err := eg.readStringWithVarintLen()
		if err != nil {
			return err
		}
		key, err := NewKey(k)
		if err != nil {
			return err
		}
'''))
r("runmetrics-swap-order", ("plugin/runmetrics/producer.go", '''	metricproducer.GlobalManager().DeleteProducer(enabledProducer)
	metricproducer.GlobalManager().AddProducer(producer)
	enabledProducer = producer

	return nil
''', '''	mgr := metricproducer.GlobalManager()
	old := enabledProducer
	enabledProducer = producer
	mgr.DeleteProducer(old)
	mgr.AddProducer(producer)
	return nil
'''), ("plugin/runmetrics/producer.go", '''	if p.deprecatedMemStats != nil {
		p.deprecatedMemStats.read()
	}

	if p.memStats != nil {
		p.memStats.read()
	}

	if p.cpuStats != nil {
		p.cpuStats.read()
	}
''', '''	if p.cpuStats != nil {
		p.cpuStats.read()
	}
	if p.memStats != nil {
		p.memStats.read()
	}
	if p.deprecatedMemStats != nil {
		p.deprecatedMemStats.read()
	}
'''))
r("client-stats-helper", ("plugin/ochttp/client_stats.go", '''	if err != nil {
		track.statusCode = http.StatusInternalServerError
		track.end()
	} else {
		track.statusCode = resp.StatusCode
		if req.Method != "HEAD" {
			track.respContentLength = resp.ContentLength
		}
		if resp.Body == nil {
			track.end()
		} else {
			track.body = resp.Body
			resp.Body = wrappedBody(track, resp.Body)
		}
	}
	return resp, err
}
''', '''	if err != nil {
		track.statusCode = http.StatusInternalServerError
		track.end()
		return resp, err
	}
	track.follow(req, resp)
	return resp, nil
}

func (t *tracker) follow(req *http.Request, resp *http.Response) {
	t.statusCode = resp.StatusCode
	if req.Method != http.MethodHead {
		t.respContentLength = resp.ContentLength
	}
	if resp.Body == nil {
		t.end()
		return
	}
	t.body = resp.Body
	resp.Body = wrappedBody(t, resp.Body)
}
'''), ("plugin/ochttp/client_stats.go", '''		m := []stats.Measurement{
			ClientSentBytes.M(sentBytes),
			ClientReceivedBytes.M(respSize),
			ClientRoundtripLatency.M(latencyMs),
			ClientLatency.M(latencyMs),
			ClientResponseBytes.M(bytesRead),
		}
		if t.reqSize >= 0 {
''', '''		m := make([]stats.Measurement, 0, 6)
		m = append(m, ClientResponseBytes.M(bytesRead), ClientLatency.M(latencyMs), ClientRoundtripLatency.M(latencyMs))
		m = append(m, ClientReceivedBytes.M(respSize), ClientSentBytes.M(sentBytes))
		if t.reqSize >= 0 {
'''))
r("client-trace-reordered", ("plugin/ochttp/trace.go", '''	if t.format != nil {
		// SpanContextToRequest will modify its Request argument, which is
		// contrary to the contract for http.RoundTripper, so we need to
		// pass it a copy of the Request.
		// However, the Request struct itself was already copied by
		// the WithContext calls above and so we just need to copy the header.
		header := make(http.Header)
		for k, v := range req.Header {
			header[k] = v
		}
		req.Header = header
		t.format.SpanContextToRequest(span.SpanContext(), req)
	}

	span.AddAttributes(requestAttrs(req)...)
''', '''	span.AddAttributes(requestAttrs(req)...)

	if f := t.format; f != nil {
		header := make(http.Header, len(req.Header)+3)
		for k := range req.Header {
			header[k] = append([]string(nil), req.Header[k]...)
		}
		req.Header = header
		f.SpanContextToRequest(span.SpanContext(), req)
	}
'''), ("plugin/ochttp/trace.go", '''	span.AddAttributes(responseAttrs(resp)...)
	span.SetStatus(TraceStatus(resp.StatusCode, resp.Status))

	if resp.Body == nil {
''', '''	status := TraceStatus(resp.StatusCode, resp.Status)
	span.SetStatus(status)
	for _, a := range responseAttrs(resp) {
		span.AddAttributes(a)
	}

	if resp.Body == nil {
'''))

r("worker-ticker-reset", (WC, """	w.timer.Stop()
	if cmd.d <= 0 {
		w.timer = time.NewTicker(defaultReportingDuration)
	} else {
		w.timer = time.NewTicker(cmd.d)
	}
""", """	d := cmd.d
	if d <= 0 {
		d = defaultReportingDuration
	}
	w.timer.Reset(d)
"""))
r("interval-reader-ticker-kept", ("metric/metricexport/reader.go", "	ir.timer = time.NewTicker(reportingInterval)\n", """	if ir.timer == nil {
		ir.timer = time.NewTicker(reportingInterval)
	} else {
		ir.timer.Reset(reportingInterval)
	}
"""))
r("interval-reader-timer", ("metric/metricexport/reader.go", """		case <-ir.timer.C:
			ir.reader.ReadAndExport(ir.exporter)
		case <-ir.quit:
			ir.timer.Stop()
			ir.done <- true
			return
""", """		case <-ir.quit:
			ir.timer.Stop()
			ir.done <- true
			return
		case now, ok := <-ir.timer.C:
			if ok && !now.IsZero() {
				ir.reader.ReadAndExport(ir.exporter)
			}
"""))
r("distribution-bucket-search", ("stats/view/aggregation_data.go", """	var count *int64
	var i int
	var b float64
	for i, b = range a.bounds {
		if v < b {
			count = &a.CountPerBucket[i]
			break
		}
	}
	if count == nil { // Last bucket.
		i = len(a.bounds)
		count = &a.CountPerBucket[i]
	}
	*count++
""", """	i := sort.Search(len(a.bounds), func(j int) bool { return v < a.bounds[j] })
	a.CountPerBucket[i]++
"""), ("stats/view/aggregation_data.go", '	"math"\n', '	"math"\n	"sort"\n'))
r("distribution-delta", ("stats/view/aggregation_data.go", """	if a.Count == 1 {
		a.Mean = v
		return
	}

	oldMean := a.Mean
	a.Mean = a.Mean + (v-a.Mean)/float64(a.Count)
	a.SumOfSquaredDev = a.SumOfSquaredDev + (v-oldMean)*(v-a.Mean)
""", """	switch delta := v - a.Mean; a.Count {
	case 1:
		a.Mean = v
	default:
		a.Mean += delta / float64(a.Count)
		a.SumOfSquaredDev += delta * (v - a.Mean)
	}
"""))
r("collector-encode-append", (COL, """	vb := &tagencoding.Values{
		Buffer: make([]byte, reqLen),
	}
	for _, k := range keys {
		v, _ := m.Value(k)
		vb.WriteValue([]byte(v))
	}
	return vb.Bytes()
""", """	buf := make([]byte, 0, reqLen)
	for i := 0; i < len(keys); i++ {
		v, ok := m.Value(keys[i])
		if !ok {
			v = ""
		}
		buf = append(append(buf, byte(len(v))), v...)
	}
	vb := &tagencoding.Values{Buffer: buf, WriteIndex: len(buf)}
	return vb.Bytes()
"""))
r("view-metric-loops", ("stats/view/view_to_metric.go", """	labelValues := []metricdata.LabelValue{}
	tagMap := make(map[string]string)
	for _, tag := range row.Tags {
		tagMap[tag.Key.Name()] = tag.Value
	}

	for _, key := range expectedKeys {
		if val, ok := tagMap[key.Key]; ok {
			labelValues = append(labelValues, metricdata.NewLabelValue(val))
		} else {
			labelValues = append(labelValues, metricdata.LabelValue{})
		}
	}
	return labelValues
""", """	labelValues := make([]metricdata.LabelValue, len(expectedKeys))
	for i := range expectedKeys {
		for _, t := range row.Tags {
			if t.Key.Name() == expectedKeys[i].Key {
				labelValues[i] = metricdata.NewLabelValue(t.Value)
				break
			}
		}
	}
	return labelValues
"""), ("stats/view/view_to_metric.go", """	rows := v.collectedRows()
	if len(rows) == 0 {
		return nil
	}

	ts := []*metricdata.TimeSeries{}
	for _, row := range rows {
		ts = append(ts, rowToTimeseries(v, row, now))
	}
""", """	rows := v.collectedRows()
	ts := make([]*metricdata.TimeSeries, 0, len(rows))
	for i := len(rows) - 1; i >= 0; i-- {
		ts = append(ts, rowToTimeseries(v, rows[i], now))
	}
	if len(ts) == 0 {
		return nil
	}
"""))
r("manager-list", ("metric/metricproducer/manager.go", """	producers := make([]Producer, len(pm.producers))
	i := 0
	for producer := range pm.producers {
		producers[i] = producer
		i++
	}
	return producers
""", """	var producers []Producer
	for producer := range pm.producers {
		producers = append([]Producer{producer}, producers...)
	}
	return producers
"""), ("metric/metricproducer/manager.go", """	once.Do(func() {
		prodMgr = &Manager{}
		prodMgr.producers = make(map[Producer]struct{})
	})
	return prodMgr
""", """	once.Do(newGlobal)
	return prodMgr
}

func newGlobal() {
	prodMgr = &Manager{producers: map[Producer]struct{}{}}
"""))
r("registry-collects-first", ("metric/registry.go", """	ms := []*metricdata.Metric{}
	r.baseMetrics.Range(func(k, v interface{}) bool {
		bm := v.(*baseMetric)
		ms = append(ms, bm.read())
		return true
	})
	return ms
""", """	var bms []*baseMetric
	r.baseMetrics.Range(func(_, v interface{}) bool {
		bms = append(bms, v.(*baseMetric))
		return true
	})
	ms := make([]*metricdata.Metric, len(bms))
	for i, bm := range bms {
		ms[i] = bm.read()
	}
	return ms
"""), ("metric/registry.go", """	var constLabelKeys []metricdata.LabelKey
	for k := range o.constLabels {
		constLabelKeys = append(constLabelKeys, k)
	}
	sort.Slice(constLabelKeys, func(i, j int) bool {
		return constLabelKeys[i].Key < constLabelKeys[j].Key
	})

	var constLabelValues []metricdata.LabelValue
	for _, k := range constLabelKeys {
		constLabelValues = append(constLabelValues, o.constLabels[k])
	}
""", """	constLabelKeys := sortedKeys(o.constLabels)
	constLabelValues := make([]metricdata.LabelValue, len(constLabelKeys))
	for i := range constLabelKeys {
		constLabelValues[i] = o.constLabels[constLabelKeys[i]]
	}
"""), ("metric/registry.go", "// Read reads all gauges and cumulatives in this", """func sortedKeys(m map[metricdata.LabelKey]metricdata.LabelValue) []metricdata.LabelKey {
	var keys []metricdata.LabelKey
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].Key < keys[j].Key })
	return keys
}

// Read reads all gauges and cumulatives in this"""))
r("traceparent-fields", ("plugin/ochttp/propagation/tracecontext/propagation.go", """	if len(sections[1]) != 32 {
		return trace.SpanContext{}, false
	}
	tid, err := hex.DecodeString(sections[1])
	if err != nil {
		return trace.SpanContext{}, false
	}
	copy(sc.TraceID[:], tid)

	if len(sections[2]) != 16 {
		return trace.SpanContext{}, false
	}
	sid, err := hex.DecodeString(sections[2])
	if err != nil {
		return trace.SpanContext{}, false
	}
	copy(sc.SpanID[:], sid)

	if len(sections[3]) != 2 {
		return trace.SpanContext{}, false
	}
	opts, err := hex.DecodeString(sections[3])
	if err != nil {
		return trace.SpanContext{}, false
	}
	sc.TraceOptions = trace.TraceOptions(opts[0])
""", """	var opts [1]byte
	for i, dst := range [][]byte{sc.TraceID[:], sc.SpanID[:], opts[:]} {
		field := sections[i+1]
		if len(field) != 2*len(dst) {
			return trace.SpanContext{}, false
		}
		if _, err := hex.Decode(dst, []byte(field)); err != nil {
			return trace.SpanContext{}, false
		}
	}
	sc.TraceOptions = trace.TraceOptions(opts[0])
"""))
r("tracestate-kept-entries", ("trace/tracestate/tracestate.go", """	for _, entry := range entries {
		ts.remove(entry.Key)
	}
	if len(ts.entries)""", """	added := map[string]bool{}
	for _, entry := range entries {
		added[entry.Key] = true
	}
	var kept []Entry
	for _, entry := range ts.entries {
		if !added[entry.Key] {
			kept = append(kept, entry)
		}
	}
	ts.entries = kept
	if len(ts.entries)"""), ("trace/tracestate/tracestate.go", """	keyMap := make(map[string]int)
	for _, entry := range entries {
		if _, ok := keyMap[entry.Key]; ok {
			return entry.Key, true
		}
		keyMap[entry.Key] = 1
	}
	return "", false
""", """	for i := range entries {
		for j := 0; j < i; j++ {
			if entries[j].Key == entries[i].Key {
				return entries[i].Key, true
			}
		}
	}
	return "", false
"""))
r("resource-merge-order", ("resource/resource.go", """	for k, v := range b.Labels {
		res.Labels[k] = v
	}
	// Labels from resource a overwrite labels from resource b.
	for k, v := range a.Labels {
		res.Labels[k] = v
	}
	return res
""", """	for k, v := range a.Labels {
		res.Labels[k] = v
	}
	for k, v := range b.Labels {
		if _, ok := a.Labels[k]; !ok {
			res.Labels[k] = v
		}
	}
	return res
"""))
r("lru-own-keys", ("trace/lrumap.go", """	keys := make([]interface{}, 0, len(lm.values))
	for k := range lm.values {
		keys = append(keys, k)
	}
	return keys
""", """	var keys []interface{}
	for k := range lm.values {
		keys = append(keys, interface{}(k))
	}
	return keys
"""), ("trace/evictedqueue.go", """	if len(eq.queue) == eq.capacity {
		eq.queue = eq.queue[1:]
		eq.droppedCount++
	}
	eq.queue = append(eq.queue, value)
""", """	eq.queue = append(eq.queue, value)
	for len(eq.queue) > eq.capacity {
		eq.queue[0] = nil
		eq.queue = eq.queue[1:]
		eq.droppedCount++
	}
"""))
r("server-end-reordered", ("plugin/ochttp/server.go", """		span := trace.FromContext(t.ctx)
		span.SetStatus(TraceStatus(t.statusCode, t.statusLine))
		span.AddAttributes(trace.Int64Attribute(StatusCodeAttribute, int64(t.statusCode)))

		m := []stats""", """		m := []stats"""), ("plugin/ochttp/server.go", """		stats.RecordWithTags(t.ctx, allTags, m...)
	})
""", """		stats.RecordWithTags(t.ctx, allTags, m...)

		if span := trace.FromContext(t.ctx); span != nil {
			span.AddAttributes(trace.Int64Attribute(StatusCodeAttribute, int64(t.statusCode)))
			span.SetStatus(TraceStatus(t.statusCode, t.statusLine))
		}
	})
"""))
r("grpc-end-reordered", ("plugin/ocgrpc/stats_common.go", """	elapsedTime := time.Since(d.startTime)

	var st string
	if s.Error != nil {
		// An error that carries no status counts as UNKNOWN.
		s, _ := status.FromError(s.Error)
		st = statusCodeToString(s)
	} else {
		st = "OK"
	}

	latencyMillis := float64(elapsedTime) / float64(time.Millisecond)
	attachments := getSpanCtxAttachment(ctx)
""", """	attachments := getSpanCtxAttachment(ctx)
	latencyMillis := time.Since(d.startTime).Seconds() * 1000
	st := statusCodeToString(status.Convert(s.Error))
"""))
r("tracez-rows-merged", ("zpages/tracez.go", """	var es events
	for i := range s.Annotations {
		es = append(es, &s.Annotations[i])
	}
	for i := range s.MessageEvents {
		es = append(es, &s.MessageEvents[i])
	}
	sort.Stable(es)
""", """	var es events
	i, j := 0, 0
	for i < len(s.Annotations) || j < len(s.MessageEvents) {
		if j == len(s.MessageEvents) || i < len(s.Annotations) && !s.MessageEvents[j].Time.Before(s.Annotations[i].Time) {
			es = append(es, &s.Annotations[i])
			i++
		} else {
			es = append(es, &s.MessageEvents[j])
			j++
		}
	}
"""))
r("rpcz-copies-under-lock", ("zpages/rpcz.go", """	mu.Lock()
	if err := statsTemplate.Execute(w, getStatsPage()); err != nil {
		log.Printf("zpages: executing template: %v", err)
	}
	mu.Unlock()
""", """	mu.Lock()
	page := getStatsPage()
	for _, g := range page.StatGroups {
		for i, s := range g.Snapshots {
			c := *s
			g.Snapshots[i] = &c
		}
	}
	mu.Unlock()
	if err := statsTemplate.Execute(w, page); err != nil {
		log.Printf("zpages: executing template: %v", err)
	}
"""))

r("interval-reader-context", ("metric/metricexport/reader.go", "	quit, done chan bool\n", "	cancel     context.CancelFunc\n	wg         sync.WaitGroup\n"),
  ("metric/metricexport/reader.go", "	if ir.quit != nil {\n		return errAlreadyStarted\n	}\n	ir.timer = time.NewTicker(reportingInterval)\n	ir.quit = make(chan bool)\n	ir.done = make(chan bool)\n\n	go ir.startInternal()\n",
   "	if ir.cancel != nil {\n		return errAlreadyStarted\n	}\n	ir.timer = time.NewTicker(reportingInterval)\n	var ctx context.Context\n	ctx, ir.cancel = context.WithCancel(context.Background())\n	ir.wg.Add(1)\n	go ir.startInternal(ctx)\n"),
  ("metric/metricexport/reader.go", "func (ir *IntervalReader) startInternal() {\n", "func (ir *IntervalReader) startInternal(ctx context.Context) {\n	defer ir.wg.Done()\n"),
  ("metric/metricexport/reader.go", "		case <-ir.quit:\n			ir.timer.Stop()\n			ir.done <- true\n			return\n", "		case <-ctx.Done():\n			ir.timer.Stop()\n			return\n"),
  ("metric/metricexport/reader.go", "	if ir.quit == nil {\n		return\n	}\n	ir.quit <- true\n	<-ir.done\n	close(ir.quit)\n	close(ir.done)\n	ir.quit = nil\n", "	if ir.cancel == nil {\n		return\n	}\n	ir.cancel()\n	ir.wg.Wait()\n	ir.cancel = nil\n"),
  ("metric/metricexport/reader.go", "	// No-op if IntervalReader is not stopped\n	if ir.quit != nil {", "	// No-op if IntervalReader is not stopped\n	if ir.cancel != nil {"))
r("config-pointer-lock", (CFG, "	c := *config.Load().(*Config)\n", "	c := currentConfig()\n"),
  (CFG, "var configWriteMu sync.Mutex\n", "var configWriteMu sync.Mutex\n\nfunc currentConfig() Config {\n	return *config.Load().(*Config)\n}\n"),
  (T, "	cfg := config.Load().(*Config)\n", "	current := currentConfig()\n	cfg := &current\n"))
r("worker-exporters-slice", (W, "	exporters   map[Exporter]struct{}\n", "	exporters   []Exporter\n"),
  (W, "		exporters: make(map[Exporter]struct{}),\n", ""),
  (W, "	for e := range w.exporters {\n		e.ExportView(viewData)\n	}\n", "	for _, e := range w.exporters {\n		e.ExportView(viewData)\n	}\n"),
  (W, "	w.exporters[e] = struct{}{}\n", "	for _, o := range w.exporters {\n		if o == e {\n			return\n		}\n	}\n	w.exporters = append(w.exporters, e)\n"),
  (W, "	delete(w.exporters, e)\n", "	for i, o := range w.exporters {\n		if o == e {\n			w.exporters = append(w.exporters[:i:i], w.exporters[i+1:]...)\n			return\n		}\n	}\n"))
r("manager-init-var", ("metric/metricproducer/manager.go", "var prodMgr *Manager\nvar once sync.Once\n", "var prodMgr = &Manager{producers: make(map[Producer]struct{})}\n"),
  ("metric/metricproducer/manager.go", "	once.Do(func() {\n		prodMgr = &Manager{}\n		prodMgr.producers = make(map[Producer]struct{})\n	})\n	return prodMgr\n", "	return prodMgr\n"))
r("manager-cond-free-list", ("metric/metricproducer/manager.go", "	producers map[Producer]struct{}\n", "	producers []Producer\n"),
  ("metric/metricproducer/manager.go", "		prodMgr.producers = make(map[Producer]struct{})\n", ""),
  ("metric/metricproducer/manager.go", "	pm.producers[producer] = struct{}{}\n", "	if pm.index(producer) < 0 {\n		pm.producers = append(pm.producers, producer)\n	}\n"),
  ("metric/metricproducer/manager.go", "	delete(pm.producers, producer)\n}\n", "	if i := pm.index(producer); i >= 0 {\n		last := len(pm.producers) - 1\n		pm.producers[i] = pm.producers[last]\n		pm.producers[last] = nil\n		pm.producers = pm.producers[:last]\n	}\n}\n\nfunc (pm *Manager) index(producer Producer) int {\n	for i, p := range pm.producers {\n		if p == producer {\n			return i\n		}\n	}\n	return -1\n}\n"),
  ("metric/metricproducer/manager.go", "	producers := make([]Producer, len(pm.producers))\n	i := 0\n	for producer := range pm.producers {\n		producers[i] = producer\n		i++\n	}\n	return producers\n", "	return append([]Producer{}, pm.producers...)\n"))
r("measure-once-per-name", ("stats/measure.go", "	mu.Lock()\n	defer mu.Unlock()\n\n	if stored, ok := measures[name]; ok {\n		return stored\n	}\n", "	mu.RLock()\n	stored, ok := measures[name]\n	mu.RUnlock()\n	if ok {\n		return stored\n	}\n\n	mu.Lock()\n	defer mu.Unlock()\n	if stored, ok := measures[name]; ok {\n		return stored\n	}\n"))
r("view-subscribed-plain-flag", (VV, "	subscribed       uint32 // 1 if someone is subscribed and data need to be exported, use atomic to access\n", "	subscribed       atomic.Value // bool\n"),
  (VV, "	atomic.StoreUint32(&v.subscribed, 1)\n", "	v.subscribed.Store(true)\n"), (VV, "	atomic.StoreUint32(&v.subscribed, 0)\n", "	v.subscribed.Store(false)\n"),
  (VV, "	return atomic.LoadUint32(&v.subscribed) == 1\n", "	on, _ := v.subscribed.Load().(bool)\n	return on\n"))
r("worker-loop-drains", (W, "		case cmd := <-w.c:\n			cmd.handleCommand(w)\n", "		case cmd := <-w.c:\n			w.handle(cmd)\n"),
  (W, "func (w *worker) Stop() {\n", "// handle handles cmd and up to 15 of those that are queued already.\nfunc (w *worker) handle(cmd command) {\n	cmd.handleCommand(w)\n	for i := 0; i < 15; i++ {\n		select {\n		case cmd := <-w.c:\n			cmd.handleCommand(w)\n		default:\n			return\n		}\n	}\n}\n\nfunc (w *worker) Stop() {\n"))
r("spanstore-active-slice", (SS, "	active                 map[SpanInterface]struct{}\n", "	active                 []SpanInterface\n"),
  (SS, "		active:                 make(map[SpanInterface]struct{}),\n", ""),
  (SS, "	for activeSpan := range s.active {\n", "	for _, activeSpan := range s.active {\n"),
  (SS, "	s.active[span] = struct{}{}\n", "	s.active = append(s.active, span)\n"),
  (SS, "	delete(s.active, span)\n", "	for i, a := range s.active {\n		if a == span {\n			s.active = append(s.active[:i], s.active[i+1:]...)\n			break\n		}\n	}\n"))
r("client-tracker-mutex", ("plugin/ochttp/client_stats.go", "	respSize          int64 // access atomically; first for 64-bit alignment\n	ctx ", "	mu                sync.Mutex\n	respSize          int64 // protected by mu\n	ctx "),
  ("plugin/ochttp/client_stats.go", "		bytesRead := atomic.LoadInt64(&t.respSize)\n", "		t.mu.Lock()\n		bytesRead := t.respSize\n		t.mu.Unlock()\n"),
  ("plugin/ochttp/client_stats.go", "	atomic.AddInt64(&t.respSize, int64(n))\n", "	t.mu.Lock()\n	t.respSize += int64(n)\n	t.mu.Unlock()\n"),
  ("plugin/ochttp/client_stats.go", '	"sync/atomic"\n', ""))
r("rpc-data-mutex", ("plugin/ocgrpc/stats_common.go", "	atomic.AddInt64(&d.sentBytes, int64(s.Length))\n	atomic.AddInt64(&d.sentCount, 1)\n", "	atomic.AddInt64(&d.sentCount, 1)\n	atomic.AddInt64(&d.sentBytes, int64(s.Length))\n"),
  ("plugin/ocgrpc/stats_common.go", "	elapsedTime := time.Since(d.startTime)\n\n	var st string\n", "	elapsedTime := time.Now().Sub(d.startTime)\n\n	st := \"OK\"\n"),
  ("plugin/ocgrpc/stats_common.go", "		st = statusCodeToString(s)\n	} else {\n		st = \"OK\"\n	}\n", "		st = statusCodeToString(s)\n	}\n"))
r("registry-mutex-map", ("metric/registry.go", "	val, ok := r.baseMetrics.Load(name)\n	if ok {\n		existing := val.(*baseMetric)\n		if existing.bmType != bm.bmType {\n			return nil, errMetricExistsWithDiffType\n		}\n	}\n", "	if val, ok := r.baseMetrics.Load(name); ok && val.(*baseMetric).bmType != bm.bmType {\n		return nil, errMetricExistsWithDiffType\n	}\n"),
  ("metric/registry.go", "	var constLabelValues []metricdata.LabelValue\n	for _, k := range constLabelKeys {\n		constLabelValues = append(constLabelValues, o.constLabels[k])\n	}\n", "	constLabelValues := make([]metricdata.LabelValue, len(constLabelKeys))\n	for i, k := range constLabelKeys {\n		constLabelValues[i] = o.constLabels[k]\n	}\n"))

def run(root, id):
    files = sorted({e[0] for e in R[id]})
    for f in files: shutil.copy("/repo/" + f, root + "/" + f)
    try:
        for f, old, new in R[id]:
            s = open(root + "/" + f).read()
            if s.count(old) != 1: return "edit does not apply to " + f + ": " + repr(old[:60])
            open(root + "/" + f, "w").write(s.replace(old, new))
        bad = mutants.failing(root, "./...", "90s")
        if bad is None: return "does not build"
        if bad: print(id, "fails", bad[:3], flush=True)
        props = []
        for f in files:
            for p in mutants.MAP[f].split():
                if p not in props: props.append(p)
        res = []
        for p in props:
            env = dict(os.environ, VERIF_REPO=root, VERIF_EVIDENCE=root + "-ev")
            q = subprocess.run(["python3", V + "/check.py", p, "quick"], cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if q.returncode != 0:
                open("/tmp/ref/%s.%s" % (id, p), "w").write(q.stdout)
                res.append("%s rc=%d %s" % (p, q.returncode, [l for l in q.stdout.split("\n") if "VIOLATION" in l or "detail" in l][:1]))
        return "ALARM " + "; ".join(res) if res else "quiet (" + " ".join(props) + ")"
    finally:
        for f in files: shutil.copy("/repo/" + f, root + "/" + f)

if __name__ == "__main__":
    os.makedirs("/tmp/ref", exist_ok=True)
    q = queue.Queue()
    for id in sys.argv[1:] or R: q.put(id)
    def work():
        w = tempfile.mkdtemp(prefix="ref-", dir="/tmp"); root = w + "/repo"
        shutil.copytree("/repo", root, symlinks=True)
        try:
            while True:
                try: id = q.get_nowait()
                except queue.Empty: return
                print("%-32s %s" % (id, run(root, id)), flush=True)
        finally:
            shutil.rmtree(w, ignore_errors=True)
    ts = [threading.Thread(target=work) for _ in range(int(os.environ.get("J", "2")))]
    for t in ts: t.start()
    for t in ts: t.join()
