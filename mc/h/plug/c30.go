package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strconv"
	"strings"

	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/plugin/ochttp/propagation/b3"
	"go.opencensus.io/plugin/ochttp/propagation/tracecontext"
	"go.opencensus.io/stats"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	"go.opencensus.io/trace/propagation"
)

// mwriter is a response writer behaving like net/http's; it logs all calls.
type mwriter struct {
	log    []string
	hdr    http.Header
	status int // final status sent, 0 if none
	bytes  int64
	short  bool // writes are cut short
}

func (m *mwriter) Header() http.Header { m.log = append(m.log, "Header"); return m.hdr }
func (m *mwriter) send(code int) {
	if m.status == 0 && (code >= 200 || code == 101) {
		m.status = code
	}
}
func (m *mwriter) WriteHeader(code int) {
	m.log = append(m.log, fmt.Sprint("WriteHeader ", code))
	m.send(code)
}
func (m *mwriter) Write(p []byte) (int, error) {
	m.log = append(m.log, fmt.Sprintf("Write %q", p))
	m.send(200)
	if m.short {
		m.bytes += int64(len(p)) - 1
		return len(p) - 1, errWrite
	}
	m.bytes += int64(len(p))
	return len(p), nil
}

type mHijack struct{ m *mwriter }
type mNotify struct{ m *mwriter }
type mPush struct{ m *mwriter }
type mFlush struct{ m *mwriter }
type mRead struct{ m *mwriter }

func (m *mwriter) hijacker() http.Hijacker      { return mHijack{m} }
func (m *mwriter) notifier() http.CloseNotifier { return mNotify{m} }
func (m *mwriter) pusher() http.Pusher          { return mPush{m} }
func (m *mwriter) flusher() http.Flusher        { return mFlush{m} }
func (m *mwriter) readerFrom() io.ReaderFrom    { return mRead{m} }

var errHijack = errors.New("hijack failed")
var errPush = errors.New("push failed")
var notifyCh = make(chan bool)

func (x mHijack) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	x.m.log = append(x.m.log, "Hijack")
	return nil, nil, errHijack
}
func (x mNotify) CloseNotify() <-chan bool {
	x.m.log = append(x.m.log, "CloseNotify")
	return notifyCh
}
func (x mPush) Push(t string, o *http.PushOptions) error {
	x.m.log = append(x.m.log, "Push "+t+" "+o.Method)
	return errPush
}
func (x mFlush) Flush() { x.m.log = append(x.m.log, "Flush"); x.m.send(200) }
func (x mRead) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	x.m.log = append(x.m.log, fmt.Sprintf("ReadFrom %q", b))
	x.m.send(200)
	x.m.bytes += int64(len(b))
	return int64(len(b)), err
}

var serverKeys = []tag.Key{ochttp.Host, ochttp.Path, ochttp.Method, ochttp.StatusCode, ochttp.KeyServerRoute}

func serverMeasures() []stats.Measure {
	return []stats.Measure{ochttp.ServerRequestCount, ochttp.ServerRequestBytes, ochttp.ServerResponseBytes, ochttp.ServerLatency}
}

type hfunc func(http.ResponseWriter, *http.Request)

func (f hfunc) ServeHTTP(w http.ResponseWriter, r *http.Request) { f(w, r) }

func init() {
	setup := func() (*spanLog, *watcher) {
		vsched.Reinit()
		trace.ApplyConfig(trace.Config{DefaultSampler: trace.AlwaysSample(), IDGenerator: stampIDs{}})
		l := &spanLog{}
		trace.RegisterExporter(l)
		return l, watch(serverKeys, serverMeasures()...)
	}
	// everything a handler does with its response
	type hop struct {
		name string
		f    func(w http.ResponseWriter, r *http.Request)
		log  string // what the original writer sees
	}
	boom := errors.New("handler panics")
	ops := []hop{
		{"write3", func(w http.ResponseWriter, r *http.Request) {
			if n, err := w.Write([]byte("abc")); n != 3 || err != nil {
				vsched.Failf("write gave %d %v", n, err)
			}
		}, `Write "abc"`},
		{"write0", func(w http.ResponseWriter, r *http.Request) { w.Write(nil) }, `Write ""`},
		{"head200", func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(200) }, "WriteHeader 200"},
		{"head404", func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(404) }, "WriteHeader 404"},
		{"head500", func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(500) }, "WriteHeader 500"},
		{"head103", func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(103) }, "WriteHeader 103"},
		{"head101", func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(101) }, "WriteHeader 101"},
		{"flush", func(w http.ResponseWriter, r *http.Request) { w.(http.Flusher).Flush() }, "Flush"},
		{"readfrom", func(w http.ResponseWriter, r *http.Request) {
			if n, err := w.(io.ReaderFrom).ReadFrom(strings.NewReader("defgh")); n != 5 || err != nil {
				vsched.Failf("ReadFrom gave %d %v", n, err)
			}
		}, `ReadFrom "defgh"`},
		{"routeA", func(w http.ResponseWriter, r *http.Request) { ochttp.SetRoute(r.Context(), "A") }, ""},
		{"routeB", func(w http.ResponseWriter, r *http.Request) { ochttp.SetRoute(r.Context(), "B") }, ""},
		{"panic", func(w http.ResponseWriter, r *http.Request) { panic(boom) }, ""},
	}
	vh.Add(&vh.Task{Prop: "C30", Name: "responses", Shards: [2]int{8, 8}, Weight: 4, Seq: func(s *vh.S) {
		depth := s.Pick(4, 6)
		for d := 0; d <= depth; d++ {
			for _, tagged := range []bool{false, true} {
				for _, health := range []bool{false, true} {
					if health && d == depth && !s.Thorough {
						continue
					}
					s.Seqs(len(ops), d, func(seq []int) {
						name := fmt.Sprintf("tagged %v health %v:", tagged, health)
						for _, i := range seq {
							name += " " + ops[i].name
						}
						s.Exec(name, func() {
							l, w := setup()
							exp := w.model()
							m := &mwriter{hdr: http.Header{}}
							twin := &mwriter{hdr: http.Header{}}
							req := mustReq("GET", "http://h/p", nil)
							if health {
								req = mustReq("GET", "http://h/healthz", nil)
							}
							route, ev, panicked := "", "", false
							var log []string
							t0 := vsched.Now()
							var h http.Handler = hfunc(func(w http.ResponseWriter, r *http.Request) {
								for _, i := range seq {
									o := ops[i]
									vsched.AdvanceQuiet(step)
									o.f(w, r)
								}
							})
							end := t0
							for _, i := range seq { // the reference
								o := ops[i]
								end += step
								if o.log != "" {
									log = append(log, o.log)
								}
								b := twin.bytes
								switch {
								case o.name == "readfrom":
									twin.readerFrom().ReadFrom(strings.NewReader("defgh"))
									ev += fmt.Sprintf("1:%d/-1 ", twin.bytes-b)
								case strings.HasPrefix(o.name, "route"):
									route = o.name[5:]
								case o.name == "flush":
									twin.flusher().Flush()
								case o.name == "panic":
									panicked = true
								default:
									o.f(twin, nil)
									if strings.HasPrefix(o.name, "write") {
										ev += fmt.Sprintf("1:%d/-1 ", twin.bytes-b)
									}
								}
								if panicked {
									break
								}
							}
							if tagged {
								h = ochttp.WithRouteTag(h, "T")
								route = "T"
							}
							func() {
								defer func() {
									if x := recover(); (x != nil) != panicked || panicked && x != boom {
										vsched.Failf("panic %v came out, want %v", x, panicked)
									}
								}()
								(&ochttp.Handler{Handler: h}).ServeHTTP(writerWith(m, 31), req)
							}()
							if fmt.Sprint(m.log) != fmt.Sprint(log) {
								vsched.Failf("the writer saw %v, want %v", m.log, log)
							}
							st := twin.status
							if st == 0 && !panicked {
								st = 200
							}
							at := map[string]string{"http.host": "h", "http.path": req.URL.Path, "http.method": "GET"}
							exp.add(ochttp.ServerRequestCount, at, 1)
							if st == 0 { // nothing was sent: the reported status is not specified
								for _, d := range l.got {
									st = int(d.Attributes["http.status_code"].(int64))
								}
								if health {
									st = 200
								}
							}
							at = merge(at, map[string]string{"http.status": strconv.Itoa(st), "http_server_route": route})
							exp.add(ochttp.ServerLatency, at, float64(end-t0)/float64(ms1))
							exp.add(ochttp.ServerResponseBytes, at, float64(twin.bytes))
							if d := diff(w.all(), exp.all()); d != "" {
								vsched.Failf("statistics:\n%s", d)
							}
							gs, want := "", ""
							for _, d := range l.got {
								gs += spanOf(d)
							}
							if !health {
								code, msg := refStatus(st)
								attrs := reqAttrs(req)
								attrs["http.status_code"] = int64(st)
								want = (&wantSpan{name: "/p", kind: 1, code: code, msg: msg, start: t0, end: end, attrs: attrs, events: ev}).String()
							}
							if gs != want {
								vsched.Failf("spans:\ngot  %s\nwant %s", gs, want)
							}
							s.Outcome("%d %d %v %s", st, twin.bytes, panicked, route)
							s.Sample("%s -> %s", name, want)
						})
						s.Case(len(seq))
					})
				}
			}
		}
	}})

	// the wrapper offers exactly what the original offers, and forwards it
	vh.Add(&vh.Task{Prop: "C30", Name: "interfaces", Seq: func(s *vh.S) {
		for mask := 0; mask < 32; mask++ {
			for _, short := range []bool{false, true} {
				if s.Stop() {
					return
				}
				name := fmt.Sprintf("interfaces %05b short %v", mask, short)
				s.Exec(name, func() {
					l, w := setup()
					m := &mwriter{hdr: http.Header{"K": {"v"}}, short: short}
					var log []string
					h := hfunc(func(rw http.ResponseWriter, r *http.Request) {
						check := func(i int, has bool, what string) bool {
							if has != (mask>>i&1 == 1) {
								vsched.Failf("the wrapped writer's %s is %v, the original's is %v", what, has, !has)
							}
							return has
						}
						hj, ok := rw.(http.Hijacker)
						if check(0, ok, "Hijacker") {
							if _, _, err := hj.Hijack(); err != errHijack {
								vsched.Failf("Hijack gave %v", err)
							}
							log = append(log, "Hijack")
						}
						cn, ok := rw.(http.CloseNotifier)
						if check(1, ok, "CloseNotifier") {
							if c := cn.CloseNotify(); c != (<-chan bool)(notifyCh) {
								vsched.Failf("CloseNotify gave another channel")
							}
							log = append(log, "CloseNotify")
						}
						pu, ok := rw.(http.Pusher)
						if check(2, ok, "Pusher") {
							if err := pu.Push("t", &http.PushOptions{Method: "M"}); err != errPush {
								vsched.Failf("Push gave %v", err)
							}
							log = append(log, "Push t M")
						}
						rf, ok := rw.(io.ReaderFrom)
						if check(4, ok, "ReaderFrom") {
							if n, err := rf.ReadFrom(io.MultiReader(strings.NewReader("xy"), &sbody{script: []chunk{{"z", errBody}}})); n != 3 || err != errBody {
								vsched.Failf("ReadFrom gave %d %v", n, err)
							}
							log = append(log, `ReadFrom "xyz"`)
						}
						fl, ok := rw.(http.Flusher)
						if check(3, ok, "Flusher") {
							fl.Flush()
							log = append(log, "Flush")
						}
						rw.Header().Set("A", "b")
						log = append(log, "Header")
						rw.WriteHeader(204)
						log = append(log, "WriteHeader 204")
						n, err := rw.Write([]byte("pq"))
						if short && (n != 1 || err != errWrite) || !short && (n != 2 || err != nil) {
							vsched.Failf("Write gave %d %v", n, err)
						}
						log = append(log, `Write "pq"`)
						for _, x := range []bool{mask&8 != 0} { // and once more in another order
							if x {
								fl.Flush()
								log = append(log, "Flush")
							}
						}
					})
					req := mustReq("PUT", "http://h/p", nil)
					(&ochttp.Handler{Handler: h}).ServeHTTP(writerWith(m, mask), req)
					if fmt.Sprint(m.log) != fmt.Sprint(log) || m.hdr.Get("A") != "b" {
						vsched.Failf("the writer saw %v %v, want %v", m.log, m.hdr, log)
					}
					exp := w.model()
					at := map[string]string{"http.host": "h", "http.path": "/p", "http.method": "PUT"}
					exp.add(ochttp.ServerRequestCount, at, 1)
					at = merge(at, map[string]string{"http.status": strconv.Itoa(m.status)})
					exp.add(ochttp.ServerLatency, at, 0)
					exp.add(ochttp.ServerResponseBytes, at, float64(m.bytes))
					if d := diff(w.all(), exp.all()); d != "" {
						vsched.Failf("statistics:\n%s", d)
					}
					if len(l.got) != 1 {
						vsched.Failf("%d spans", len(l.got))
					}
					s.Outcome("%d %d", m.status, m.bytes)
				})
				s.Case(1)
			}
		}
	}})

	// every shape of request
	vh.Add(&vh.Task{Prop: "C30", Name: "requests", Shards: [2]int{8, 8}, Weight: 3, Seq: func(s *vh.S) {
		for _, path := range []string{"/p", "/healthz", "/_ah/health", "/custom", "/healthz/x", ""} {
			for _, wire := range []string{"none", "sampled", "unsampled", "malformed", "foreign", "debug"} {
				for _, fm := range []string{"default", "b3", "tracecontext"} {
					for _, public := range []bool{false, true} {
						for _, so := range []string{"none", "always", "never", "get", "ignored"} {
							for _, ambient := range []string{"none", "sampled", "unsampled"} {
								for _, bd := range []string{"nil", "nobody", "sized", "unsized"} {
									for _, ex := range []string{"plain", "formatter", "mux"} {
										if !s.Mine() {
											continue
										}
										if s.Stop() {
											return
										}
										name := fmt.Sprintf("path %q wire %s format %s public %v options %s ambient %s body %s %s", path, wire, fm, public, so, ambient, bd, ex)
										s.Exec(name, func() { c30request(s, setup, path, wire, fm, public, so, ambient, bd, ex) })
										s.Case(1)
									}
								}
							}
						}
					}
				}
			}
		}
	}})

	// the first requests of a handler without any settings
	vh.Add(&vh.Task{Prop: "C30", Name: "concurrent-defaults", Race: true, Bound: [2]int{3, 5}, Shards: [2]int{8, 8}, Body: func() {
		l, w := setup()
		trace.UnregisterExporter(l)
		trace.RegisterExporter(freeLog{})
		mux := http.NewServeMux()
		mux.Handle("h/p/", hfunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(201) }))
		was := http.DefaultServeMux
		http.DefaultServeMux = mux
		defer func() { http.DefaultServeMux = was }()
		h := &ochttp.Handler{}
		codes := make([]int, 2)
		vsched.Explore(true)
		var gs []*vsched.G
		for i := range codes {
			i := i
			gs = append(gs, vsched.Thread(fmt.Sprint("req", i), func() {
				m := &mwriter{hdr: http.Header{}}
				h.ServeHTTP(m, mustReq("GET", fmt.Sprint("http://h/p/", i), nil))
				codes[i] = m.status
			}))
		}
		vsched.Join(gs...)
		vsched.Explore(false)
		exp := w.model()
		for i := range codes {
			if codes[i] != 201 {
				vsched.Failf("request %d: status %d", i, codes[i])
			}
			at := map[string]string{"http.host": "h", "http.path": fmt.Sprint("/p/", i), "http.method": "GET"}
			exp.add(ochttp.ServerRequestCount, at, 1)
			at = merge(at, map[string]string{"http.status": "201"})
			exp.add(ochttp.ServerResponseBytes, at, 0)
			exp.add(ochttp.ServerLatency, at, 0)
		}
		if d := diff(w.all(), exp.all()); d != "" {
			vsched.Failf("statistics:\n%s", d)
		}
		// the mux in force at the time of the request serves it
		http.DefaultServeMux = http.NewServeMux()
		m := &mwriter{hdr: http.Header{}}
		h.ServeHTTP(m, mustReq("GET", "http://h/p/x", nil))
		if m.status != 404 {
			vsched.Failf("served by a mux that has been replaced: %d", m.status)
		}
	}})
	// concurrent requests through one handler; panicking ones among them
	vh.Add(&vh.Task{Prop: "C30", Name: "concurrent", Race: true, Bound: [2]int{3, 5}, Shards: [2]int{8, 8}, Body: func() {
		l, w := setup()
		trace.UnregisterExporter(l)
		trace.RegisterExporter(freeLog{})
		inner := hfunc(func(w http.ResponseWriter, r *http.Request) {
			n := int(r.ContentLength)
			if sc := trace.FromContext(r.Context()).SpanContext(); sc.IsSampled() != (n == 1) {
				vsched.Failf("request %d started with another request's options", n)
			}
			ochttp.SetRoute(r.Context(), fmt.Sprint("r", n))
			vsched.Yield()
			w.WriteHeader(200 + n)
			w.Write(make([]byte, 10*n))
			if n == 2 {
				panic("two")
			}
		})
		h := &ochttp.Handler{Handler: inner}
		// the second request is not sampled, and every request has a name of its own
		h.GetStartOptions = func(r *http.Request) trace.StartOptions {
			if r.ContentLength == 2 {
				return trace.StartOptions{Sampler: trace.NeverSample()}
			}
			return trace.StartOptions{}
		}
		h.FormatSpanName = func(r *http.Request) string { return fmt.Sprint("req", r.ContentLength) }
		hdr := http.Header{"X-B3-Traceid": {"0123456789abcdef0123456789abcdef"}, "X-B3-Spanid": {"0123456789abcdef"}, "X-B3-Sampled": {"1"}}
		vsched.Explore(true)
		var gs []*vsched.G
		for i := 1; i <= 2; i++ {
			i := i
			gs = append(gs, vsched.Thread(fmt.Sprint("req", i), func() {
				req := mustReq("POST", "http://h/p", strings.NewReader(strings.Repeat("z", i)))
				req.Header = hdr
				defer func() {
					if x := recover(); (x == "two") != (i == 2) {
						vsched.Failf("request %d: panic %v", i, x)
					}
				}()
				h.ServeHTTP(&mwriter{hdr: http.Header{}}, req)
			}))
		}
		vsched.Join(gs...)
		vsched.Explore(false)
		exp := w.model()
		for i := 1; i <= 2; i++ {
			at := map[string]string{"http.host": "h", "http.path": "/p", "http.method": "POST"}
			exp.add(ochttp.ServerRequestCount, at, 1)
			at = merge(at, map[string]string{"http.status": strconv.Itoa(200 + i), "http_server_route": fmt.Sprint("r", i)})
			exp.add(ochttp.ServerRequestBytes, at, float64(i))
			exp.add(ochttp.ServerResponseBytes, at, float64(10*i))
			exp.add(ochttp.ServerLatency, at, 0)
		}
		if d := diff(w.all(), exp.all()); d != "" {
			vsched.Failf("statistics:\n%s", d)
		}
		sp := freeLog{}.spans()
		if len(sp) != 1 {
			vsched.Failf("%d spans", len(sp))
		}
		for _, d := range sp {
			if d.Name != "req1" || d.ParentSpanID.String() != "0123456789abcdef" || !d.HasRemoteParent {
				vsched.Failf("span %s", spanOf(d))
			}
		}
	}})
}

func c30request(s *vh.S, setup func() (*spanLog, *watcher), path, wire, fm string, public bool, so, ambient, bd, ex string) {
	l, w := setup()
	exp := w.model()
	var body io.Reader
	size := int64(-1)
	switch bd {
	case "sized":
		body, size = strings.NewReader("12345"), 5
	case "unsized":
		body, size = &sbody{}, 0
	}
	req := mustReq("POST", "http://h:80"+path+"?q=1", body)
	if bd == "nobody" {
		req.Body = http.NoBody
	}
	if bd == "unsized" {
		req.ContentLength = -1
	}
	req.Header.Set("User-Agent", "ua")
	remote := trace.SpanContext{TraceID: trace.TraceID{1, 2, 15: 3}, SpanID: trace.SpanID{4, 7: 5}}
	have := false
	put := func() {
		tid, sid, fl := remote.TraceID.String(), remote.SpanID.String(), "0"
		if remote.IsSampled() {
			fl = "1"
		}
		if (fm == "tracecontext") != (wire == "foreign") {
			req.Header.Set("Traceparent", "00-"+tid+"-"+sid+"-0"+fl)
		} else {
			req.Header.Set("X-B3-TraceId", tid)
			req.Header.Set("X-B3-SpanId", sid)
			req.Header.Set("X-B3-Sampled", fl)
		}
	}
	switch wire {
	case "sampled", "foreign":
		remote.TraceOptions = 1
		have = wire == "sampled"
		put()
	case "unsampled":
		have = true
		put()
	case "malformed":
		req.Header.Set("Traceparent", "00-zz-"+remote.SpanID.String()+"-01")
		req.Header.Set("X-B3-TraceId", "zz")
		req.Header.Set("X-B3-SpanId", remote.SpanID.String())
		req.Header.Set("X-B3-Sampled", "1")
	case "debug":
		remote.TraceOptions = 1
		put()
		have = true
		if fm != "tracecontext" {
			req.Header.Del("X-B3-Sampled")
			req.Header.Set("X-B3-Sampled", "true")
		}
	}
	ctx := context.WithValue(bg, ctxKey{}, "v")
	var amb *trace.Span
	switch ambient {
	case "sampled":
		ctx, amb = trace.StartSpan(ctx, "ambient")
	case "unsampled":
		ctx, amb = trace.StartSpan(ctx, "ambient", trace.WithSampler(trace.NeverSample()))
	}
	req = req.WithContext(ctx)

	h := &ochttp.Handler{IsPublicEndpoint: public}
	var format propagation.HTTPFormat
	switch fm {
	case "b3":
		format = &b3.HTTPFormat{}
	case "tracecontext":
		format = &tracecontext.HTTPFormat{}
	}
	h.Propagation = format
	h.IsHealthEndpoint = func(r *http.Request) bool { return r.URL.Path == "/custom" }
	health := path == "/healthz" || path == "/_ah/health" || path == "/custom"
	// the sampling decision without options is the parent's, or the default for roots
	sampled := true
	continued := have && !public
	if continued {
		sampled = remote.IsSampled() || true // a remote unsampled parent leaves the decision to the default sampler
	} else if amb != nil {
		sampled = amb.SpanContext().IsSampled()
	}
	opts := 0
	switch so {
	case "always":
		h.StartOptions = trace.StartOptions{Sampler: trace.AlwaysSample(), SpanKind: trace.SpanKindClient}
		sampled = true
	case "never":
		h.StartOptions.Sampler = trace.NeverSample()
		sampled = false
	case "get":
		h.StartOptions.Sampler = trace.NeverSample()
		h.GetStartOptions = func(r *http.Request) trace.StartOptions {
			opts++
			return trace.StartOptions{Sampler: trace.AlwaysSample(), SpanKind: trace.SpanKindClient}
		}
		sampled = true
	case "ignored":
		h.StartOptions.Sampler = trace.AlwaysSample()
		h.GetStartOptions = func(r *http.Request) trace.StartOptions { opts++; return trace.StartOptions{} }
	}
	name := req.URL.Path
	if ex == "formatter" {
		h.FormatSpanName = func(r *http.Request) string { return "named " + r.Method }
		name = "named POST"
	}
	m := &mwriter{hdr: http.Header{}}
	var seen *trace.Span
	served := 0
	var inner http.Handler = hfunc(func(rw http.ResponseWriter, r *http.Request) {
		served++
		seen = trace.FromContext(r.Context())
		if r.Method != "POST" || r.URL != req.URL || r.Host != req.Host || r.Body != req.Body || r.Header.Get("User-Agent") != "ua" {
			vsched.Failf("the handler got %+v", r)
		}
		if r.Context().Value(ctxKey{}) != "v" {
			vsched.Failf("the request's context values are lost")
		}
		vsched.AdvanceQuiet(4 * step)
		rw.WriteHeader(404)
		rw.Write([]byte("abcd"))
	})
	if ex == "mux" {
		http.DefaultServeMux = http.NewServeMux()
		http.DefaultServeMux.Handle("h/", inner)
		if path == "" { // the mux redirects the empty path
			h.Handler = inner
		}
	} else {
		h.Handler = inner
	}
	t0 := vsched.Now()
	h.ServeHTTP(m, req)
	if served != 1 {
		vsched.Failf("handler called %d times", served)
	}
	at := map[string]string{"http.host": "h:80", "http.path": req.URL.Path, "http.method": "POST"}
	exp.add(ochttp.ServerRequestCount, at, 1)
	at = merge(at, map[string]string{"http.status": "404"})
	exp.add(ochttp.ServerLatency, at, 4.5)
	exp.add(ochttp.ServerResponseBytes, at, 4)
	if size >= 0 {
		exp.add(ochttp.ServerRequestBytes, at, float64(size))
	}
	if d := diff(w.all(), exp.all()); d != "" {
		vsched.Failf("statistics:\n%s", d)
	}
	if health {
		if seen != amb || len(l.got) != 0 {
			vsched.Failf("health request traced: %v %v", seen, l.got)
		}
		s.Outcome("health")
		return
	}
	if seen == nil || seen == amb {
		vsched.Failf("no server span in the handler's context")
	}
	if wo := so == "get" || so == "ignored"; wo != (opts == 1) || opts > 1 {
		vsched.Failf("start options asked for %d times", opts)
	}
	sc := seen.SpanContext()
	if sc.IsSampled() != sampled {
		vsched.Failf("sampled %v, want %v", sc.IsSampled(), sampled)
	}
	ws := &wantSpan{name: name, kind: 1, start: t0, end: t0 + 4*step, attrs: reqAttrs(req), events: "1:4/-1 "}
	ws.code, ws.msg = refStatus(404)
	ws.attrs["http.status_code"] = int64(404)
	if size > 0 {
		ws.events = "2:5/-1 " + ws.events
	}
	wantTrace := trace.TraceID{}
	switch {
	case continued:
		ws.parent, ws.remote, wantTrace = remote.SpanID, true, remote.TraceID
	case amb != nil:
		ws.parent, wantTrace = amb.SpanContext().SpanID, amb.SpanContext().TraceID
	}
	if wantTrace != (trace.TraceID{}) && sc.TraceID != wantTrace {
		vsched.Failf("trace %v, want %v", sc.TraceID, wantTrace)
	}
	if sc.TraceID == remote.TraceID != continued {
		vsched.Failf("in the remote trace: %v, want %v", !continued, continued)
	}
	if have && public {
		ws.links = fmt.Sprintf("2:%s/%s ", remote.TraceID, remote.SpanID)
	}
	gs, want := "", ""
	for _, d := range l.got {
		gs += spanOf(d)
		if d.SpanContext.SpanID != sc.SpanID {
			vsched.Failf("exported span %v, the handler had %v", d.SpanContext, sc)
		}
	}
	if sampled {
		want = ws.String()
	}
	if gs != want {
		vsched.Failf("spans:\ngot  %s\nwant %s", gs, want)
	}
	s.Outcome("continued %v sampled %v linked %v", continued, sampled, ws.links != "")
}
