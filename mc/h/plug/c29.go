package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptrace"
	"net/url"
	"reflect"
	"strconv"
	"strings"

	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/plugin/ochttp/propagation/b3"
	"go.opencensus.io/plugin/ochttp/propagation/tracecontext"
	"go.opencensus.io/stats"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	"go.opencensus.io/trace/propagation"
)

// rtFunc is a base transport.
type rtFunc func(*http.Request) (*http.Response, error)

func (f rtFunc) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

type cancelRT struct {
	rtFunc
	cancelled []*http.Request
}

func (c *cancelRT) CancelRequest(r *http.Request) { c.cancelled = append(c.cancelled, r) }

// chunk is a piece of a scripted body: data, then possibly an error with the data's last byte or on its own.
type chunk struct {
	data string
	err  error
}

// sbody is a scripted body.
type sbody struct {
	script   []chunk
	closeErr error
	reads    int
	closed   int
	wrote    string
	advance  bool
}

func (b *sbody) Read(p []byte) (int, error) {
	b.reads++
	if b.advance {
		vsched.AdvanceQuiet(step)
	}
	if len(b.script) == 0 {
		return 0, io.EOF
	}
	c := &b.script[0]
	n := copy(p, c.data)
	c.data = c.data[n:]
	if len(c.data) > 0 {
		return n, nil
	}
	err := c.err
	if len(b.script) > 1 || err == nil || err == io.EOF {
		b.script = b.script[1:]
	}
	return n, err
}

func (b *sbody) Close() error { b.closed++; return b.closeErr }

type sbodyRW struct{ *sbody }

func (b sbodyRW) Write(p []byte) (int, error) { b.wrote += string(p); return len(p) - 1, errWrite }

var errWrite = errors.New("short write")
var errWrapEOF = fmt.Errorf("stream cut: %w", io.EOF) // an error, not the end of the body
var errBody = errors.New("connection reset")
var errRT = errors.New("dial failed")
var errClose = errors.New("close failed")

var clientKeys = []tag.Key{ochttp.KeyClientHost, ochttp.KeyClientPath, ochttp.KeyClientMethod, ochttp.KeyClientStatus, ochttp.Host, ochttp.Path, ochttp.Method, ochttp.StatusCode}

func clientMeasures() []stats.Measure {
	return []stats.Measure{ochttp.ClientRequestCount, ochttp.ClientRequestBytes, ochttp.ClientResponseBytes, ochttp.ClientLatency,
		ochttp.ClientSentBytes, ochttp.ClientReceivedBytes, ochttp.ClientRoundtripLatency}
}

func clientTags(r *http.Request) map[string]string {
	return map[string]string{"http_client_host": r.Host, "http.host": r.Host, "http_client_path": r.URL.Path, "http.path": r.URL.Path,
		"http_client_method": r.Method, "http.method": r.Method}
}

// spanOf renders an exported span without its identifiers.
func spanOf(d *trace.SpanData) string {
	ev := ""
	for _, e := range d.MessageEvents {
		ev += fmt.Sprintf("%d:%d/%d ", e.EventType, e.UncompressedByteSize, e.CompressedByteSize)
	}
	ln := ""
	for _, l := range d.Links {
		ln += fmt.Sprintf("%d:%s/%s ", l.Type, l.TraceID, l.SpanID)
	}
	return fmt.Sprintf("%q kind=%d parent=%s remote=%v status=%d %q %s..%s attrs{%s} events[%s] links[%s]", d.Name, d.SpanKind, d.ParentSpanID, d.HasRemoteParent, d.Code, d.Message, tm(d.StartTime), tm(d.EndTime), mapStr(d.Attributes), ev, ln)
}

type wantSpan struct {
	name       string
	kind       int
	parent     trace.SpanID
	remote     bool
	code       int32
	msg        string
	start, end int64
	attrs      map[string]interface{}
	events     string
	links      string
}

func (w *wantSpan) String() string {
	return fmt.Sprintf("%q kind=%d parent=%s remote=%v status=%d %q %d..%d attrs{%s} events[%s] links[%s]", w.name, w.kind, w.parent, w.remote, w.code, w.msg, w.start-vsched.Epoch, w.end-vsched.Epoch, mapStr(w.attrs), w.events, w.links)
}

// refStatus is the mapping of HTTP status codes to span status codes.
func refStatus(c int) (int32, string) {
	m := map[int]int32{499: 1, 400: 3, 422: 3, 504: 4, 404: 5, 403: 7, 401: 16, 429: 8, 501: 12, 503: 14, 409: 6, 200: 0}
	names := map[int32]string{0: "OK", 1: "CANCELLED", 2: "UNKNOWN", 3: "INVALID_ARGUMENT", 4: "DEADLINE_EXCEEDED", 5: "NOT_FOUND", 6: "ALREADY_EXISTS", 7: "PERMISSION_DENIED", 8: "RESOURCE_EXHAUSTED", 12: "UNIMPLEMENTED", 14: "UNAVAILABLE", 16: "UNAUTHENTICATED"}
	if k, ok := m[c]; ok {
		return k, names[k]
	}
	if c < 200 || c >= 400 {
		return 2, "UNKNOWN"
	}
	return 0, "OK"
}

func mustReq(method, u string, body io.Reader) *http.Request {
	r, err := http.NewRequest(method, u, body)
	if err != nil {
		vsched.Failf("request: %v", err)
	}
	return r
}

func reqAttrs(r *http.Request) map[string]interface{} {
	m := map[string]interface{}{"http.path": r.URL.Path, "http.url": r.URL.String(), "http.host": r.Host, "http.method": r.Method}
	if ua := r.Header.Get("User-Agent"); ua != "" {
		m["http.user_agent"] = ua
	}
	return m
}

// recFormat is a propagation format that notes what it was asked to write.
type recFormat struct {
	sc   []trace.SpanContext
	reqs []*http.Request
}

func (f *recFormat) SpanContextFromRequest(*http.Request) (trace.SpanContext, bool) {
	return trace.SpanContext{}, false
}
func (f *recFormat) SpanContextToRequest(sc trace.SpanContext, r *http.Request) {
	f.sc = append(f.sc, sc)
	f.reqs = append(f.reqs, r)
	r.Header.Set("X-Rec", sc.TraceID.String()+"-"+sc.SpanID.String())
}

func init() {
	setup := func() (*spanLog, *watcher) {
		vsched.Reinit()
		trace.ApplyConfig(trace.Config{DefaultSampler: trace.AlwaysSample(), IDGenerator: stampIDs{}})
		l := &spanLog{}
		trace.RegisterExporter(l)
		return l, watch(clientKeys, clientMeasures()...)
	}
	csetup := func() *watcher {
		l, w := setup()
		trace.UnregisterExporter(l)
		trace.RegisterExporter(freeLog{})
		return w
	}
	// every use a caller makes of a response body
	scripts := [][]chunk{
		nil,
		{{"", io.EOF}},
		{{"abc", nil}},
		{{"abc", io.EOF}},
		{{"abc", nil}, {"de", nil}},
		{{"abc", nil}, {"", nil}, {"de", io.EOF}},
		{{"", errBody}},
		{{"abc", errBody}},
		{{"abc", nil}, {"", errBody}},
		{{"", errBody}, {"abc", io.EOF}},
		{{"ab", errBody}, {"c", nil}, {"", io.EOF}},
		{{"ab", io.ErrUnexpectedEOF}},
		{{"", errWrapEOF}, {"ab", nil}},
	}
	type op struct {
		name string
		n    int // read size, -1 close, -2 write
	}
	ops := []op{{"read2", 2}, {"read16", 16}, {"close", -1}, {"read0", 0}, {"write", -2}}
	vh.Add(&vh.Task{Prop: "C29", Name: "bodies", Shards: [2]int{8, 8}, Weight: 4, Seq: func(s *vh.S) {
		depth := s.Pick(4, 6)
		for si, script := range scripts {
			for _, rw := range []bool{false, true} {
				for _, cl := range []int64{-1, 0, 5, 9} {
					for _, head := range []bool{false, true} {
						if head && cl < 5 {
							continue
						}
						nop := 4
						if rw {
							nop = 5
						}
						if cl == 9 && !s.Thorough && depth > 3 {
							depth = 3
						} else if !s.Thorough {
							depth = 4
						}
						s.Seqs(nop, depth, func(seq []int) {
							name := fmt.Sprintf("script %d rw %v length %d head %v:", si, rw, cl, head)
							for _, i := range seq {
								name += " " + ops[i].name
							}
							s.Exec(name, func() {
								l, w := setup()
								exp := w.model()
								cp := func() *sbody { return &sbody{script: append([]chunk(nil), script...), closeErr: errClose} }
								body, twin := cp(), cp()
								body.advance = true
								var rb io.ReadCloser = body
								if rw {
									rb = sbodyRW{body}
								}
								method := "GET"
								if head {
									method = "HEAD"
								}
								req := mustReq(method, "http://h:80/p?q=1", nil)
								t0 := vsched.Now()
								tr := &ochttp.Transport{Base: rtFunc(func(r *http.Request) (*http.Response, error) {
									vsched.AdvanceQuiet(5 * step)
									return &http.Response{StatusCode: 404, Status: "404 x", Body: rb, ContentLength: cl}, nil
								})}
								resp, err := tr.RoundTrip(req)
								if err != nil || resp == nil || resp.Body == nil {
									vsched.Failf("response %v %v", resp, err)
								}
								if resp.StatusCode != 404 || resp.Status != "404 x" || resp.ContentLength != cl {
									vsched.Failf("the response was changed: %+v", resp)
								}
								tags := clientTags(req)
								exp.add(ochttp.ClientRequestCount, tags, 1)
								_, isW := resp.Body.(io.Writer)
								if isW != rw {
									vsched.Failf("the body's write capability is %v, the original's %v", isW, rw)
								}
								ended := false
								code, msg := refStatus(404)
								want := ""
								var got int64
								end := func(at int64) {
									if ended {
										return
									}
									ended = true
									at2 := merge(tags, map[string]string{"http.status": "404", "http_client_status": "404"})
									rec := got
									if rec == 0 && cl > 0 && !head {
										rec = cl
									}
									exp.add(ochttp.ClientSentBytes, at2, 0)
									exp.add(ochttp.ClientReceivedBytes, at2, float64(rec))
									exp.add(ochttp.ClientResponseBytes, at2, float64(got))
									lat := float64(at-t0) / float64(ms1)
									exp.add(ochttp.ClientLatency, at2, lat)
									exp.add(ochttp.ClientRoundtripLatency, at2, lat)
									want = (&wantSpan{name: "/p", kind: 2, code: code, msg: msg, start: t0, end: at, attrs: func() map[string]interface{} {
										m := reqAttrs(req)
										m["http.status_code"] = int64(404)
										return m
									}()}).String()
								}
								for _, i := range seq {
									o := ops[i]
									switch {
									case o.n >= 0:
										p, q := make([]byte, o.n), make([]byte, o.n)
										n, err := resp.Body.Read(p)
										m, terr := twin.Read(q)
										if n != m || err != terr || string(p) != string(q) {
											vsched.Failf("read gave %d %q %v, the original body gives %d %q %v", n, p, err, m, q, terr)
										}
										got += int64(m)
										if terr == io.EOF {
											end(vsched.Now())
										} else if terr != nil && !ended {
											code, msg = 2, terr.Error()
										}
									case o.n == -1:
										if err := resp.Body.Close(); err != errClose {
											vsched.Failf("close gave %v", err)
										}
										twin.Close()
										end(vsched.Now())
									default:
										if n, err := resp.Body.(io.Writer).Write([]byte("xyz")); n != 2 || err != errWrite {
											vsched.Failf("write gave %d %v", n, err)
										}
										twin.wrote += "xyz"
									}
									if body.reads != twin.reads || body.closed != twin.closed || body.wrote != twin.wrote {
										vsched.Failf("the body saw %d reads %d closes wrote %q, want %d %d %q", body.reads, body.closed, body.wrote, twin.reads, twin.closed, twin.wrote)
									}
									gs := ""
									for _, d := range l.got {
										gs += spanOf(d)
									}
									if gs != want {
										vsched.Failf("spans after %s:\ngot  %s\nwant %s", o.name, gs, want)
									}
								}
								if d := diff(w.all(), exp.all()); d != "" {
									vsched.Failf("statistics:\n%s", d)
								}
								s.Outcome("ended %v bytes %d status %d", ended, got, code)
								s.Sample("%s -> %s", name, want)
							})
							s.Case(len(seq))
						})
					}
				}
			}
		}
	}})

	// every shape of request and outcome
	vh.Add(&vh.Task{Prop: "C29", Name: "requests", Shards: [2]int{8, 8}, Weight: 4, Seq: func(s *vh.S) {
		paths := []string{"/p", "", "/healthz", "/_ah/health", "/healthz/", "/a%20b", "/_ah/healthz"}
		methods := []string{"GET", "POST", "HEAD", "PUT"}
		bodies := []string{"nil", "sized", "unsized", "nobody"}
		parents := []string{"none", "sampled", "unsampled"}
		outs := []string{"error", "200", "503", "204 nil body", "101 rw"}
		formats := []string{"default", "b3", "tracecontext", "rec"}
		opts := []string{"none", "always", "never", "get", "ignored"}
		extra := []string{"plain", "formatter+trace", "headers", "empty header", "nil header"}
		for _, path := range paths {
			for _, method := range methods {
				for _, bd := range bodies {
					for _, par := range parents {
						for _, out := range outs {
							for _, fm := range formats {
								for _, so := range opts {
									for _, ex := range extra {
										if !s.Thorough && path != "/p" && (fm != "default" && fm != "rec" || so == "get" || so == "ignored" || method == "PUT" || strings.HasSuffix(ex, " header")) {
											continue
										}
										if !s.Mine() {
											continue
										}
										if s.Stop() {
											return
										}
										name := fmt.Sprintf("path %q %s body %s parent %s -> %s format %s options %s %s", path, method, bd, par, out, fm, so, ex)
										s.Exec(name, func() { c29request(s, setup, path, method, bd, par, out, fm, so, ex) })
										s.Case(1)
									}
								}
							}
						}
					}
				}
			}
		}
	}})

	vh.Add(&vh.Task{Prop: "C29", Name: "status", Seq: func(s *vh.S) {
		for c := -1; c <= 1100; c++ {
			if s.Stop() {
				return
			}
			name := fmt.Sprintf("status %d", c)
			s.Guard(name, func() {
				st := ochttp.TraceStatus(c, "line")
				if k, m := refStatus(c); st.Code != k || st.Message != m {
					s.Failf(name, "mapped to %d %q, want %d %q", st.Code, st.Message, k, m)
				}
			})
			s.Outcome("%d", ochttp.TraceStatus(c, "").Code)
			s.Case(1)
		}
	}})

	// URLs and hosts that are hard to render; oversized and unprintable tag values
	vh.Add(&vh.Task{Prop: "C29", Name: "values", Seq: func(s *vh.S) {
		long := "/" + strings.Repeat("x", 300)
		for _, path := range []string{"/p", long, "/é", "/\x01", "/" + strings.Repeat("y", 254)} {
			for _, host := range []string{"", "h", "h:80", strings.Repeat("h", 256), "h\u00e9"} {
				for _, method := range []string{"", "GET", "é"} {
					if !s.Mine() {
						continue
					}
					name := fmt.Sprintf("path %q host %q method %q", path, host, method)
					s.Exec(name, func() {
						l, w := setup()
						req := &http.Request{Method: method, URL: &url.URL{Scheme: "http", Host: "u", Path: path}, Host: host, Header: http.Header{}}
						tr := &ochttp.Transport{Base: rtFunc(func(r *http.Request) (*http.Response, error) {
							return &http.Response{StatusCode: 200, Body: http.NoBody}, nil
						})}
						resp, err := tr.RoundTrip(req)
						if err != nil {
							vsched.Failf("%v", err)
						}
						resp.Body.Close()
						if len(l.got) != 1 || l.got[0].Attributes["http.path"] != path || l.got[0].Attributes["http.host"] != host || l.got[0].Attributes["http.method"] != method {
							vsched.Failf("spans %v", l.got)
						}
						// invalid tag values cannot be recorded, the request must be counted all the same
						for i := range w.names {
							if r := w.rows(i); w.short[i] != "request_bytes" && !strings.Contains(r, "n=1 ") || strings.Contains(r, ";") {
								vsched.Failf("%s: %s", w.short[i], r)
							}
							if ok := func(v string) bool {
								if len(v) > 255 {
									return false
								}
								for _, c := range []byte(v) {
									if c < 32 || c > 126 {
										return false
									}
								}
								return true
							}; ok(path) && ok(host) && ok(method) && w.short[i] != "request_bytes" && !strings.Contains(w.rows(i), tagStr(map[string]string{"http_client_path": path})) {
								vsched.Failf("%s: %s", w.short[i], w.rows(i))
							}
						}
						s.Outcome("%d", len(w.all()))
					})
					s.Case(1)
				}
			}
		}
	}})

	// concurrent requests through one transport
	vh.Add(&vh.Task{Prop: "C29", Name: "concurrent", Race: true, Bound: [2]int{3, 5}, Shards: [2]int{8, 8}, Body: func() {
		l, w := freeLog{}, csetup()
		exp := w.model()
		tr := &ochttp.Transport{}
		// the second request is not sampled, and every request has a name of its own
		tr.GetStartOptions = func(r *http.Request) trace.StartOptions {
			if r.ContentLength == 2 {
				return trace.StartOptions{Sampler: trace.NeverSample()}
			}
			return trace.StartOptions{}
		}
		tr.FormatSpanName = func(r *http.Request) string { return fmt.Sprint("req", r.ContentLength) }
		tr.Base = rtFunc(func(r *http.Request) (*http.Response, error) {
			if sc := trace.FromContext(r.Context()).SpanContext(); sc.IsSampled() != (r.ContentLength == 1) {
				vsched.Failf("request %d started with another request's options", r.ContentLength)
			}
			if r.Header.Get("X-B3-SpanId") != trace.FromContext(r.Context()).SpanContext().SpanID.String() {
				vsched.Failf("wire request carries another span")
			}
			vsched.Yield()
			n := int(r.ContentLength)
			return &http.Response{StatusCode: 200 + n, ContentLength: -1, Body: &sbody{script: []chunk{{strings.Repeat("x", n), nil}, {"y", nil}}}}, nil
		})
		hdr := http.Header{"X-A": {"1"}}
		vsched.Explore(true)
		var gs []*vsched.G
		for i := 1; i <= 2; i++ {
			i := i
			gs = append(gs, vsched.Thread(fmt.Sprint("req", i), func() {
				req := mustReq("GET", "http://h/p", strings.NewReader(strings.Repeat("z", i)))
				req.Header = hdr // callers may share what they do not write
				resp, err := tr.RoundTrip(req)
				if err != nil {
					vsched.Failf("%v", err)
				}
				b, err := io.ReadAll(resp.Body)
				if err != nil || len(b) != i+1 {
					vsched.Failf("body %q %v", b, err)
				}
				resp.Body.Close()
			}))
		}
		vsched.Join(gs...)
		vsched.Explore(false)
		req := mustReq("GET", "http://h/p", nil)
		for i := 1; i <= 2; i++ {
			exp.add(ochttp.ClientRequestCount, clientTags(req), 1)
			at := merge(clientTags(req), map[string]string{"http.status": strconv.Itoa(200 + i), "http_client_status": strconv.Itoa(200 + i)})
			for _, m := range []stats.Measure{ochttp.ClientSentBytes, ochttp.ClientRequestBytes} {
				exp.add(m, at, float64(i))
			}
			for _, m := range []stats.Measure{ochttp.ClientReceivedBytes, ochttp.ClientResponseBytes} {
				exp.add(m, at, float64(i+1))
			}
			exp.add(ochttp.ClientLatency, at, 0)
			exp.add(ochttp.ClientRoundtripLatency, at, 0)
		}
		if d := diff(w.all(), exp.all()); d != "" {
			vsched.Failf("statistics:\n%s", d)
		}
		if ls := l.spans(); len(ls) != 1 || ls[0].Name != "req1" {
			vsched.Failf("spans %v", ls)
		}
	}})

	// a body closed while it is read
	vh.Add(&vh.Task{Prop: "C29", Name: "close-while-reading", Race: true, Bound: [2]int{99, 99}, Shards: [2]int{8, 8}, Body: func() {
		l, w := freeLog{}, csetup()
		tr := &ochttp.Transport{Base: rtFunc(func(r *http.Request) (*http.Response, error) {
			return &http.Response{StatusCode: 200, ContentLength: -1, Body: &slowBody{}}, nil
		})}
		resp, err := tr.RoundTrip(mustReq("GET", "http://h/p", nil))
		if err != nil {
			vsched.Failf("%v", err)
		}
		vsched.Explore(true)
		var n int
		a := vsched.Thread("read", func() {
			var p [4]byte
			for k := 0; k < 3; k++ {
				m, err := resp.Body.Read(p[:])
				n += m
				if err != nil {
					break
				}
			}
		})
		b := vsched.Thread("close", func() { resp.Body.Close() })
		c := vsched.Thread("close2", func() { resp.Body.Close() })
		vsched.Join(a, b, c)
		vsched.Explore(false)
		if len(l.spans()) != 1 {
			vsched.Failf("%d spans", len(l.spans()))
		}
		for i := range w.names {
			r := w.rows(i)
			if w.short[i] == "request_bytes" {
				continue
			}
			if !strings.Contains(r, "n=1 ") || strings.Contains(r, ";") {
				vsched.Failf("%s: %s", w.short[i], r)
			}
			if w.short[i] == "received_bytes" {
				ok := false
				for k := 0; k <= n; k++ {
					ok = ok || strings.Contains(r, "sum="+num(float64(k)))
				}
				if !ok {
					vsched.Failf("%s of %d bytes: %s", w.short[i], n, r)
				}
				vsched.Outcome("read %d %s", n, r[strings.Index(r, "sum="):])
			}
		}
	}})
}

// slowBody gives two bytes per read, and end of file after the second; it may be used concurrently.
type slowBody struct{}

func (b *slowBody) Read(p []byte) (int, error) {
	vsched.Yield()
	return 2, nil
}
func (b *slowBody) Close() error { return nil }

func c29request(s *vh.S, setup func() (*spanLog, *watcher), path, method, bd, par, out, fm, so, ex string) {
	l, w := setup()
	exp := w.model()
	var body io.Reader
	size := int64(0)
	switch bd {
	case "sized":
		body, size = strings.NewReader("12345"), 5
	case "unsized":
		body = &sbody{script: []chunk{{"1234567", io.EOF}}}
	case "nobody":
		body = http.NoBody
	}
	req := mustReq(method, "http://h:80"+path+"?q=1", body)
	if bd == "nobody" {
		req.Body = http.NoBody
	}
	if bd == "unsized" {
		req.ContentLength = -1
	}
	req.Header.Set("User-Agent", "ua/1")
	if ex == "headers" {
		req.Header.Del("User-Agent")
		req.Header["X-Multi"] = append(make([]string, 0, 8), "a", "b")
		req.Header["X-B3-Traceid"] = []string{"stale"}
		req.Header["Traceparent"] = []string{"stale"}
		req.Header["X-Rec"] = []string{"stale"}
	}
	switch ex {
	case "empty header":
		req.Header = http.Header{}
	case "nil header":
		req.Header = nil
	}
	ctx := context.WithValue(bg, ctxKey{}, "v")
	ctx, _ = tag.New(ctx, tag.Upsert(tag.MustNewKey("mine"), "x"))
	var parent *trace.Span
	switch par {
	case "sampled":
		ctx, parent = trace.StartSpan(ctx, "parent")
	case "unsampled":
		ctx, parent = trace.StartSpan(ctx, "parent", trace.WithSampler(trace.NeverSample()))
	}
	req = req.WithContext(ctx)
	before := *req
	hdr := req.Header.Clone()

	tr := &ochttp.Transport{}
	rec := &recFormat{}
	var format propagation.HTTPFormat
	switch fm {
	case "b3":
		format = &b3.HTTPFormat{}
	case "tracecontext":
		format = &tracecontext.HTTPFormat{}
	case "rec":
		format = rec
	}
	tr.Propagation = format
	sampled := par != "unsampled"
	calls := ""
	switch so {
	case "always":
		tr.StartOptions = trace.StartOptions{Sampler: trace.AlwaysSample(), SpanKind: trace.SpanKindServer}
		sampled = true
	case "never":
		tr.StartOptions.Sampler = trace.NeverSample()
		sampled = false
	case "get":
		tr.StartOptions.Sampler = trace.NeverSample() // to be ignored
		tr.GetStartOptions = func(r *http.Request) trace.StartOptions {
			calls += "opts "
			return trace.StartOptions{Sampler: trace.AlwaysSample(), SpanKind: trace.SpanKindServer}
		}
		sampled = true
	case "ignored":
		tr.StartOptions.Sampler = trace.AlwaysSample() // to be ignored
		tr.GetStartOptions = func(r *http.Request) trace.StartOptions { calls += "opts "; return trace.StartOptions{} }
	}
	health := path == "/healthz" || path == "/_ah/health"
	name := req.URL.Path
	var traced *trace.Span
	if ex == "formatter+trace" {
		name = "named " + method
		tr.FormatSpanName = func(r *http.Request) string { calls += "name "; return "named " + r.Method }
		tr.NewClientTrace = func(r *http.Request, sp *trace.Span) *httptrace.ClientTrace {
			calls += "trace "
			traced = sp
			return &httptrace.ClientTrace{GetConn: func(hp string) { calls += "getconn:" + hp + " " }}
		}
	}
	status, content := 0, int64(-1)
	var rbody io.ReadCloser
	switch out {
	case "200":
		status, content, rbody = 200, 3, &sbody{script: []chunk{{"abc", nil}}}
	case "503":
		status, content, rbody = 503, -1, &sbody{script: []chunk{{"", io.EOF}}}
	case "204 nil body":
		status, content = 204, 0
	case "101 rw":
		status, content, rbody = 101, -1, sbodyRW{&sbody{script: []chunk{{"abcd", nil}}}}
	}
	origResp := &http.Response{StatusCode: status, Status: "line", Body: rbody, ContentLength: content, Header: http.Header{"A": {"b"}}}
	var wire *http.Request
	var wireSpan *trace.Span
	nrt := 0
	base := &cancelRT{rtFunc: func(r *http.Request) (*http.Response, error) {
		nrt++
		wire = r
		wireSpan = trace.FromContext(r.Context())
		if ct := httptrace.ContextClientTrace(r.Context()); ct != nil && ct.GetConn != nil {
			ct.GetConn("hp")
		}
		vsched.AdvanceQuiet(3 * step)
		if out == "error" {
			return nil, errRT
		}
		return origResp, nil
	}}
	tr.Base = base
	t0 := vsched.Now()
	resp, err := tr.RoundTrip(req)

	// the caller's request is as it was
	if !reflect.DeepEqual(req.Header, hdr) || req.Body != before.Body || req.URL != before.URL || req.Context() != before.Context() || req.Host != before.Host || req.Method != before.Method || req.ContentLength != before.ContentLength {
		vsched.Failf("the caller's request was modified: %+v, was %+v", req, before)
	}
	if ex == "headers" {
		if m := req.Header["X-Multi"][:4]; m[2] != "" || m[3] != "" {
			vsched.Failf("the caller's header storage was written: %q", m)
		}
	}
	if nrt != 1 {
		vsched.Failf("%d round trips", nrt)
	}
	if out == "error" {
		if err != errRT || resp != nil {
			vsched.Failf("got %v %v, want the transport's error", resp, err)
		}
	} else if err != nil || resp == nil || resp.StatusCode != status || resp.Status != "line" || resp.ContentLength != content || resp.Header.Get("A") != "b" {
		vsched.Failf("got %+v %v", resp, err)
	}
	// the wire request is the caller's plus the propagation header
	if wire.Method != req.Method || wire.URL.String() != req.URL.String() || wire.Host != req.Host || wire.ContentLength != req.ContentLength || wire.Body != req.Body {
		vsched.Failf("wire request %+v", wire)
	}
	if wire.Context().Value(ctxKey{}) != "v" {
		vsched.Failf("the caller's context values are lost")
	}
	if v, _ := tag.FromContext(wire.Context()).Value(tag.MustNewKey("mine")); v != "x" {
		vsched.Failf("the caller's tags are lost")
	}
	for _, t := range []struct {
		k tag.Key
		v string
	}{{ochttp.KeyClientMethod, req.Method}, {ochttp.KeyClientHost, req.Host}, {ochttp.KeyClientPath, req.URL.Path}} {
		if v, ok := tag.FromContext(wire.Context()).Value(t.k); !health && (!ok || v != t.v) {
			vsched.Failf("the request is sent with tag %s %q, want %q", t.k.Name(), v, t.v)
		}
	}
	for k, v := range hdr {
		if k == "X-B3-Traceid" || k == "Traceparent" || k == "X-Rec" {
			continue
		}
		if !reflect.DeepEqual(wire.Header[k], v) {
			vsched.Failf("header %s is %q on the wire", k, wire.Header[k])
		}
	}
	if health {
		if wireSpan != parent || len(l.got) != 0 || calls != "" && calls != "opts " || len(rec.sc) != 0 {
			vsched.Failf("health request traced: %v %v %q", wireSpan, l.got, calls)
		}
		if !reflect.DeepEqual(wire.Header, hdr) {
			vsched.Failf("health request headers %v", wire.Header)
		}
		if resp != nil && resp.Body != rbody {
			vsched.Failf("health request body wrapped")
		}
		if d := diff(w.all(), exp.all()); d != "" {
			vsched.Failf("statistics of a health request:\n%s", d)
		}
		s.Outcome("health %s", out)
		return
	}
	if wireSpan == nil || wireSpan == parent {
		vsched.Failf("no span in the wire request's context")
	}
	sc := wireSpan.SpanContext()
	if sc.IsSampled() != sampled {
		vsched.Failf("sampled %v, want %v", sc.IsSampled(), sampled)
	}
	if parent != nil && sc.TraceID != parent.SpanContext().TraceID {
		vsched.Failf("not in the parent's trace")
	}
	flag := "0"
	if sampled {
		flag = "1"
	}
	switch fm {
	case "default", "b3":
		if wire.Header.Get("X-B3-TraceId") != sc.TraceID.String() || wire.Header.Get("X-B3-SpanId") != sc.SpanID.String() || wire.Header.Get("X-B3-Sampled") != flag {
			vsched.Failf("wire headers %v for %v", wire.Header, sc)
		}
	case "tracecontext":
		if wire.Header.Get("Traceparent") != "00-"+sc.TraceID.String()+"-"+sc.SpanID.String()+"-0"+flag {
			vsched.Failf("wire headers %v for %v", wire.Header, sc)
		}
	case "rec":
		if len(rec.sc) != 1 || !reflect.DeepEqual(rec.sc[0], sc) || rec.reqs[0] != wire || wire.Header.Get("X-Rec") != sc.TraceID.String()+"-"+sc.SpanID.String() {
			vsched.Failf("format used %v, header %v", rec.sc, wire.Header)
		}
	}
	for _, x := range [][2]string{{"opts ", "get ignored"}, {"name ", ""}, {"trace ", ""}, {"getconn:hp ", ""}} {
		want := 0
		if x[1] == "" && ex == "formatter+trace" || x[1] != "" && (so == "get" || so == "ignored") {
			want = 1
		}
		if strings.Count(calls, x[0]) != want {
			vsched.Failf("%q called %d times, want %d", x[0], strings.Count(calls, x[0]), want)
		}
	}
	if ex == "formatter+trace" && traced != wireSpan {
		vsched.Failf("the client trace got another span")
	}
	// consume
	gotBytes := int64(0)
	if resp != nil {
		if rbody == nil {
			if resp.Body != nil {
				// whatever stands in for it must be usable
				p := make([]byte, 4)
				if n, err := resp.Body.Read(p); n != 0 || err != io.EOF {
					vsched.Failf("read of a missing body gave %d %v", n, err)
				}
				resp.Body.Close()
			}
		} else {
			vsched.AdvanceQuiet(2 * step)
			b, err := io.ReadAll(resp.Body)
			gotBytes = int64(len(b))
			if err != nil {
				vsched.Failf("read: %v", err)
			}
			vsched.AdvanceQuiet(step)
			resp.Body.Close()
		}
	}
	endAt := t0 + 3*step
	if rbody != nil {
		endAt += 2 * step
	}
	st := strconv.Itoa(status)
	attrs := reqAttrs(req)
	code, msg := refStatus(status)
	if out == "error" {
		st = "500"
		code, msg = 2, errRT.Error()
	} else {
		attrs["http.status_code"] = int64(status)
	}
	tags := merge(clientTags(req))
	exp.add(ochttp.ClientRequestCount, tags, 1)
	at := merge(tags, map[string]string{"http.status": st, "http_client_status": st})
	exp.add(ochttp.ClientSentBytes, at, float64(size))
	if bd != "nil" {
		exp.add(ochttp.ClientRequestBytes, at, float64(size))
	}
	recv := gotBytes
	exp.add(ochttp.ClientResponseBytes, at, float64(gotBytes))
	exp.add(ochttp.ClientReceivedBytes, at, float64(recv))
	lat := float64(endAt-t0) / float64(ms1)
	exp.add(ochttp.ClientLatency, at, lat)
	exp.add(ochttp.ClientRoundtripLatency, at, lat)
	if d := diff(w.all(), exp.all()); d != "" {
		vsched.Failf("statistics:\n%s", d)
	}
	gs, want := "", ""
	for _, d := range l.got {
		gs += spanOf(d)
		if d.SpanContext.SpanID != sc.SpanID {
			vsched.Failf("exported span %v, wire %v", d.SpanContext, sc)
		}
	}
	if sampled {
		ws := &wantSpan{name: name, kind: 2, code: code, msg: msg, start: t0, end: endAt, attrs: attrs}
		if parent != nil {
			ws.parent = parent.SpanContext().SpanID
		}
		want = ws.String()
	}
	if gs != want {
		vsched.Failf("spans:\ngot  %s\nwant %s", gs, want)
	}
	tr.CancelRequest(req)
	if len(base.cancelled) != 1 || base.cancelled[0] != req {
		vsched.Failf("cancellation not forwarded: %v", base.cancelled)
	}
	s.Outcome("%s %s sampled=%v bytes=%d/%d", out, method, sampled, size, gotBytes)
}

type ctxKey struct{}
