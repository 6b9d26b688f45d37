package main

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptrace"
	"strings"
	"time"

	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/trace"
)

// hook is one connection event and the annotation it must leave.
type hook struct {
	name  string
	fire  func(t *httptrace.ClientTrace)
	msg   string
	attrs map[string]interface{}
}

func hooks() []hook {
	e := errors.New("no route")
	type m = map[string]interface{}
	var hs []hook
	add := func(name string, fire func(t *httptrace.ClientTrace), msg string, attrs m) {
		hs = append(hs, hook{name, fire, msg, attrs})
	}
	add("get", func(t *httptrace.ClientTrace) { t.GetConn("h:80") }, "GetConn", m{"httptrace.get_connection.host_port": "h:80"})
	add("get nothing", func(t *httptrace.ClientTrace) { t.GetConn("") }, "GetConn", m{"httptrace.get_connection.host_port": ""})
	for _, reused := range []bool{false, true} {
		for _, idle := range []bool{false, true} {
			in := httptrace.GotConnInfo{Reused: reused, WasIdle: idle, IdleTime: 1500 * time.Millisecond}
			a := m{"httptrace.got_connection.reused": reused, "httptrace.got_connection.was_idle": idle}
			if idle {
				a["httptrace.got_connection.idle_time"] = "1.5s"
			}
			add(fmt.Sprint("got ", reused, idle), func(t *httptrace.ClientTrace) { t.GotConn(in) }, "GotConn", a)
		}
	}
	for _, err := range []error{nil, e} {
		err := err
		with := func(k string, a m) m {
			if err != nil {
				a[k] = "no route"
			}
			return a
		}
		n := fmt.Sprint(" ", err)
		add("put"+n, func(t *httptrace.ClientTrace) { t.PutIdleConn(err) }, "PutIdleConn", with("httptrace.put_idle_connection.error", m{}))
		add("tls done"+n, func(t *httptrace.ClientTrace) { t.TLSHandshakeDone(tls.ConnectionState{}, err) }, "TLSHandshakeDone", with("httptrace.tls_handshake_done.error", m{}))
		add("wrote"+n, func(t *httptrace.ClientTrace) { t.WroteRequest(httptrace.WroteRequestInfo{Err: err}) }, "WroteRequest", with("httptrace.wrote_request.error", m{}))
		add("connected"+n, func(t *httptrace.ClientTrace) { t.ConnectDone("tcp6", "[::1]:443", err) }, "ConnectDone",
			with("httptrace.connect_done.error", m{"httptrace.connect_done.network": "tcp6", "httptrace.connect_done.addr": "[::1]:443"}))
		for _, k := range []int{0, 1, 3} {
			var as []net.IPAddr
			var want []string
			for i := 0; i < k; i++ {
				as = append(as, net.IPAddr{IP: net.IPv4(10, 0, 0, byte(i))})
				want = append(want, fmt.Sprint("10.0.0.", i))
			}
			add(fmt.Sprint("dns done ", k, n), func(t *httptrace.ClientTrace) { t.DNSDone(httptrace.DNSDoneInfo{Addrs: as, Err: err}) }, "DNSDone",
				with("httptrace.dns_done.error", m{"httptrace.dns_done.addrs": strings.Join(want, " , ")}))
		}
	}
	add("dns", func(t *httptrace.ClientTrace) { t.DNSStart(httptrace.DNSStartInfo{Host: "h"}) }, "DNSStart", m{"httptrace.dns_start.host": "h"})
	add("connect", func(t *httptrace.ClientTrace) { t.ConnectStart("tcp", "10.0.0.1:80") }, "ConnectStart", m{"httptrace.connect_start.network": "tcp", "httptrace.connect_start.addr": "10.0.0.1:80"})
	add("first byte", func(t *httptrace.ClientTrace) { t.GotFirstResponseByte() }, "GotFirstResponseByte", m{})
	add("100", func(t *httptrace.ClientTrace) { t.Got100Continue() }, "Got100Continue", m{})
	add("wait 100", func(t *httptrace.ClientTrace) { t.Wait100Continue() }, "Wait100Continue", m{})
	add("tls", func(t *httptrace.ClientTrace) { t.TLSHandshakeStart() }, "TLSHandshakeStart", m{})
	add("headers", func(t *httptrace.ClientTrace) { t.WroteHeaders() }, "WroteHeaders", m{})
	return hs
}

func annStr(a trace.Annotation) string { return tm(a.Time) + " " + a.Message + " " + mapStr(a.Attributes) }

func init() {
	setup := func() *spanLog {
		vsched.Reinit()
		l := &spanLog{}
		trace.RegisterExporter(l)
		trace.ApplyConfig(trace.Config{DefaultSampler: trace.AlwaysSample(), IDGenerator: stampIDs{}})
		return l
	}
	hs := hooks()
	newTrace := []func(r *http.Request, s *trace.Span) *httptrace.ClientTrace{ochttp.NewSpanAnnotatingClientTrace, ochttp.NewSpanAnnotator}
	vh.Add(&vh.Task{Prop: "C35", Name: "histories", Shards: [2]int{8, 8}, Seq: func(s *vh.S) {
		run := func(seq []int, lim, which int, mode string) {
			name := fmt.Sprint(mode, " limit ", lim, ": ")
			for _, i := range seq {
				if i == len(hs) {
					name += "end; "
				} else {
					name += hs[i].name + "; "
				}
			}
			s.Exec(name, func() {
				l := setup()
				trace.ApplyConfig(trace.Config{MaxAnnotationEventsPerSpan: lim})
				var sp *trace.Span
				switch mode {
				case "sampled":
					_, sp = trace.StartSpan(bg, "x")
				case "unsampled":
					_, sp = trace.StartSpan(bg, "x", trace.WithSampler(trace.NeverSample()))
				}
				ct := newTrace[which](nil, sp)
				var want []string
				drop, ended := 0, false
				for _, i := range seq {
					vsched.AdvanceQuiet(1000)
					if i == len(hs) {
						sp.End()
						ended = true
						continue
					}
					hs[i].fire(ct)
					if !ended {
						want = append(want, fmt.Sprint(vsched.Now()-vsched.Epoch)+" "+hs[i].msg+" "+mapStr(hs[i].attrs))
						if len(want) > lim {
							want = want[1:]
							drop++
						}
					}
				}
				sp.End()
				if mode != "sampled" {
					if len(l.got) != 0 {
						vsched.Failf("%d spans exported", len(l.got))
					}
					return
				}
				if len(l.got) != 1 {
					vsched.Failf("%d spans exported", len(l.got))
				}
				d := l.got[0]
				var got []string
				for _, a := range d.Annotations {
					got = append(got, annStr(a))
				}
				if g, w := strings.Join(got, "\n"), strings.Join(want, "\n"); g != w || d.DroppedAnnotationCount != drop {
					vsched.Failf("annotations\n%s\n%d dropped, want\n%s\n%d dropped", g, d.DroppedAnnotationCount, w, drop)
				}
				if len(d.Attributes) != 0 || len(d.MessageEvents) != 0 || len(d.Links) != 0 || d.Status != (trace.Status{}) || d.Name != "x" {
					vsched.Failf("more than annotations on the span: %+v", d)
				}
				s.Outcome("%d %d", len(got), drop)
				s.Sample("%s", name)
			})
			s.Case(len(seq))
		}
		for d := 0; d <= s.Pick(3, 4); d++ {
			s.Seqs(len(hs)+1, d, func(seq []int) {
				run(seq, 32, len(seq)&1, "sampled")
				if d <= 2 {
					for _, m := range []string{"sampled", "unsampled", "nil"} {
						run(seq, 32, 0, m)
						run(seq, 1, 1, m)
					}
				}
			})
		}
	}})

	// through the transport, with the request's own client trace kept
	vh.Add(&vh.Task{Prop: "C35", Name: "transport", Shards: [2]int{8, 8}, Seq: func(s *vh.S) {
		s.Seqs(len(hs), 2, func(seq []int) {
			for _, own := range []bool{false, true} {
				for _, fails := range []bool{false, true} {
					name := fmt.Sprintf("%s; %s; own trace %v, failing %v", hs[seq[0]].name, hs[seq[1]].name, own, fails)
					s.Exec(name, func() {
						l := setup()
						mine := 0
						var reqs []*http.Request
						tr := &ochttp.Transport{NewClientTrace: func(r *http.Request, sp *trace.Span) *httptrace.ClientTrace {
							reqs = append(reqs, r)
							return ochttp.NewSpanAnnotatingClientTrace(r, sp)
						}}
						tr.Base = rtFunc(func(r *http.Request) (*http.Response, error) {
							ct := httptrace.ContextClientTrace(r.Context())
							for _, i := range seq {
								hs[i].fire(ct)
							}
							if fails {
								return nil, errRT
							}
							return &http.Response{StatusCode: 200, Body: io.NopCloser(strings.NewReader(""))}, nil
						})
						ctx := context.Context(bg)
						if own {
							ctx = httptrace.WithClientTrace(ctx, &httptrace.ClientTrace{GetConn: func(string) { mine++ }, WroteHeaders: func() { mine++ }})
						}
						req := mustReq("GET", "http://h/p", nil).WithContext(ctx)
						resp, err := tr.RoundTrip(req)
						if (err != nil) != fails {
							vsched.Failf("%v", err)
						}
						if err == nil {
							resp.Body.Close()
						}
						wantMine := 0
						for _, i := range seq {
							if own && (hs[i].msg == "GetConn" || hs[i].msg == "WroteHeaders") {
								wantMine++
							}
						}
						if mine != wantMine || len(l.got) != 1 || len(reqs) != 1 {
							vsched.Failf("%d calls of the caller's trace, want %d; %d spans, %d traces made", mine, wantMine, len(l.got), len(reqs))
						}
						as := l.got[0].Annotations
						if len(as) != 2 {
							vsched.Failf("annotations %v", as)
						}
						for k, i := range seq {
							if as[k].Message != hs[i].msg || mapStr(as[k].Attributes) != mapStr(hs[i].attrs) {
								vsched.Failf("annotation %d: %s", k, annStr(as[k]))
							}
						}
						s.Outcome("%s %s", as[0].Message, as[1].Message)
					})
					s.Case(2)
				}
			}
		})
	}})

	// events of one request delivered by several goroutines, and after its end
	byName := map[string]hook{}
	for _, h := range hs {
		byName[h.name] = h
	}
	vh.Add(&vh.Task{Prop: "C35", Name: "concurrent", Race: true, Bound: [2]int{4, 99}, Shards: [2]int{8, 8}, Body: func() {
		vsched.Reinit()
		trace.RegisterExporter(freeLog{})
		trace.ApplyConfig(trace.Config{DefaultSampler: trace.AlwaysSample(), IDGenerator: stampIDs{}})
		_, sp := trace.StartSpan(bg, "x")
		ct := ochttp.NewSpanAnnotatingClientTrace(nil, sp)
		progs := [][]string{{"connect", "connected <nil>"}, {"connected no route"}, {"dns"}}
		vsched.Explore(true)
		var ths []*vsched.G
		ends := make([][]int64, len(progs))
		starts := make([][]int64, len(progs))
		for i, p := range progs {
			i, p := i, p
			ths = append(ths, vsched.Thread(fmt.Sprint("hooks ", i), func() {
				for _, n := range p {
					starts[i] = append(starts[i], vsched.StampI())
					byName[n].fire(ct)
					ends[i] = append(ends[i], vsched.StampR())
				}
			}))
		}
		var e0, e1 int64
		ths = append(ths, vsched.Thread("end", func() {
			e0 = vsched.StampI()
			sp.End()
			e1 = vsched.StampR()
		}))
		vsched.Join(ths...)
		ds := freeLog{}.spans()
		if len(ds) != 1 {
			vsched.Failf("%d spans", len(ds))
		}
		left := map[string]int{}
		for _, a := range ds[0].Annotations {
			left[a.Message+" "+mapStr(a.Attributes)]++
		}
		out := ""
		for _, n := range []string{"connect", "connected <nil>", "connected no route", "dns"} {
			min, max := 0, 0
			for i, p := range progs {
				for j, m := range p {
					if m == n {
						if ends[i][j] < e0 {
							min++
						}
						if starts[i][j] < e1 {
							max++
						}
					}
				}
			}
			k := byName[n].msg + " " + mapStr(byName[n].attrs)
			if left[k] < min || left[k] > max {
				vsched.Failf("%d annotations %s, want %d to %d", left[k], k, min, max)
			}
			out += fmt.Sprint(left[k])
			delete(left, k)
		}
		if len(left) != 0 {
			vsched.Failf("more annotations: %v", left)
		}
		vsched.Outcome("%s", out)
	}})
}
