package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/plugin/ocgrpc"
	ocstats "go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/stats"
	"google.golang.org/grpc/status"
)

type grpcSide struct {
	client                                   bool
	h                                        stats.Handler
	started, sentN, sentB, recvN, recvB, lat ocstats.Measure
	methodKey, statusKey                     string
	w                                        *watcher
	exp                                      *expRows
}

// grpcSides watches both handlers; call after Reinit.
func grpcSides() [2]*grpcSide {
	c := &grpcSide{client: true, h: &ocgrpc.ClientHandler{}, started: ocgrpc.ClientStartedRPCs, sentN: ocgrpc.ClientSentMessagesPerRPC, sentB: ocgrpc.ClientSentBytesPerRPC,
		recvN: ocgrpc.ClientReceivedMessagesPerRPC, recvB: ocgrpc.ClientReceivedBytesPerRPC, lat: ocgrpc.ClientRoundtripLatency, methodKey: "grpc_client_method", statusKey: "grpc_client_status"}
	s := &grpcSide{h: &ocgrpc.ServerHandler{}, started: ocgrpc.ServerStartedRPCs, sentN: ocgrpc.ServerSentMessagesPerRPC, sentB: ocgrpc.ServerSentBytesPerRPC,
		recvN: ocgrpc.ServerReceivedMessagesPerRPC, recvB: ocgrpc.ServerReceivedBytesPerRPC, lat: ocgrpc.ServerLatency, methodKey: "grpc_server_method", statusKey: "grpc_server_status"}
	for _, x := range []*grpcSide{c, s} {
		keys := []tag.Key{ocgrpc.KeyClientMethod, ocgrpc.KeyClientStatus}
		if !x.client {
			keys = []tag.Key{ocgrpc.KeyServerMethod, ocgrpc.KeyServerStatus}
		}
		x.w = watch(keys, x.started, x.sentN, x.sentB, x.recvN, x.recvB, x.lat)
		x.exp = x.w.model()
	}
	return [2]*grpcSide{c, s}
}

func grpcSetup() (*spanLog, [2]*grpcSide) {
	vsched.Reinit()
	trace.ApplyConfig(trace.Config{DefaultSampler: trace.AlwaysSample(), IDGenerator: stampIDs{}})
	l := &spanLog{}
	trace.RegisterExporter(l)
	return l, grpcSides()
}

// mrpc is the reference state of one RPC.
type mrpc struct {
	side         *grpcSide
	ctx          context.Context
	method       string
	start, begun int64    // TagRPC, the begin event
	n, b         [2]int64 // sent, received
	began, ended bool
	events       string
	want         *wantSpan
	sc           trace.SpanContext
}

func startRPC(x *grpcSide, ctx context.Context, method string) *mrpc {
	r := &mrpc{side: x, method: method, start: vsched.Now(), begun: vsched.Now()}
	r.ctx = x.h.TagRPC(ctx, &stats.RPCTagInfo{FullMethodName: method, FailFast: true})
	sp := trace.FromContext(r.ctx)
	if sp == nil || sp == trace.FromContext(ctx) {
		vsched.Failf("no span in the RPC's context")
	}
	r.sc = sp.SpanContext()
	name := strings.Replace(strings.TrimPrefix(method, "/"), "/", ".", -1)
	r.want = &wantSpan{name: name, kind: 1, start: r.start, attrs: map[string]interface{}{}}
	if x.client {
		r.want.kind = 2
	}
	return r
}

func (r *mrpc) tags() map[string]string {
	return map[string]string{r.side.methodKey: strings.TrimLeft(r.method, "/")}
}

func (r *mrpc) begin(failfast bool) {
	r.begun = vsched.Now()
	r.side.h.HandleRPC(r.ctx, &stats.Begin{Client: r.side.client, FailFast: failfast, BeginTime: time.Unix(0, vsched.Now())})
	r.side.exp.add(r.side.started, r.tags(), 1)
	if !r.ended {
		r.want.attrs["Client"], r.want.attrs["FailFast"] = r.side.client, failfast
	}
}

func (r *mrpc) payload(in bool, length, wire int) {
	i, t := 0, 1
	if in {
		i, t = 1, 2
		r.side.h.HandleRPC(r.ctx, &stats.InPayload{Client: r.side.client, Length: length, WireLength: wire})
	} else {
		r.side.h.HandleRPC(r.ctx, &stats.OutPayload{Client: r.side.client, Length: length, WireLength: wire})
	}
	r.n[i]++
	r.b[i] += int64(length)
	if !r.ended {
		r.want.events += fmt.Sprintf("%d:%d/%d ", t, length, wire)
	}
}

// other delivers the events that carry nothing to account.
func (r *mrpc) other() {
	for _, e := range []stats.RPCStats{&stats.InHeader{Client: r.side.client, WireLength: 7}, &stats.OutHeader{Client: r.side.client}, &stats.InTrailer{Client: r.side.client, WireLength: 9}, &stats.OutTrailer{Client: r.side.client}} {
		r.side.h.HandleRPC(r.ctx, e)
	}
}

func (r *mrpc) end(err error) {
	r.side.h.HandleRPC(r.ctx, &stats.End{Client: r.side.client, Error: err, BeginTime: time.Unix(0, r.begun), EndTime: time.Unix(0, vsched.Now())})
	st := "OK"
	if err != nil {
		st = refGRPC(err)
		if s, ok := status.FromError(err); ok {
			r.want.code, r.want.msg = int32(s.Code()), s.Message()
		} else {
			r.want.code, r.want.msg = int32(codes.Internal), err.Error()
		}
	}
	r.ended = true
	r.want.end = vsched.Now()
	e, x := r.side.exp, r.side
	t := merge(r.tags(), map[string]string{x.statusKey: st})
	e.add(x.sentN, t, float64(r.n[0]))
	e.add(x.recvN, t, float64(r.n[1]))
	e.add(x.sentB, t, float64(r.b[0]))
	e.add(x.recvB, t, float64(r.b[1]))
	e.add(x.lat, t, float64(vsched.Now()-r.start)/float64(ms1))
}

// refGRPC is the canonical name of the status of an error.
func refGRPC(err error) string {
	names := []string{"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED", "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"}
	c := 2
	if s, ok := err.(interface{ GRPCStatus() *status.Status }); ok {
		c = int(s.GRPCStatus().Code())
	}
	if c < len(names) {
		return names[c]
	}
	return fmt.Sprint("CODE_", c)
}

func checkSpans(l *spanLog, rs ...*mrpc) {
	var ended []*mrpc
	for _, r := range rs {
		if r.ended {
			ended = append(ended, r)
		}
	}
	if len(l.got) != len(ended) {
		vsched.Failf("%d spans exported, %d RPCs ended", len(l.got), len(ended))
	}
	for _, r := range ended {
		n := 0
		for _, d := range l.got {
			if d.SpanContext.SpanID == r.sc.SpanID {
				n++
				if g, w := spanOf(d), r.want.String(); g != w {
					vsched.Failf("span of %s:\ngot  %s\nwant %s", r.method, g, w)
				}
			}
		}
		if n != 1 {
			vsched.Failf("%d spans for %s", n, r.method)
		}
	}
}

func checkSides(xs [2]*grpcSide) {
	for _, x := range xs {
		if d := diff(x.w.all(), x.exp.all()); d != "" {
			vsched.Failf("statistics, client %v:\n%s", x.client, d)
		}
	}
}

func init() {
	plain := errors.New("plain")
	type ev struct {
		name string
		f    func(r *mrpc)
		end  bool
	}
	evs := []ev{
		{"begin", func(r *mrpc) { r.begin(len(r.want.events)%2 == 0) }, false},
		{"out 5/7", func(r *mrpc) { r.payload(false, 5, 7) }, false},
		{"out 0/5", func(r *mrpc) { r.payload(false, 0, 5) }, false},
		{"in 3/0", func(r *mrpc) { r.payload(true, 3, 0) }, false},
		{"in big", func(r *mrpc) { r.payload(true, 1<<31, 1<<31) }, false},
		{"headers", func(r *mrpc) { r.other() }, false},
		{"end ok", func(r *mrpc) { r.end(nil) }, true},
		{"end not found", func(r *mrpc) { r.end(status.Error(codes.NotFound, "nope")) }, true},
		{"end plain", func(r *mrpc) { r.end(plain) }, true},
	}
	// two RPCs, any interleaving of their events
	vh.Add(&vh.Task{Prop: "C31", Name: "events", Shards: [2]int{8, 8}, Weight: 4, Seq: func(s *vh.S) {
		depth := s.Pick(4, 5)
		for d := 0; d <= depth; d++ {
			for kind := 0; kind < 3; kind++ { // client+client, server+server, client+server
				s.Seqs(2*len(evs), d, func(seq []int) {
					var done [2]bool
					for _, i := range seq {
						if done[i%2] && (evs[i/2].end || i/2 == 0) {
							return // an RPC begins and ends once; a message that is late changes nothing
						}
						done[i%2] = done[i%2] || evs[i/2].end
					}
					name := fmt.Sprintf("kind %d:", kind)
					for _, i := range seq {
						name += fmt.Sprintf(" %d.%s,", i%2, evs[i/2].name)
					}
					s.Exec(name, func() {
						l, xs := grpcSetup()
						a, b := xs[0], xs[0]
						switch kind {
						case 1:
							a, b = xs[1], xs[1]
						case 2:
							b = xs[1]
						}
						r := [2]*mrpc{}
						for _, i := range seq {
							if r[i%2] == nil {
								r[i%2] = startRPC([]*grpcSide{a, b}[i%2], bg, []string{"/svc/a", "/svc/b"}[i%2])
							}
							vsched.AdvanceQuiet(step)
							evs[i/2].f(r[i%2])
						}
						for k, x := range []*grpcSide{a, b} {
							if r[k] == nil {
								r[k] = startRPC(x, bg, "/svc/idle")
							}
						}
						checkSpans(l, r[0], r[1])
						checkSides(xs)
						s.Outcome("%v %v %v %v", r[0].ended, r[1].ended, r[0].n, r[1].n)
						s.Sample("%s -> %s", name, r[0].want)
					})
					s.Case(len(seq))
				})
			}
		}
	}})

	// RPCs made while another one is served or waited for, with its context
	vh.Add(&vh.Task{Prop: "C31", Name: "nested", Shards: [2]int{4, 8}, Seq: func(s *vh.S) {
		methods := []string{"/s/m", "/s/n"}
		for depth := 2; depth <= s.Pick(3, 4); depth++ {
			s.Seqs(4, depth, func(seq []int) { // the side and the method of each
				for order := 0; order < 2; order++ {
					for fail := 0; fail < 1<<uint(depth); fail++ {
						name := fmt.Sprintf("sides and methods %v, outermost ends first %v, failing %b", seq, order == 1, fail)
						s.Exec(name, func() {
							l, xs := grpcSetup()
							ctx := bg
							var rs []*mrpc
							for i, c := range seq {
								vsched.AdvanceQuiet(step)
								r := startRPC(xs[c%2], ctx, methods[c/2])
								if i > 0 {
									r.want.parent = rs[i-1].sc.SpanID
								}
								r.begin(i%2 == 0)
								r.payload(true, i+1, i)
								rs = append(rs, r)
								ctx = r.ctx
							}
							for k := range rs {
								i := k
								if order == 0 {
									i = len(rs) - 1 - k
								}
								vsched.AdvanceQuiet(2 * step)
								rs[i].payload(false, 10+i, i)
								var err error
								if fail>>uint(i)&1 == 1 {
									err = status.Error(codes.NotFound, "nope")
								}
								rs[i].end(err)
							}
							checkSpans(l, rs...)
							checkSides(xs)
							s.Outcome("%v", len(l.got))
							s.Sample("%s -> %s", name, rs[0].want)
						})
						s.Case(len(seq))
					}
				}
			})
		}
	}})

	vh.Add(&vh.Task{Prop: "C31", Name: "outcomes", Seq: func(s *vh.S) {
		var errs []error
		for c := codes.Code(1); c <= 17; c++ {
			errs = append(errs, status.Error(c, fmt.Sprint("message ", c)))
		}
		errs = append(errs, nil, plain, context.Canceled, context.DeadlineExceeded, status.Error(99, ""), status.Error(codes.Code(1<<32-1), "max"), errors.New(""))
		for _, err := range errs {
			for k := 0; k < 2; k++ {
				for _, m := range []string{"/s/m", "s/m", "//s/m", "/a/b/c", "", "/", "/pkg.Svc/Method", "/" + strings.Repeat("m", 255)} {
					for par := 0; par < 3; par++ {
						if !s.Mine() {
							continue
						}
						if s.Stop() {
							return
						}
						name := fmt.Sprintf("error %v side %d method %q parent %d", err, k, m, par)
						s.Exec(name, func() {
							l, xs := grpcSetup()
							ctx := bg
							sampled := true
							var parent *trace.Span
							switch par {
							case 1:
								ctx, parent = trace.StartSpan(ctx, "parent")
							case 2:
								ctx, parent = trace.StartSpan(ctx, "parent", trace.WithSampler(trace.NeverSample()))
								sampled = false
							}
							r := startRPC(xs[k], ctx, m)
							if parent != nil {
								r.want.parent = parent.SpanContext().SpanID
							}
							r.begin(false)
							vsched.AdvanceQuiet(3 * step)
							r.payload(true, 4, 5)
							r.end(err)
							if r.sc.IsSampled() != sampled {
								vsched.Failf("sampled %v", r.sc.IsSampled())
							}
							if sampled {
								checkSpans(l, r)
							} else if len(l.got) != 0 {
								vsched.Failf("unsampled span exported")
							}
							checkSides(xs)
							// the exemplar of the latency names the sampled span
							rs, _ := view.RetrieveData("w/" + xs[k].lat.Name())
							for _, row := range rs {
								for _, e := range row.Data.(*view.DistributionData).ExemplarsPerBucket {
									if e == nil {
										continue
									}
									sc, ok := e.Attachments[metricdata.AttachmentKeySpanContext].(trace.SpanContext)
									if ok != sampled || ok && sc.SpanID != r.sc.SpanID {
										vsched.Failf("exemplar names %v", e.Attachments)
									}
								}
							}
							s.Outcome("%v", r.want.code)
						})
						s.Case(1)
					}
				}
			}
		}
	}})

	// events of contexts the handlers did not prepare
	vh.Add(&vh.Task{Prop: "C31", Name: "untagged", Seq: func(s *vh.S) {
		type unknown struct{ *stats.Begin }
		es := []stats.RPCStats{&stats.Begin{}, &stats.Begin{Client: true}, &stats.InPayload{Length: 3}, &stats.OutPayload{Length: 3}, &stats.End{}, &stats.End{Client: true, Error: plain}, &stats.InHeader{}, &stats.OutTrailer{}, &unknown{&stats.Begin{}}}
		for i, e := range es {
			for k := 0; k < 2; k++ {
				for span := 0; span < 2; span++ {
					name := fmt.Sprintf("event %d %T to side %d, span %d", i, e, k, span)
					s.Exec(name, func() {
						l, xs := grpcSetup()
						ctx := bg
						if span == 1 {
							ctx, _ = trace.StartSpan(ctx, "other", trace.WithSampler(trace.NeverSample()))
						}
						xs[k].h.HandleRPC(ctx, e)
						xs[k].h.HandleConn(ctx, &stats.ConnBegin{})
						if xs[k].h.TagConn(ctx, &stats.ConnTagInfo{}) != ctx {
							vsched.Failf("connection context changed")
						}
						checkSides(xs)
						checkSpans(l)
					})
					s.Case(1)
				}
			}
		}
	}})

	// events of one RPC delivered concurrently, next to another RPC
	mk := func(k int, name string, withEnd bool, bq, bt int) {
		vh.Add(&vh.Task{Prop: "C31", Name: name, Race: true, Bound: [2]int{bq, bt}, Shards: [2]int{8, 8}, Body: func() {
			l, xs := grpcSetup()
			trace.UnregisterExporter(l)
			trace.RegisterExporter(freeLog{})
			x := xs[k]
			ctx := x.h.TagRPC(bg, &stats.RPCTagInfo{FullMethodName: "/s/a"})
			other := x.h.TagRPC(bg, &stats.RPCTagInfo{FullMethodName: "/s/b"})
			x.h.HandleRPC(ctx, &stats.Begin{Client: x.client})
			vsched.Explore(true)
			gs := []*vsched.G{
				vsched.Thread("send", func() {
					x.h.HandleRPC(ctx, &stats.OutPayload{Client: x.client, Length: 1})
					x.h.HandleRPC(ctx, &stats.OutPayload{Client: x.client, Length: 2})
				}),
				vsched.Thread("recv", func() {
					x.h.HandleRPC(ctx, &stats.InPayload{Client: x.client, Length: 4})
					x.h.HandleRPC(other, &stats.Begin{Client: x.client})
					x.h.HandleRPC(ctx, &stats.InPayload{Client: x.client, Length: 8})
					x.h.HandleRPC(other, &stats.InPayload{Client: x.client, Length: 32})
					x.h.HandleRPC(other, &stats.End{Client: x.client})
				}),
			}
			if withEnd {
				gs = append(gs, vsched.Thread("end", func() { x.h.HandleRPC(ctx, &stats.End{Client: x.client}) }))
			} else {
				gs = append(gs, vsched.Thread("both", func() {
					x.h.HandleRPC(ctx, &stats.InPayload{Client: x.client, Length: 64})
					x.h.HandleRPC(ctx, &stats.OutPayload{Client: x.client, Length: 16})
				}))
			}
			vsched.Join(gs...)
			vsched.Explore(false)
			if !withEnd {
				x.h.HandleRPC(ctx, &stats.End{Client: x.client})
			}
			ta := map[string]string{x.methodKey: "s/a"}
			tb := map[string]string{x.methodKey: "s/b"}
			x.exp.add(x.started, ta, 1)
			x.exp.add(x.started, tb, 1)
			ok := map[string]string{x.statusKey: "OK"}
			tb = merge(tb, ok)
			x.exp.add(x.sentN, tb, 0)
			x.exp.add(x.sentB, tb, 0)
			x.exp.add(x.recvN, tb, 1)
			x.exp.add(x.recvB, tb, 32)
			x.exp.add(x.lat, tb, 0)
			x.exp.add(x.lat, merge(ta, ok), 0)
			sn, sb, rn, rb := []float64{3}, []float64{19}, []float64{3}, []float64{76}
			if withEnd { // a completion in the middle reports a moment's numbers
				sn, sb, rn, rb = []float64{0, 1, 2}, []float64{0, 1, 3}, []float64{0, 1, 2}, []float64{0, 4, 12}
			}
			for _, c := range []struct {
				m  ocstats.Measure
				vs []float64
			}{{x.sentN, sn}, {x.sentB, sb}, {x.recvN, rn}, {x.recvB, rb}} {
				i := 0
				for i < len(x.w.names) && x.w.names[i] != "w/"+c.m.Name() {
					i++
				}
				got, hit := x.w.rows(i), false
				for _, v := range c.vs {
					ex := x.w.model()
					ex.add(c.m, merge(ta, ok), v)
					for t, vs := range x.exp.m["w/"+c.m.Name()] {
						ex.m["w/"+c.m.Name()][t] = vs
					}
					hit = hit || strings.Contains("\n"+ex.all(), "\n"+x.w.short[i]+": "+got+"\n")
				}
				if !hit {
					vsched.Failf("%s: %s, expected one of %v", c.m.Name(), got, c.vs)
				}
				vsched.Outcome("%s", got)
			}
			for _, i := range []int{0, 5} {
				if got := x.w.rows(i); !strings.Contains("\n"+x.exp.all(), "\n"+x.w.short[i]+": "+got+"\n") {
					vsched.Failf("%s: %s", x.w.short[i], got)
				}
			}
			sp := freeLog{}.spans()
			if len(sp) != 2 {
				vsched.Failf("%d spans", len(sp))
			}
			if !withEnd {
				for _, d := range sp {
					if d.Name == "s.a" && len(d.MessageEvents) != 6 || d.Name == "s.b" && len(d.MessageEvents) != 1 {
						vsched.Failf("%d message events on %s", len(d.MessageEvents), d.Name)
					}
				}
			}
		}})
	}
	mk(0, "concurrent-client", false, 2, 3)
	mk(1, "concurrent-server", false, 2, 3)
	mk(0, "ending-client", true, 1, 3)
	mk(1, "ending-server", true, 1, 3)
}
