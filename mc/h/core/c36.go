package main

import (
	"context"
	"fmt"
	"strings"

	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/trace"
)

// ownSpan is an implementation of spans that only notes what it is told.
type ownSpan struct {
	rec bool
	sc  trace.SpanContext
	log []string
}

func (o *ownSpan) note(f string, a ...interface{}) { o.log = append(o.log, fmt.Sprintf(f, a...)) }

func attrsStr(as []trace.Attribute) string { return fmt.Sprint(len(as), as == nil, attrMap(as)) }

func (o *ownSpan) IsRecordingEvents() bool             { return o.rec }
func (o *ownSpan) End()                                { o.note("End") }
func (o *ownSpan) SpanContext() trace.SpanContext      { return o.sc }
func (o *ownSpan) SetName(n string)                    { o.note("SetName %q", n) }
func (o *ownSpan) SetStatus(s trace.Status)            { o.note("SetStatus %+v", s) }
func (o *ownSpan) AddAttributes(as ...trace.Attribute) { o.note("AddAttributes %s", attrsStr(as)) }
func (o *ownSpan) Annotate(as []trace.Attribute, str string) {
	o.note("Annotate %s %q", attrsStr(as), str)
}
func (o *ownSpan) Annotatef(as []trace.Attribute, f string, a ...interface{}) {
	o.note("Annotatef %s %q %v", attrsStr(as), f, a)
}
func (o *ownSpan) AddMessageSendEvent(a, b, c int64)    { o.note("Send %d %d %d", a, b, c) }
func (o *ownSpan) AddMessageReceiveEvent(a, b, c int64) { o.note("Receive %d %d %d", a, b, c) }
func (o *ownSpan) AddLink(l trace.Link)                 { o.note("AddLink %s", linkStr(l)) }
func (o *ownSpan) String() string                       { return fmt.Sprint("own span ", len(o.log)) }

// ownTracer notes the calls it gets and returns what it is told to.
type ownTracer struct {
	log []string
	ctx context.Context
	sp  *trace.Span
}

type ctxMark struct{}

func optStr(o []trace.StartOption) string {
	var so trace.StartOptions
	for _, f := range o {
		f(&so)
	}
	return fmt.Sprint(len(o), so.SpanKind, so.Sampler != nil)
}

func (t *ownTracer) note(f string, a ...interface{}) { t.log = append(t.log, fmt.Sprintf(f, a...)) }
func (t *ownTracer) StartSpan(ctx context.Context, name string, o ...trace.StartOption) (context.Context, *trace.Span) {
	t.note("start %v %s %s", ctx.Value(ctxMark{}), name, optStr(o))
	return t.ctx, t.sp
}
func (t *ownTracer) StartSpanWithRemoteParent(ctx context.Context, name string, p trace.SpanContext, o ...trace.StartOption) (context.Context, *trace.Span) {
	t.note("remote %v %s %s %s", ctx.Value(ctxMark{}), name, scStr(p), optStr(o))
	return t.ctx, t.sp
}
func (t *ownTracer) FromContext(ctx context.Context) *trace.Span {
	t.note("from %v", ctx.Value(ctxMark{}))
	return t.sp
}
func (t *ownTracer) NewContext(ctx context.Context, s *trace.Span) context.Context {
	t.note("new %v %v", ctx.Value(ctxMark{}), s == t.sp)
	return t.ctx
}

func init() {
	atts := []trace.Attribute{trace.StringAttribute("s", "v"), trace.Int64Attribute("i", 3)}
	link := trace.Link{TraceID: trace.TraceID{1}, SpanID: trace.SpanID{2}, Type: trace.LinkTypeChild, Attributes: map[string]interface{}{"k": "v"}}
	type op struct {
		name   string
		change bool // dropped unless recording
		do     func(s *trace.Span)
		want   string
	}
	ops := []op{
		{"end", false, func(s *trace.Span) { s.End() }, "End"},
		{"name", true, func(s *trace.Span) { s.SetName("n m") }, `SetName "n m"`},
		{"no name", true, func(s *trace.Span) { s.SetName("") }, `SetName ""`},
		{"status", true, func(s *trace.Span) { s.SetStatus(trace.Status{Code: -5, Message: "m"}) }, "SetStatus {Code:-5 Message:m}"},
		{"ok", true, func(s *trace.Span) { s.SetStatus(trace.Status{}) }, "SetStatus {Code:0 Message:}"},
		{"attributes", true, func(s *trace.Span) { s.AddAttributes(atts...) }, "AddAttributes " + attrsStr(atts)},
		{"no attributes", true, func(s *trace.Span) { s.AddAttributes() }, "AddAttributes " + attrsStr(nil)},
		{"annotate", true, func(s *trace.Span) { s.Annotate(atts, "50%d") }, "Annotate " + attrsStr(atts) + ` "50%d"`},
		{"annotate only", true, func(s *trace.Span) { s.Annotate(nil, "") }, "Annotate " + attrsStr(nil) + ` ""`},
		{"annotatef", true, func(s *trace.Span) { s.Annotatef(atts[:1], "%d %s", 1, "x") }, "Annotatef " + attrsStr(atts[:1]) + ` "%d %s" [1 x]`},
		{"annotatef plain", true, func(s *trace.Span) { s.Annotatef(nil, "100%") }, "Annotatef " + attrsStr(nil) + ` "100%" []`},
		{"send", true, func(s *trace.Span) { s.AddMessageSendEvent(1, 2, 3) }, "Send 1 2 3"},
		{"receive", true, func(s *trace.Span) { s.AddMessageReceiveEvent(-1, 0, 1<<40) }, "Receive -1 0 1099511627776"},
		{"link", true, func(s *trace.Span) { s.AddLink(link) }, "AddLink " + linkStr(link)},
	}
	vh.Add(&vh.Task{Prop: "C36", Name: "forwarding", Shards: [2]int{2, 8}, Seq: func(s *vh.S) {
		for d := 0; d <= s.Pick(3, 5); d++ {
			s.Seqs(len(ops)+1, d, func(seq []int) {
				for _, rec := range []bool{true, false} {
					name := fmt.Sprint("recording ", rec, ": ")
					for _, i := range seq {
						if i == len(ops) {
							name += "toggle; "
						} else {
							name += ops[i].name + "; "
						}
					}
					s.Exec(name, func() {
						vsched.Reinit()
						own := &ownSpan{rec: rec, sc: trace.SpanContext{TraceID: trace.TraceID{7}, SpanID: trace.SpanID{8}, TraceOptions: 1}}
						sp := trace.NewSpan(own)
						var want []string
						for _, i := range seq {
							if i == len(ops) {
								own.rec = !own.rec
							} else {
								ops[i].do(sp)
								if own.rec || !ops[i].change {
									want = append(want, ops[i].want)
								}
							}
							if g, w := strings.Join(own.log, "\n"), strings.Join(want, "\n"); g != w {
								vsched.Failf("forwarded:\n%s\nwant:\n%s", g, w)
							}
							if sp.IsRecordingEvents() != own.rec || sp.SpanContext() != own.sc || sp.String() != fmt.Sprint("own span ", len(own.log)) || sp.Internal() != trace.SpanInterface(own) {
								vsched.Failf("recording %v, context %v, %s, %v", sp.IsRecordingEvents(), sp.SpanContext(), sp, sp.Internal())
							}
						}
						s.Outcome("%s", strings.Join(own.log, "\n"))
						s.Sample("%s", name)
					})
					s.Case(len(seq))
				}
			})
		}
	}})

	// the package's functions with tracers of the caller and the built-in one in turn
	vh.Add(&vh.Task{Prop: "C36", Name: "tracers", Shards: [2]int{2, 8}, Seq: func(s *vh.S) {
		for d := 1; d <= s.Pick(4, 5); d++ {
			// 0-2: use tracer (2 is the built-in one), 3-8: calls
			s.Seqs(9, d, func(seq []int) {
				s.Exec(fmt.Sprint(seq), func() {
					vsched.Reinit()
					exp := &spanLog{}
					trace.RegisterExporter(exp)
					trace.ApplyConfig(trace.Config{DefaultSampler: trace.AlwaysSample()})
					mark := func(v string) context.Context { return context.WithValue(bg, ctxMark{}, v) }
					own := make([]*ownTracer, 2)
					want := make([]string, 2)
					for i := range own {
						own[i] = &ownTracer{ctx: mark(fmt.Sprint("of tracer ", i)), sp: trace.NewSpan(&ownSpan{})}
					}
					builtin := trace.DefaultTracer
					cur, started := 2, 0
					remote := trace.SpanContext{TraceID: trace.TraceID{9}, SpanID: trace.SpanID{8}, TraceOptions: 1}
					for n, i := range seq {
						c := mark(fmt.Sprint(n))
						var ctx context.Context
						var sp *trace.Span
						call := ""
						switch i {
						case 0, 1:
							trace.DefaultTracer = own[i]
							cur = i
							continue
						case 2:
							trace.DefaultTracer = builtin
							cur = 2
							continue
						case 3:
							ctx, sp = trace.StartSpan(c, "a")
							call = fmt.Sprintf("start %d a 0 0 false\n", n)
						case 4:
							ctx, sp = trace.StartSpan(c, "b", trace.WithSpanKind(trace.SpanKindClient), trace.WithSampler(trace.NeverSample()))
							call = fmt.Sprintf("start %d b 2 2 true\n", n)
						case 5:
							ctx, sp = trace.StartSpanWithRemoteParent(c, "c", remote, trace.WithSpanKind(trace.SpanKindServer))
							call = fmt.Sprintf("remote %d c %s 1 1 false\n", n, scStr(remote))
						case 6:
							ctx, sp = trace.StartSpanWithRemoteParent(c, "", trace.SpanContext{})
							call = fmt.Sprintf("remote %d  %s 0 0 false\n", n, scStr(trace.SpanContext{}))
						case 7:
							sp = trace.FromContext(c)
							call = fmt.Sprintf("from %d\n", n)
						case 8:
							var x *trace.Span
							if cur < 2 {
								x = own[cur].sp
							} else {
								x = trace.NewSpan(&ownSpan{})
							}
							ctx = trace.NewContext(c, x)
							call = fmt.Sprintf("new %d true\n", n)
							if cur == 2 && (trace.FromContext(ctx) != x || ctx.Value(ctxMark{}) != fmt.Sprint(n)) {
								vsched.Failf("built-in NewContext")
							}
						}
						if cur < 2 {
							want[cur] += call
							if i != 8 && sp != own[cur].sp || i != 7 && ctx != own[cur].ctx {
								vsched.Failf("call %d returned something else than the tracer", i)
							}
							continue
						}
						switch i {
						case 3, 4, 5, 6:
							started++
							if trace.FromContext(ctx) != sp || sp.SpanContext().IsSampled() != (i != 4) || ctx.Value(ctxMark{}) != fmt.Sprint(n) {
								vsched.Failf("built-in tracer: %v", sp.SpanContext())
							}
							sp.End()
						case 7:
							if sp != nil {
								vsched.Failf("built-in tracer finds %v in a context without spans", sp)
							}
						}
					}
					for i := range own {
						if g := strings.Join(append(own[i].log, ""), "\n"); g != want[i] {
							vsched.Failf("tracer %d was called\n%swant\n%s", i, g, want[i])
						}
					}
					trace.DefaultTracer = builtin
					s.Outcome("%d %d", started, len(exp.got))
					s.Sample("%v", seq)
				})
				s.Case(len(seq))
			})
		}
	}})

	// spans of other implementations as parents, and nesting of contexts
	vh.Add(&vh.Task{Prop: "C36", Name: "parents", Shards: [2]int{1, 4}, Seq: func(s *vh.S) {
		var scs []trace.SpanContext
		for _, o := range []trace.TraceOptions{0, 1, 2, 3, 0xff, 0xfffffffe} {
			scs = append(scs, trace.SpanContext{TraceID: trace.TraceID{3, 15: 4}, SpanID: trace.SpanID{5, 7: 6}, TraceOptions: o},
				trace.SpanContext{TraceID: trace.TraceID{3}, SpanID: trace.SpanID{7: 6}, TraceOptions: o, Tracestate: mkTS("k", "v")})
		}
		scs = append(scs, trace.SpanContext{})
		// a stack of contexts: built-in span, custom span i, nil span, unrelated value
		for d := 1; d <= s.Pick(3, 4); d++ {
			s.Seqs(len(scs)+3, d, func(seq []int) {
				for _, mode := range []string{"default", "always", "never"} {
					s.Exec(fmt.Sprint(mode, seq), func() {
						vsched.Reinit()
						exp := &spanLog{}
						trace.RegisterExporter(exp)
						asked := 0
						trace.ApplyConfig(trace.Config{DefaultSampler: func(trace.SamplingParameters) trace.SamplingDecision {
							asked++
							return trace.SamplingDecision{Sample: true}
						}})
						ctx := context.Context(bg)
						var cur *trace.Span
						var owns []*ownSpan
						for _, i := range seq {
							switch i {
							case len(scs): // built-in root
								_, cur = trace.StartSpan(bg, "p", trace.WithSampler(trace.AlwaysSample()))
								ctx = trace.NewContext(ctx, cur)
							case len(scs) + 1:
								cur = nil
								ctx = trace.NewContext(ctx, nil)
							case len(scs) + 2:
								ctx = context.WithValue(ctx, ctxMark{}, 1)
							default:
								o := &ownSpan{rec: true, sc: scs[i]}
								owns = append(owns, o)
								cur = trace.NewSpan(o)
								ctx = trace.NewContext(ctx, cur)
							}
							if g := trace.FromContext(ctx); g != cur {
								vsched.Failf("FromContext gives %v, want %v", g, cur)
							}
						}
						var opt []trace.StartOption
						switch mode {
						case "always":
							opt = append(opt, trace.WithSampler(trace.AlwaysSample()))
						case "never":
							opt = append(opt, trace.WithSampler(trace.NeverSample()))
						}
						psc := cur.SpanContext()
						asked = 0
						_, ch := trace.StartSpan(ctx, "child", opt...)
						sc := ch.SpanContext()
						root := psc == trace.SpanContext{}
						sampled := mode == "always" || mode == "default" && (root || psc.TraceOptions&1 == 1)
						wantAsked := 0
						if mode == "default" && root {
							wantAsked = 1
						}
						if asked != wantAsked || sc.IsSampled() != sampled || !root && (sc.TraceID != psc.TraceID || sc.Tracestate != psc.Tracestate || sc.TraceOptions&^1 != psc.TraceOptions&^1) || sc.SpanID == psc.SpanID || sc.TraceID == (trace.TraceID{}) {
							vsched.Failf("child of %v is %v, default sampler asked %d times", psc, sc, asked)
						}
						ch.End()
						if sampled {
							d := exp.got[len(exp.got)-1]
							if d.SpanID != sc.SpanID || d.ParentSpanID != psc.SpanID || d.HasRemoteParent {
								vsched.Failf("exported %s", spanStr(d))
							}
						}
						for _, o := range owns {
							if len(o.log) != 0 {
								vsched.Failf("the parent was changed: %v", o.log)
							}
						}
						s.Outcome("%v %v %v", root, sampled, asked)
					})
					s.Case(len(seq))
				}
			})
		}
	}})
}
