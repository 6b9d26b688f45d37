package main

import (
	"fmt"

	"go.opencensus.io/internal"
	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/trace"
)

// mspan is the reference model of one span.
type mspan struct {
	name     string
	status   trace.Status
	kids     int
	limAt    int
	limAn    int
	limMe    int
	limLi    int
	attrs    []trace.Attribute // least recently set first
	dropAt   int
	an       []string
	dropAn   int
	me       []string
	dropMe   int
	li       []string
	dropLi   int
	start    int64
	sc       trace.SpanContext
	parent   trace.SpanID
	kind     int
	remote   bool
}

func (m *mspan) attr(as ...trace.Attribute) {
	for _, a := range as {
		for i, o := range m.attrs {
			if o.Key() == a.Key() {
				m.attrs = append(m.attrs[:i:i], m.attrs[i+1:]...)
				break
			}
		}
		m.attrs = append(m.attrs, a)
		if len(m.attrs) > m.limAt {
			m.attrs = m.attrs[1:]
			m.dropAt++
		}
	}
}

func push(l *[]string, drop *int, lim int, s string) {
	*l = append(*l, s)
	if len(*l) > lim {
		*l = (*l)[1:]
		*drop++
	}
}

func attrMap(as []trace.Attribute) map[string]interface{} {
	m := map[string]interface{}{}
	for _, a := range as {
		m[a.Key()] = a.Value()
	}
	return m
}

// str renders the model like spanStr renders span data.
func (m *mspan) str(end int64) string {
	e := "-"
	if end >= 0 {
		e = fmt.Sprint(end - vsched.Epoch)
	}
	s := fmt.Sprintf("%s/%s opt=%d ts=%v parent=%s remote=%v kind=%d name=%q %s..%s status=%d:%q children=%d", m.sc.TraceID, m.sc.SpanID, m.sc.TraceOptions, m.sc.Tracestate.Entries(), m.parent,
		m.remote, m.kind, m.name, fmt.Sprint(m.start-vsched.Epoch), e, m.status.Code, m.status.Message, m.kids)
	s += fmt.Sprintf(" attrs(-%d){%s}", m.dropAt, mapStr(attrMap(m.attrs)))
	list := func(n string, d int, l []string) {
		s += fmt.Sprintf(" %s(-%d)[", n, d)
		for _, x := range l {
			s += x + ";"
		}
		s += "]"
	}
	list("annotations", m.dropAn, m.an)
	list("events", m.dropMe, m.me)
	list("links", m.dropLi, m.li)
	return s
}

type sop struct {
	name string
	do   func(sp *trace.Span, n int)
	mod  func(m *mspan, n int)
}

func now() string { return fmt.Sprint(vsched.Now() - vsched.Epoch) }

func spanOps() []sop {
	ia := func(k string) sop {
		return sop{"attribute " + k, func(sp *trace.Span, n int) { sp.AddAttributes(trace.Int64Attribute(k, int64(n))) }, func(m *mspan, n int) { m.attr(trace.Int64Attribute(k, int64(n))) }}
	}
	multi := []trace.Attribute{trace.StringAttribute("a", "s"), trace.BoolAttribute("c", true), trace.Float64Attribute("a", 1.5), trace.StringAttribute("", "")}
	anAttrs := []trace.Attribute{trace.StringAttribute("x", "1"), trace.BoolAttribute("x", true), trace.Int64Attribute("y", 2)}
	return []sop{
		ia("a"), ia("b"), ia("c"), ia("d"),
		{"attributes a,c,a,''", func(sp *trace.Span, n int) { sp.AddAttributes(multi...) }, func(m *mspan, n int) { m.attr(multi...) }},
		{"annotate", func(sp *trace.Span, n int) { sp.Annotate(nil, fmt.Sprint("m", n)) }, func(m *mspan, n int) {
			push(&m.an, &m.dropAn, m.limAn, fmt.Sprintf("%s %q{}", now(), fmt.Sprint("m", n)))
		}},
		{"annotatef", func(sp *trace.Span, n int) { sp.Annotatef(anAttrs, "f%d%%", n) }, func(m *mspan, n int) {
			push(&m.an, &m.dropAn, m.limAn, fmt.Sprintf("%s %q{%s}", now(), fmt.Sprintf("f%d%%", n), mapStr(map[string]interface{}{"x": true, "y": int64(2)})))
		}},
		{"send", func(sp *trace.Span, n int) { sp.AddMessageSendEvent(int64(n), 10, 5) }, func(m *mspan, n int) {
			push(&m.me, &m.dropMe, m.limMe, fmt.Sprintf("%s %d %d 10 5", now(), trace.MessageEventTypeSent, n))
		}},
		{"receive", func(sp *trace.Span, n int) { sp.AddMessageReceiveEvent(-int64(n), 0, 7) }, func(m *mspan, n int) {
			push(&m.me, &m.dropMe, m.limMe, fmt.Sprintf("%s %d %d 0 7", now(), trace.MessageEventTypeRecv, -n))
		}},
		{"link", func(sp *trace.Span, n int) {
			sp.AddLink(trace.Link{TraceID: trace.TraceID{14: byte(n)}, SpanID: trace.SpanID{7: 3}, Type: trace.LinkTypeParent, Attributes: map[string]interface{}{"n": n}})
		}, func(m *mspan, n int) {
			push(&m.li, &m.dropLi, m.limLi, linkStr(trace.Link{TraceID: trace.TraceID{14: byte(n)}, SpanID: trace.SpanID{7: 3}, Type: trace.LinkTypeParent, Attributes: map[string]interface{}{"n": n}}))
		}},
		{"name", func(sp *trace.Span, n int) { sp.SetName(fmt.Sprint("name", n)) }, func(m *mspan, n int) { m.name = fmt.Sprint("name", n) }},
		{"status", func(sp *trace.Span, n int) { sp.SetStatus(trace.Status{Code: int32(n), Message: "st"}) }, func(m *mspan, n int) { m.status = trace.Status{Code: int32(n), Message: "st"} }},
		{"status 3", func(sp *trace.Span, n int) { sp.SetStatus(trace.Status{Code: 3}) }, func(m *mspan, n int) { m.status = trace.Status{Code: 3} }},
		{"status 3 text", func(sp *trace.Span, n int) { sp.SetStatus(trace.Status{Code: 3, Message: "three"}) }, func(m *mspan, n int) { m.status = trace.Status{Code: 3, Message: "three"} }},
		{"status 0 text", func(sp *trace.Span, n int) { sp.SetStatus(trace.Status{Message: "fine"}) }, func(m *mspan, n int) { m.status = trace.Status{Message: "fine"} }},
		{"no attributes", func(sp *trace.Span, n int) { sp.AddAttributes(); sp.Annotate([]trace.Attribute{}, "") }, func(m *mspan, n int) {
			push(&m.an, &m.dropAn, m.limAn, fmt.Sprintf("%s %q{}", now(), ""))
		}},
	}
}

func init() {
	ops := spanOps()
	// extra letters handled by the task: observe, child, time
	const extra = 3
	type limits struct{ at, an, me, li int }
	var attrOnly, queueOnly []int
	for i := range ops {
		if i <= 4 {
			attrOnly = append(attrOnly, i)
		}
		if i >= 5 && i <= 9 {
			queueOnly = append(queueOnly, i)
		}
	}
	all := make([]int, len(ops)+extra)
	for i := range all {
		all[i] = i
	}
	nops := len(ops)
	attrOnly = append(attrOnly, nops) // with observation
	queueOnly = append(queueOnly, nops, nops+2)
	run := func(s *vh.S, letters []int, depth int, lims []limits, variants int) {
		for variant := 0; variant < variants; variant++ {
			local, rev := variant&1 == 0, variant&2 != 0
			for _, lim := range lims {
				s.Seqs(len(letters), depth, func(seq []int) {
					cas := fmt.Sprintf("local=%v reversed maps=%v limits %v:", local, rev, lim)
					for _, l := range seq {
						switch l = letters[l]; l {
						case nops:
							cas += " observe,"
						case nops + 1:
							cas += " child,"
						case nops + 2:
							cas += " time,"
						default:
							cas += " " + ops[l].name + ","
						}
					}
					s.Exec(cas, func() {
						vsched.Reinit()
						vsched.MapReverse(rev)
						internal.LocalSpanStoreEnabled = local
						exp := &spanLog{}
						trace.RegisterExporter(exp)
						trace.ApplyConfig(trace.Config{DefaultSampler: trace.AlwaysSample(), IDGenerator: &numIDs{}, MaxAttributesPerSpan: lim.at, MaxAnnotationEventsPerSpan: lim.an, MaxMessageEventsPerSpan: lim.me, MaxLinksPerSpan: lim.li})
						rp := trace.SpanContext{TraceID: trace.TraceID{1, 15: 9}, SpanID: trace.SpanID{7, 7: 8}, TraceOptions: 1}
						vsched.AdvanceQuiet(1000)
						ctx, sp := trace.StartSpanWithRemoteParent(bg, "first", rp, trace.WithSpanKind(trace.SpanKindServer))
						m := &mspan{name: "first", limAt: lim.at, limAn: lim.an, limMe: lim.me, limLi: lim.li, start: vsched.Now(), sc: sp.SpanContext(), parent: rp.SpanID, kind: trace.SpanKindServer, remote: true}
						// settings changed later do not apply to it
						trace.ApplyConfig(trace.Config{MaxAttributesPerSpan: 50, MaxAnnotationEventsPerSpan: 50, MaxMessageEventsPerSpan: 50, MaxLinksPerSpan: 50})
						type seen struct {
							d *trace.SpanData
							s string
						}
						var snaps []seen
						for i, l := range seq {
							switch l = letters[l]; l {
							case nops:
								if local {
									as := store().ReportActiveSpans("first")
									if len(as) != 1 {
										vsched.Failf("%d active spans", len(as))
									}
									if g, w := spanStr(as[0]), m.str(-1); g != w {
										vsched.Failf("active span\n got %s\nwant %s", g, w)
									}
									snaps = append(snaps, seen{as[0], spanStr(as[0])})
								}
							case nops + 1:
								_, ch := trace.StartSpan(ctx, "child")
								m.kids++
								if i%2 == 0 {
									ch.End()
								}
							case nops + 2:
								vsched.AdvanceQuiet(500)
							default:
								ops[l].mod(m, i)
								ops[l].do(sp, i)
							}
						}
						vsched.AdvanceQuiet(7)
						n0 := len(exp.got)
						end := vsched.Now()
						want := m.str(end)
						sp.End()
						if len(exp.got) != n0+1 {
							vsched.Failf("%d spans exported", len(exp.got)-n0)
						}
						d := exp.got[n0]
						if g := spanStr(d); g != want {
							vsched.Failf("exported\n got %s\nwant %s", g, want)
						}
						// later operations change nothing that was handed out
						for i, o := range ops {
							o.do(sp, i)
						}
						trace.StartSpan(ctx, "late child")
						vsched.AdvanceQuiet(3)
						sp.End()
						if g := spanStr(d); g != want {
							vsched.Failf("exported data changed later\n got %s\nwant %s", g, want)
						}
						for _, x := range snaps {
							if g := spanStr(x.d); g != x.s {
								vsched.Failf("observed data changed later\n got %s\nwant %s", g, x.s)
							}
						}
						s.Outcome("%s", want)
					})
					s.Case(depth)
					s.Sample("%s", cas)
				})
			}
		}
	}
	vh.Add(&vh.Task{Prop: "C14", Name: "histories", Shards: [2]int{8, 8}, Weight: 3, Seq: func(s *vh.S) {
		run(s, all, s.Pick(5, 5), []limits{{1, 1, 1, 1}, {2, 2, 2, 2}}, 2)
	}})
	vh.Add(&vh.Task{Prop: "C14", Name: "attribute-eviction", Shards: [2]int{8, 8}, Weight: 2, Seq: func(s *vh.S) {
		run(s, attrOnly, s.Pick(6, 7), []limits{{2, 1, 1, 1}, {3, 2, 2, 2}}, 4)
		run(s, attrOnly, s.Pick(4, 5), []limits{{1, 1, 1, 1}, {4, 2, 2, 2}, {50, 1, 1, 1}}, 4)
	}})
	vh.Add(&vh.Task{Prop: "C14", Name: "queue-eviction", Shards: [2]int{8, 8}, Weight: 2, Seq: func(s *vh.S) {
		run(s, queueOnly, s.Pick(5, 6), []limits{{1, 1, 2, 3}, {1, 2, 3, 1}, {1, 3, 1, 2}}, 2)
	}})
	// an unsampled span keeps nothing and says so
	vh.Add(&vh.Task{Prop: "C14", Name: "unsampled", Seq: func(s *vh.S) {
		for local := 0; local < 2; local++ {
			s.Seqs(nops, 2, func(seq []int) {
				cas := fmt.Sprint("local ", local, " ", ops[seq[0]].name, ", ", ops[seq[1]].name)
				s.Exec(cas, func() {
					vsched.Reinit()
					internal.LocalSpanStoreEnabled = local == 1
					exp := &spanLog{}
					trace.RegisterExporter(exp)
					trace.ApplyConfig(trace.Config{DefaultSampler: trace.NeverSample(), IDGenerator: &numIDs{}, MaxAttributesPerSpan: 2, MaxAnnotationEventsPerSpan: 2, MaxMessageEventsPerSpan: 2, MaxLinksPerSpan: 2})
					ctx, sp := trace.StartSpan(bg, "first")
					m := &mspan{name: "first", limAt: 2, limAn: 2, limMe: 2, limLi: 2, start: vsched.Now(), sc: sp.SpanContext()}
					if sp.IsRecordingEvents() != (local == 1) {
						vsched.Failf("recording: %v", sp.IsRecordingEvents())
					}
					for i, l := range seq {
						ops[l].do(sp, i)
						ops[l].mod(m, i)
					}
					trace.StartSpan(ctx, "child")
					m.kids++
					if local == 1 {
						as := store().ReportActiveSpans("first")
						if len(as) != 1 || spanStr(as[0]) != m.str(-1) {
							vsched.Failf("local store has %v, want %s", as, m.str(-1))
						}
					}
					sp.End()
					if len(exp.got) != 0 {
						vsched.Failf("exported %s", spanStr(exp.got[0]))
					}
				})
				s.Case(2)
				s.Outcome(cas)
			})
		}
	}})
	// default limits
	vh.Add(&vh.Task{Prop: "C14", Name: "default-limits", Seq: func(s *vh.S) {
		for kind := 0; kind < 5; kind++ {
			for n := 0; n <= 140; n++ {
				if s.Stop() {
					return
				}
				cas := fmt.Sprint("kind ", kind, " n ", n)
				s.Exec(cas, func() {
					vsched.Reinit()
					internal.LocalSpanStoreEnabled = false
					exp := &spanLog{}
					trace.RegisterExporter(exp)
					trace.ApplyConfig(trace.Config{DefaultSampler: trace.AlwaysSample(), IDGenerator: &numIDs{}})
					ctx, sp := trace.StartSpan(bg, "first")
					m := &mspan{name: "first", limAt: 32, limAn: 32, limMe: 128, limLi: 32, start: vsched.Now(), sc: sp.SpanContext()}
					for i := 0; i < n; i++ {
						switch kind {
						case 0:
							a := trace.Int64Attribute(fmt.Sprint("k", i%40), int64(i))
							sp.AddAttributes(a)
							m.attr(a)
						case 1:
							ops[5].mod(m, i)
							ops[5].do(sp, i)
						case 2:
							ops[7].mod(m, i)
							ops[7].do(sp, i)
						case 3:
							ops[9].mod(m, i)
							ops[9].do(sp, i)
						case 4:
							trace.StartSpan(ctx, "child")
							m.kids++
						}
					}
					want := m.str(vsched.Now())
					sp.End()
					if len(exp.got) != 1 || spanStr(exp.got[0]) != want {
						vsched.Failf("got %v\nwant %s", exp.got, want)
					}
				})
				s.Case(n)
				s.Outcome(cas)
			}
		}
	}})
}
