package main

import (
	"fmt"

	"go.opencensus.io/internal"
	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/trace"
)

func init() {
	type op struct {
		name string
		do   func()
		// seen reports whether the exported data contains the operation
		seen func(d *trace.SpanData) bool
	}
	// threads work on one span while one of them ends it
	mk := func(name string, local bool, quick, thorough int, end int, progs func(sp *trace.Span, start func(n string) func()) [][]op) {
		vh.Add(&vh.Task{Prop: "C15", Name: name, Race: true, Bound: [2]int{quick, thorough}, Shards: [2]int{8, 8}, Body: func() {
			vsched.Reinit()
			internal.LocalSpanStoreEnabled = local
			exp := &spanLog{}
			trace.RegisterExporter(exp)
			trace.ApplyConfig(trace.Config{DefaultSampler: trace.AlwaysSample(), IDGenerator: &lockedIDs{}})
			ctx, sp := trace.StartSpan(bg, "start")
			ps := progs(sp, func(n string) func() {
				return func() {
					_, c := trace.StartSpan(ctx, n)
					if c.SpanContext().TraceID != sp.SpanContext().TraceID {
						vsched.Failf("child of another trace")
					}
				}
			})
			type done struct {
				o      op
				t0, t1 int64
			}
			dones := make([][]done, len(ps))
			var e0, e1 int64 = 1 << 60, 1 << 60
			vsched.Explore(true)
			var gs []*vsched.G
			for i, p := range ps {
				i, p := i, p
				gs = append(gs, vsched.Thread(fmt.Sprint("t", i), func() {
					for _, o := range p {
						t0 := vsched.Stamp()
						o.do()
						dones[i] = append(dones[i], done{o, t0, vsched.Stamp()})
					}
					if i == end {
						e0 = vsched.Stamp()
						sp.End()
						e1 = vsched.Stamp()
					}
				}))
			}
			vsched.Join(gs...)
			vsched.Explore(false)
			var d *trace.SpanData
			for _, x := range exp.got {
				if x.SpanID == sp.SpanContext().SpanID {
					if d != nil {
						vsched.Failf("exported twice")
					}
					d = x
				}
			}
			if d == nil {
				vsched.Failf("not exported")
			}
			out := ""
			kidsMin, kidsMax, kids := 0, 0, false
			anns := map[string]bool{}
			for _, a := range d.Annotations {
				anns[a.Message] = true
			}
			for _, ds := range dones {
				prev := true
				for _, x := range ds {
					if x.o.seen == nil { // a child
						kids = true
						if x.t0 < e1 {
							kidsMax++
						}
						if x.t1 < e0 {
							kidsMin++
						}
						continue
					}
					if x.o.name == "observe" {
						continue
					}
					got := x.o.seen(d)
					if x.t1 < e0 && !got {
						vsched.Failf("%s completed before End was called but is not in the exported data %s", x.o.name, spanStr(d))
					}
					if x.t0 > e1 && got {
						vsched.Failf("%s started after End returned but is in the exported data %s", x.o.name, spanStr(d))
					}
					if got && !prev {
						vsched.Failf("%s is in the exported data, an earlier operation of its goroutine is not: %s", x.o.name, spanStr(d))
					}
					prev = got
					out += map[bool]string{true: "1", false: "0"}[got]
				}
			}
			if kids && (d.ChildSpanCount < kidsMin || d.ChildSpanCount > kidsMax) {
				vsched.Failf("child count %d, want %d..%d", d.ChildSpanCount, kidsMin, kidsMax)
			}
			vsched.Outcome("%s k%d", out, d.ChildSpanCount)
		}})
	}
	has := func(k string, v interface{}) func(d *trace.SpanData) bool {
		return func(d *trace.SpanData) bool { return d.Attributes[k] == v }
	}
	ann := func(m string) func(d *trace.SpanData) bool {
		return func(d *trace.SpanData) bool {
			for _, a := range d.Annotations {
				if a.Message == m {
					return true
				}
			}
			return false
		}
	}
	mk("span-updates", false, 5, 99, 0, func(sp *trace.Span, start func(string) func()) [][]op {
		return [][]op{
			{{"attribute a", func() { sp.AddAttributes(trace.Int64Attribute("a", 1), trace.Int64Attribute("a2", 1)) }, func(d *trace.SpanData) bool {
				if d.Attributes["a"] != d.Attributes["a2"] {
					vsched.Failf("attributes set together are torn: %v", d.Attributes)
				}
				return d.Attributes["a"] == int64(1)
			}},
				{"annotation x", func() { sp.Annotate([]trace.Attribute{trace.StringAttribute("k", "v")}, "x") }, ann("x")}},
			{{"attribute b", func() { sp.AddAttributes(trace.Int64Attribute("b", 2)) }, has("b", int64(2))},
				{"status", func() { sp.SetStatus(trace.Status{Code: 2, Message: "two"}) }, func(d *trace.SpanData) bool {
					if (d.Code == 2) != (d.Message == "two") {
						vsched.Failf("torn status %v", d.Status)
					}
					return d.Code == 2
				}}},
			{{"annotation y", func() { sp.Annotatef(nil, "%s", "y") }, ann("y")},
				{"link", func() { sp.AddLink(trace.Link{SpanID: trace.SpanID{5}}) }, func(d *trace.SpanData) bool { return len(d.Links) == 1 && d.Links[0].SpanID[0] == 5 }}},
		}
	})
	mk("span-children-events", false, 3, 6, 1, func(sp *trace.Span, start func(string) func()) [][]op {
		return [][]op{
			{{"child", start("c1"), nil}, {"child", start("c2"), nil}},
			{{"send", func() { sp.AddMessageSendEvent(1, 2, 3) }, func(d *trace.SpanData) bool { return len(d.MessageEvents) > 0 && hasEvent(d, 1) }}, {"child", start("c3"), nil}},
			{{"receive", func() { sp.AddMessageReceiveEvent(4, 5, 6) }, func(d *trace.SpanData) bool { return hasEvent(d, 4) }},
				{"name", func() { sp.SetName("renamed"); _ = sp.String(); _ = sp.SpanContext().IsSampled() }, func(d *trace.SpanData) bool { return d.Name == "renamed" }}},
		}
	})
	mk("span-with-local-store", true, 4, 99, 0, func(sp *trace.Span, start func(string) func()) [][]op {
		return [][]op{
			{{"attribute a", func() { sp.AddAttributes(trace.Int64Attribute("a", 1)) }, has("a", int64(1))}},
			{{"child", start("start"), nil}, {"annotation y", func() { sp.Annotate(nil, "y") }, ann("y")}},
			{{"observe", func() {
				for _, d := range store().ReportActiveSpans("start") {
					if d.SpanID == sp.SpanContext().SpanID && !d.EndTime.IsZero() {
						vsched.Failf("an active span has an end time")
					}
					_ = len(d.Annotations) + len(d.Attributes)
				}
				store().ReportSpansByError("start", 0)
			}, func(d *trace.SpanData) bool { return true }}},
		}
	})
	// configuration changes to different settings all take effect
	vh.Add(&vh.Task{Prop: "C15", Name: "config-changes", Race: true, Bound: [2]int{99, 99}, Shards: [2]int{8, 8}, Body: func() {
		vsched.Reinit()
		internal.LocalSpanStoreEnabled = false
		exp := &spanLog{}
		trace.RegisterExporter(exp)
		trace.ApplyConfig(trace.Config{DefaultSampler: trace.NeverSample(), MaxAnnotationEventsPerSpan: 3, MaxMessageEventsPerSpan: 3, MaxAttributesPerSpan: 3, MaxLinksPerSpan: 3, IDGenerator: &lockedIDs{}})
		vsched.Explore(true)
		type d4 [4]int // annotations, events, attributes, links kept
		probe := func() (d4, bool) {
			_, sp := trace.StartSpan(bg, "probe", trace.WithSampler(trace.AlwaysSample()))
			_, sp2 := trace.StartSpan(bg, "default")
			for i := 0; i < 5; i++ {
				sp.Annotate(nil, "x")
				sp.AddMessageSendEvent(1, 1, 1)
				sp.AddAttributes(trace.Int64Attribute(string(rune('a'+i)), 1))
				sp.AddLink(trace.Link{})
			}
			// the span's own view of its data, through a local exporter
			sp.End()
			for _, d := range exp.got {
				if d.SpanID == sp.SpanContext().SpanID {
					return d4{len(d.Annotations), len(d.MessageEvents), len(d.Attributes), len(d.Links)}, sp2.SpanContext().IsSampled()
				}
			}
			vsched.Failf("probe not exported")
			return d4{}, false
		}
		a := vsched.Thread("a", func() {
			trace.ApplyConfig(trace.Config{MaxAnnotationEventsPerSpan: 2, DefaultSampler: trace.AlwaysSample()})
			trace.ApplyConfig(trace.Config{MaxAnnotationEventsPerSpan: -1, MaxLinksPerSpan: 0})
		})
		b := vsched.Thread("b", func() { trace.ApplyConfig(trace.Config{MaxMessageEventsPerSpan: 2, MaxAttributesPerSpan: 1}) })
		c := vsched.Thread("c", func() { trace.ApplyConfig(trace.Config{MaxLinksPerSpan: 4}) })
		var mid d4
		e := vsched.Thread("prober", func() {
			_, sp := trace.StartSpan(bg, "mid", trace.WithSampler(trace.AlwaysSample()))
			for i := 0; i < 5; i++ {
				sp.AddMessageSendEvent(1, 1, 1)
				sp.AddAttributes(trace.Int64Attribute(string(rune('a'+i)), 1))
			}
			sp.End()
			for _, d := range exp.got {
				if d.SpanID == sp.SpanContext().SpanID {
					mid = d4{0, len(d.MessageEvents), len(d.Attributes)}
				}
			}
		})
		vsched.Join(a, b, c, e)
		vsched.Explore(false)
		if mid != (d4{0, 3, 3}) && mid != (d4{0, 2, 1}) {
			vsched.Failf("a span used limits %v of no configuration", mid)
		}
		got, def := probe()
		if got != (d4{2, 2, 1, 4}) || !def {
			vsched.Failf("limits after all changes: %v default sampler always: %v, want [2 2 1 4] true", got, def)
		}
		vsched.Outcome("%v", mid)
	}})
	// sampler and limits of one span come from one configuration, whenever another is applied: by the
	// sampler itself or by another goroutine
	vh.Add(&vh.Task{Prop: "C15", Name: "one-configuration", Race: true, Bound: [2]int{99, 99}, Shards: [2]int{8, 8}, Body: func() {
		vsched.Reinit()
		internal.LocalSpanStoreEnabled = false
		exp := &spanLog{}
		trace.RegisterExporter(exp)
		how := vsched.Choose(3, "who applies")
		var asked int // lockstep: the sampler of the configuration with limit asked was consulted
		var cfg func(n int) trace.Config
		cfg = func(n int) trace.Config {
			return trace.Config{MaxAnnotationEventsPerSpan: n, MaxMessageEventsPerSpan: n, MaxAttributesPerSpan: n, MaxLinksPerSpan: n, IDGenerator: &lockedIDs{},
				DefaultSampler: func(p trace.SamplingParameters) trace.SamplingDecision {
					vsched.Yield()
					if p.Name == "x" {
						asked = n
						if how != 1 && n < 4 {
							trace.ApplyConfig(cfg(n + 1))
						}
					}
					return trace.SamplingDecision{Sample: true}
				}}
		}
		trace.ApplyConfig(cfg(1))
		vsched.Explore(true)
		gs := []*vsched.G{vsched.Thread("start", func() {
			for k := 0; k < 2; k++ {
				_, sp := trace.StartSpan(bg, "x")
				n := asked
				for i := 0; i < 6; i++ {
					sp.Annotate(nil, "x")
					sp.AddMessageSendEvent(1, 1, 1)
					sp.AddAttributes(trace.Int64Attribute(string(rune('a'+i)), 1))
					sp.AddLink(trace.Link{})
				}
				sp.End()
				d := exp.got[len(exp.got)-1]
				if len(d.Annotations) != n || len(d.MessageEvents) != n || len(d.Attributes) != n || len(d.Links) != n {
					vsched.Failf("the sampler is of the configuration with limits %d, the span kept %d annotations, %d events, %d attributes, %d links", n, len(d.Annotations), len(d.MessageEvents), len(d.Attributes), len(d.Links))
				}
			}
		})}
		if how > 0 {
			gs = append(gs, vsched.Thread("apply", func() { trace.ApplyConfig(cfg(5)) }))
		}
		vsched.Join(gs...)
		vsched.Explore(false)
		vsched.Outcome("%d %d", how, len(exp.got))
	}})
	// spans that only the local store keeps: their data is as complete
	vh.Add(&vh.Task{Prop: "C15", Name: "unsampled-local", Race: true, Bound: [2]int{4, 99}, Shards: [2]int{8, 8}, Body: func() {
		vsched.Reinit()
		internal.LocalSpanStoreEnabled = true
		exp := &spanLog{}
		trace.RegisterExporter(exp)
		trace.ApplyConfig(trace.Config{DefaultSampler: trace.NeverSample(), IDGenerator: &lockedIDs{}})
		how := vsched.Choose(2, "how")
		ctx, sp := trace.StartSpan(bg, "start")
		var kids [2]*trace.Span
		vsched.Explore(true)
		var gs []*vsched.G
		for i := 0; i < 2; i++ {
			i := i
			gs = append(gs, vsched.Thread(fmt.Sprint("t", i), func() {
				var c *trace.Span
				if how == 0 {
					_, c = trace.StartSpan(ctx, "start")
				} else {
					_, c = trace.StartSpan(ctx, "child", trace.WithSampler(trace.AlwaysSample()))
				}
				if c.SpanContext().IsSampled() != (how == 1) {
					vsched.Failf("child: %+v", c.SpanContext())
				}
				sp.AddAttributes(trace.Int64Attribute(fmt.Sprint(i), 1))
				kids[i] = c
			}))
		}
		vsched.Join(gs...)
		vsched.Explore(false)
		for _, c := range kids {
			c.End()
		}
		as := store().ReportActiveSpans("start")
		if len(as) != 1 || as[0].ChildSpanCount != 2 || len(as[0].Attributes) != 2 {
			vsched.Failf("active span: %v", as)
		}
		sp.End()
		if len(exp.got) != 2*how || len(store().ReportActiveSpans("start")) != 0 {
			vsched.Failf("%d exported", len(exp.got))
		}
		vsched.Outcome("%d", how)
	}})
	// nil spans and contexts without span
	vh.Add(&vh.Task{Prop: "C15", Name: "nil-spans", Seq: func(s *vh.S) {
		ops := spanOps()
		s.Seqs(len(ops)+1, s.Pick(3, 4), func(seq []int) {
			for k := 0; k < 3; k++ {
				cas := fmt.Sprint(k, seq)
				s.Exec(cas, func() {
					vsched.Reinit()
					exp := &spanLog{}
					trace.RegisterExporter(exp)
					var sp *trace.Span
					ctx := bg
					switch k {
					case 1:
						sp = trace.FromContext(bg)
					case 2:
						ctx = trace.NewContext(bg, nil)
						sp = trace.FromContext(ctx)
					}
					for i, l := range seq {
						if l == len(ops) {
							sp.End()
						} else {
							ops[l].do(sp, i)
						}
						if sp.IsRecordingEvents() || sp.SpanContext() != (trace.SpanContext{}) || sp.String() != "<nil>" {
							vsched.Failf("nil span: %v %v %v", sp.IsRecordingEvents(), sp.SpanContext(), sp)
						}
					}
					_, ch := trace.StartSpan(ctx, "root", trace.WithSampler(trace.AlwaysSample()))
					ch.End()
					if len(exp.got) != 1 || exp.got[0].ParentSpanID != (trace.SpanID{}) {
						vsched.Failf("span started from a context without span")
					}
				})
				s.Case(len(seq))
			}
			s.Outcome("%v", seq)
		})
	}})
}

func hasEvent(d *trace.SpanData, id int64) bool {
	for _, e := range d.MessageEvents {
		if e.MessageID == id {
			if e.UncompressedByteSize != id+1 || e.CompressedByteSize != id+2 {
				vsched.Failf("torn event %v", e)
			}
			return true
		}
	}
	return false
}
