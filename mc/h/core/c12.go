package main

import (
	"context"
	"fmt"

	"go.opencensus.io/internal"
	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/trace"
)

// sampled asks s and remembers what it was asked.
type askLog struct {
	asked []trace.SamplingParameters
	who   []string
}

func (a *askLog) sampler(name string, f func(p trace.SamplingParameters) bool) trace.Sampler {
	return func(p trace.SamplingParameters) trace.SamplingDecision {
		a.asked = append(a.asked, p)
		a.who = append(a.who, name)
		return trace.SamplingDecision{Sample: f(p)}
	}
}

func yes(trace.SamplingParameters) bool { return true }
func no(trace.SamplingParameters) bool  { return false }

func init() {
	// every lineage of spans started from every kind of parent with every sampler option
	type pk int
	const (
		none pk = iota
		last
		first
		fromRemoteLast
		remoteSampled
		remoteUnsampled
		remoteOdd
		remoteEmpty
		nilSpan
		lastPlusRemote // remote parent although the context has a local span
		lastPlusEmpty  // nothing remote although the context has a local span
		remoteNoTrace  // a remote context with a span ID only
		remoteNoSpan   // and one with a trace ID only
		nparents
	)
	type letter struct {
		p    pk
		samp int // 0 none, 1 yes, 2 no
	}
	var letters []letter
	for p := none; p < nparents; p++ {
		for sm := 0; sm < 3; sm++ {
			letters = append(letters, letter{p, sm})
		}
	}
	vh.Add(&vh.Task{Prop: "C12", Name: "lineages", Shards: [2]int{8, 8}, Weight: 2, Seq: func(s *vh.S) {
		ts := mkTS("k", "v", "l", "w")
		for variant := 0; variant < 8; variant++ {
			depth := 3
			if s.Thorough || variant == 2 {
				depth = 4
			}
			localOn, defYes, idGen := variant&1 == 1, variant&2 != 0, variant&4 != 0
			if !s.Thorough && localOn && idGen {
				continue
			}
			s.Seqs(len(letters), depth, func(seq []int) {
				cas := fmt.Sprintf("local=%v default=%v own ids=%v", localOn, defYes, idGen)
				for _, l := range seq {
					cas += fmt.Sprintf(" {parent %d sampler %d}", letters[l].p, letters[l].samp)
				}
				s.Exec(cas, func() {
					vsched.Reinit()
					internal.LocalSpanStoreEnabled = localOn
					log := &askLog{}
					exp := &spanLog{}
					trace.RegisterExporter(exp)
					cfg := trace.Config{DefaultSampler: log.sampler("default", no)}
					if defYes {
						cfg.DefaultSampler = log.sampler("default", yes)
					}
					ids := &numIDs{}
					if idGen {
						cfg.IDGenerator = ids
					}
					trace.ApplyConfig(cfg)
					opt := log.sampler
					type sp struct {
						ctx    context.Context
						sp     *trace.Span
						parent trace.SpanID
						sc     trace.SpanContext
						remote bool
						has    bool
						kids   int
						l      letter
						i      int
					}
					var spans []*sp
					seen := map[trace.SpanID]bool{{}: true}
					tids := map[trace.TraceID]bool{{}: true}
					for i, li := range seq {
						l := letters[li]
						var pctx context.Context = bg
						var parent trace.SpanContext
						var local *sp
						remote := l.p >= fromRemoteLast && l.p != nilSpan
						pickLocal := func(j int) {
							if j >= 0 && j < len(spans) {
								local = spans[j]
								pctx = local.ctx
							}
						}
						switch l.p {
						case last:
							pickLocal(len(spans) - 1)
						case first:
							pickLocal(0)
						case fromRemoteLast:
							if len(spans) > 0 {
								parent = spans[len(spans)-1].sc
							}
						case remoteSampled:
							parent = trace.SpanContext{TraceID: trace.TraceID{7}, SpanID: trace.SpanID{8}, TraceOptions: 1}
						case remoteUnsampled:
							parent = trace.SpanContext{TraceID: trace.TraceID{9}, SpanID: trace.SpanID{10}, Tracestate: ts}
						case remoteOdd:
							parent = trace.SpanContext{TraceID: trace.TraceID{9}, SpanID: trace.SpanID{10}, TraceOptions: 6, Tracestate: ts}
						case remoteNoTrace:
							parent = trace.SpanContext{SpanID: trace.SpanID{13}}
						case remoteNoSpan:
							parent = trace.SpanContext{TraceID: trace.TraceID{14}, TraceOptions: 1}
						case nilSpan:
							pctx = trace.NewContext(bg, nil)
						case lastPlusEmpty:
							pickLocal(len(spans) - 1)
							local = nil
						case lastPlusRemote:
							pickLocal(len(spans) - 1)
							local = nil
							parent = trace.SpanContext{TraceID: trace.TraceID{11}, SpanID: trace.SpanID{12}, TraceOptions: 1, Tracestate: ts}
						}
						if local != nil {
							parent = local.sc
							local.kids++
						}
						has := parent != trace.SpanContext{}
						var so []trace.StartOption
						kind := i % 3
						so = append(so, trace.WithSpanKind(kind))
						switch l.samp {
						case 1:
							so = append(so, trace.WithSampler(opt("option", yes)))
						case 2:
							so = append(so, trace.WithSampler(opt("option", no)))
						}
						asks := len(log.asked)
						n0 := *ids
						var c context.Context
						var span *trace.Span
						name := fmt.Sprint("span", i)
						if remote {
							c, span = trace.StartSpanWithRemoteParent(pctx, name, parent, so...)
						} else {
							c, span = trace.StartSpan(pctx, name, so...)
						}
						sc := span.SpanContext()
						// who decides
						ask := !has || remote || l.samp != 0
						want := parent.IsSampled()
						if ask {
							want = defYes
							who := "default"
							if l.samp != 0 {
								want, who = l.samp == 1, "option"
							}
							if len(log.asked) != asks+1 || log.who[asks] != who {
								vsched.Failf("span %d: samplers asked %v, want %s once", i, log.who[asks:], who)
							}
							p := log.asked[asks]
							if p.ParentContext != parent || p.TraceID != sc.TraceID || p.SpanID != sc.SpanID || p.Name != name || p.HasRemoteParent != remote && has {
								vsched.Failf("span %d: sampler was asked with %+v; parent %+v, span %+v, remote %v", i, p, parent, sc, remote)
							}
						} else if len(log.asked) != asks {
							vsched.Failf("span %d: sampler %v asked for the child of a local span", i, log.who[asks:])
						}
						if sc.IsSampled() != want {
							vsched.Failf("span %d: sampled %v, want %v", i, sc.IsSampled(), want)
						}
						if sc.TraceOptions&^1 != parent.TraceOptions&^1 {
							vsched.Failf("span %d: options %d from parent %d", i, sc.TraceOptions, parent.TraceOptions)
						}
						if has && sc.TraceID != parent.TraceID || sc.Tracestate != parent.Tracestate {
							vsched.Failf("span %d: context %+v, parent %+v", i, sc, parent)
						}
						if seen[sc.SpanID] || sc.SpanID == parent.SpanID {
							vsched.Failf("span %d: span id %v is not fresh", i, sc.SpanID)
						}
						seen[sc.SpanID] = true
						if !has {
							if tids[sc.TraceID] {
								vsched.Failf("span %d: trace id %v is not fresh", i, sc.TraceID)
							}
						}
						tids[sc.TraceID] = true
						if idGen {
							wt := uint64(0)
							if !has {
								wt = 1
							}
							if ids.spans != n0.spans+1 || ids.traces != n0.traces+wt {
								vsched.Failf("span %d: generator asked for %d trace and %d span ids", i, ids.traces-n0.traces, ids.spans-n0.spans)
							}
						}
						if span.IsRecordingEvents() != (localOn || sc.IsSampled()) {
							vsched.Failf("span %d: recording %v", i, span.IsRecordingEvents())
						}
						if trace.FromContext(c) != span {
							vsched.Failf("span %d is not the one in its context", i)
						}
						if pc := trace.FromContext(pctx); local != nil && pc != local.sp {
							vsched.Failf("parent context changed")
						}
						spans = append(spans, &sp{c, span, parent.SpanID, sc, remote, has, 0, l, i})
					}
					// end in both orders
					for j := range spans {
						k := j
						if variant&2 != 0 {
							k = len(spans) - 1 - j
						}
						spans[k].sp.End()
					}
					out := ""
					for _, x := range spans {
						n := exp.count(x.sc.SpanID)
						if n != map[bool]int{true: 1}[x.sc.IsSampled()] {
							vsched.Failf("span %d (%+v) exported %d times", x.i, x.sc, n)
						}
						out += fmt.Sprintf("%v/%d ", x.sc.IsSampled(), x.kids)
					}
					for _, d := range exp.got {
						for _, x := range spans {
							if x.sc.SpanID == d.SpanID {
								if d.SpanContext != x.sc || d.ParentSpanID != x.parent || d.Name != fmt.Sprint("span", x.i) || d.SpanKind != x.i%3 || d.ChildSpanCount != x.kids || d.HasRemoteParent != x.remote && x.has {
									vsched.Failf("span %d exported as %s, want context %+v parent %s remote %v kind %d children %d", x.i, spanStr(d), x.sc, x.parent, x.remote, x.i%3, x.kids)
								}
							}
						}
					}
					if len(exp.got) != count(spans, func(x *sp) bool { return x.sc.IsSampled() }) {
						vsched.Failf("%d spans exported", len(exp.got))
					}
					s.Outcome("%s", out)
				})
				s.Case(depth)
				s.Sample("%s", cas)
			})
		}
	}})
	// a span starts while the default sampler is being replaced: one sampler decides, consistently
	vh.Add(&vh.Task{Prop: "C12", Name: "sampler-change", Race: true, Bound: [2]int{99, 99}, Shards: [2]int{8, 8}, Body: func() {
		vsched.Reinit()
		internal.LocalSpanStoreEnabled = false
		exp := &spanLog{}
		trace.RegisterExporter(exp)
		asked := 0
		trace.ApplyConfig(trace.Config{IDGenerator: &lockedIDs{}, DefaultSampler: func(p trace.SamplingParameters) trace.SamplingDecision {
			asked++
			return trace.SamplingDecision{Sample: true}
		}})
		vsched.Explore(true)
		done := false
		a := vsched.Thread("config", func() {
			trace.ApplyConfig(trace.Config{DefaultSampler: trace.NeverSample()})
			done = true
		})
		var scs [2]trace.SpanContext
		b := vsched.Thread("starter", func() {
			for i := range scs {
				ctx, sp := trace.StartSpan(bg, "root")
				_, ch := trace.StartSpanWithRemoteParent(ctx, "child", sp.SpanContext())
				scs[i] = sp.SpanContext()
				ch.End()
				sp.End()
			}
		})
		vsched.Join(a, b)
		vsched.Explore(false)
		_ = done
		n := 0
		for _, c := range scs {
			if exp.count(c.SpanID) != map[bool]int{true: 1}[c.IsSampled()] {
				vsched.Failf("span %v exported %d times", c, exp.count(c.SpanID))
			}
			if c.IsSampled() {
				n++
			}
		}
		if scs[1].IsSampled() && !scs[0].IsSampled() {
			vsched.Failf("the replaced sampler decided again")
		}
		_, sp := trace.StartSpan(bg, "later")
		if sp.SpanContext().IsSampled() {
			vsched.Failf("a span started after ApplyConfig returned used the old sampler")
		}
		vsched.Outcome("%d sampled", n)
	}})
}

func count[T any](xs []T, f func(T) bool) int {
	n := 0
	for _, x := range xs {
		if f(x) {
			n++
		}
	}
	return n
}
