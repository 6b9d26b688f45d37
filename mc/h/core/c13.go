package main

import (
	"encoding/binary"
	"fmt"

	"go.opencensus.io/internal"
	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/trace"
)

// lockedIDs is a generator safe for concurrent use that does not synchronise its callers.
type lockedIDs struct{}

func (g *lockedIDs) next() uint64 { return uint64(vsched.Stamp()) }

func (g *lockedIDs) NewTraceID() (t [16]byte) { binary.BigEndian.PutUint64(t[8:], g.next()); return }
func (g *lockedIDs) NewSpanID() (t [8]byte)   { binary.BigEndian.PutUint64(t[:], g.next()); return }

// stampLog records when it was called; the calls may come from any thread.
type stampLog struct {
	calls []stampCall
	_     int
}

type stampCall struct {
	l  *stampLog
	id trace.SpanID
	at int64
	th int
}

// gather moves the calls so far from the scheduler's log to the exporters.
func gather(ls []*stampLog) {
	for _, l := range ls {
		l.calls = nil
	}
	for _, v := range vsched.Logs() {
		if c, ok := v.(stampCall); ok {
			c.l.calls = append(c.l.calls, c)
		}
	}
}

func (l *stampLog) ExportSpan(s *trace.SpanData) {
	vsched.Log(stampCall{l, s.SpanID, vsched.Stamp(), vsched.CurID()})
	vsched.Yield() // an exporter takes its time
	if s.Name == "" {
		vsched.Failf("torn span data")
	}
}

func init() {
	setup := func(local bool) {
		vsched.Reinit()
		internal.LocalSpanStoreEnabled = local
		trace.ApplyConfig(trace.Config{DefaultSampler: trace.AlwaysSample(), IDGenerator: &lockedIDs{}})
	}
	type span struct{ from, to int64 }
	// several threads end the same span while exporters come and go
	mk := func(name string, enders, ends int, quick, thorough int, local bool, churn func(l []*stampLog) []func(reg func(i int, on bool))) {
		vh.Add(&vh.Task{Prop: "C13", Name: name, Race: true, Bound: [2]int{quick, thorough}, Shards: [2]int{8, 8}, Body: func() {
			setup(local)
			ls := []*stampLog{{}, {}, {}}
			trace.RegisterExporter(ls[0]) // registered throughout
			ctx, sp := trace.StartSpan(bg, "parent")
			_, un := trace.StartSpan(bg, "unsampled", trace.WithSampler(trace.NeverSample()))
			_, never := trace.StartSpan(ctx, "never ended")
			vsched.Explore(true)
			var gs []*vsched.G
			endCalls := make([][]span, enders)
			for i := 0; i < enders; i++ {
				i := i
				gs = append(gs, vsched.Thread(fmt.Sprint("end", i), func() {
					for k := 0; k < ends; k++ {
						t0 := vsched.Stamp()
						sp.End()
						endCalls[i] = append(endCalls[i], span{t0, vsched.Stamp()})
					}
					un.End()
				}))
			}
			type regEv struct {
				i      int
				on     bool
				t0, t1 int64
			}
			fs := churn(ls)
			regs := make([][]regEv, len(fs))
			for j, f := range fs {
				j, f := j, f
				gs = append(gs, vsched.Thread(fmt.Sprint("churn", j), func() {
					f(func(i int, on bool) {
						t0 := vsched.Stamp()
						if on {
							trace.RegisterExporter(ls[i])
						} else {
							trace.UnregisterExporter(ls[i])
						}
						regs[j] = append(regs[j], regEv{i, on, t0, vsched.Stamp()})
					})
				}))
			}
			vsched.Join(gs...)
			vsched.Explore(false)
			gather(ls)
			lo, hi := int64(1)<<60, int64(0) // first End begins, first End returns
			hi = 1 << 60
			for _, e := range endCalls {
				for _, c := range e {
					if c.from < lo {
						lo = c.from
					}
					if c.to < hi {
						hi = c.to
					}
				}
			}
			out := ""
			for i, l := range ls {
				n := 0
				for _, c := range l.calls {
					if c.id == un.SpanContext().SpanID || c.id == never.SpanContext().SpanID {
						vsched.Failf("exporter %d got a span that was not to be exported", i)
					}
					if c.id == sp.SpanContext().SpanID {
						n++
						if c.at > hi {
							vsched.Failf("exporter %d called at %d, after an End call had returned at %d", i, c.at, hi)
						}
					} else {
						vsched.Failf("exporter %d got unknown span %v", i, c.id)
					}
				}
				if n > 1 {
					vsched.Failf("exporter %d called %d times", i, n)
				}
				// when was the exporter certainly registered or certainly not
				must, may := i == 0, i == 0
				for _, rs := range regs {
					for _, r := range rs {
						if r.i != i || i == 0 {
							continue
						}
						if r.on {
							if r.t0 < hi {
								may = true
							}
							if r.t1 < lo {
								must = true
							}
						} else {
							if r.t1 < lo {
								may = false
								must = false
							}
							if r.t0 < hi {
								must = false
							}
						}
					}
				}
				if must && n != 1 {
					vsched.Failf("exporter %d was registered before the span was ended and not called (ended %d..%d, registrations %v)", i, lo, hi, regs)
				}
				if !may && n != 0 {
					vsched.Failf("exporter %d was not registered while the span was ended and was called (ended %d..%d, registrations %v)", i, lo, hi, regs)
				}
				out += fmt.Sprint(n)
			}
			// the registered set afterwards is what the calls left
			_, z := trace.StartSpan(bg, "probe")
			z.End()
			gather(ls)
			for i, l := range ls {
				n := 0
				for _, c := range l.calls {
					if c.id == z.SpanContext().SpanID {
						n++
					}
				}
				on := i == 0
				for _, rs := range regs {
					for _, r := range rs {
						if r.i == i {
							on = r.on
						}
					}
				}
				if n != map[bool]int{true: 1}[on] {
					vsched.Failf("exporter %d called %d times for a later span, registered: %v (%v)", i, n, on, regs)
				}
			}
			vsched.Outcome("%s", out)
		}})
	}
	// each exporter index is changed by one churn thread only
	mk("end-while-exporters-change", 2, 1, 2, 4, false, func(l []*stampLog) []func(func(int, bool)) {
		return []func(func(int, bool)){
			func(reg func(int, bool)) { reg(1, true); reg(1, false) },
			func(reg func(int, bool)) { reg(2, true) },
		}
	})
	mk("end-thrice-with-local-store", 3, 1, 2, 4, true, func(l []*stampLog) []func(func(int, bool)) {
		return []func(func(int, bool)){func(reg func(int, bool)) { reg(2, true); reg(2, true) }}
	})
	mk("unregister-then-end", 1, 2, 99, 99, false, func(l []*stampLog) []func(func(int, bool)) {
		return []func(func(int, bool)){
			func(reg func(int, bool)) { reg(1, true); reg(2, true); reg(1, false) },
		}
	})
	// the only exporter comes and goes while spans are ended
	vh.Add(&vh.Task{Prop: "C13", Name: "last-exporter", Race: true, Bound: [2]int{99, 99}, Shards: [2]int{8, 8}, Body: func() {
		setup(false)
		l := &stampLog{}
		start := vsched.Choose(2, "registered at first")
		if start == 1 {
			trace.RegisterExporter(l)
		}
		_, s1 := trace.StartSpan(bg, "one")
		_, s2 := trace.StartSpan(bg, "two")
		vsched.Explore(true)
		var ends, regs [][2]int64
		spans := []*trace.Span{s1, s2}
		g1 := vsched.Thread("end", func() {
			for _, sp := range spans {
				t0 := vsched.Stamp()
				sp.End()
				ends = append(ends, [2]int64{t0, vsched.Stamp()})
			}
		})
		g2 := vsched.Thread("churn", func() {
			for k := 0; k < 3; k++ {
				t0 := vsched.Stamp()
				if (k+start)%2 == 0 {
					trace.RegisterExporter(l)
				} else {
					trace.UnregisterExporter(l)
				}
				regs = append(regs, [2]int64{t0, vsched.Stamp()})
			}
		})
		vsched.Join(g1, g2)
		vsched.Explore(false)
		gather([]*stampLog{l})
		out := ""
		for i, sp := range spans {
			n := 0
			for _, c := range l.calls {
				if c.id == sp.SpanContext().SpanID {
					n++
				}
			}
			// the states the registration may have been in while the span was ended
			may := [2]bool{}
			for k := 0; k <= len(regs); k++ {
				from, to := int64(0), int64(1)<<60
				if k > 0 {
					from = regs[k-1][0]
				}
				if k < len(regs) {
					to = regs[k][1]
				}
				if from < ends[i][1] && ends[i][0] < to {
					may[(k+start)%2] = true
				}
			}
			if n > 1 || !may[n] {
				vsched.Failf("span %d exported %d times, ended %v, registrations %v", i, n, ends[i], regs)
			}
			out += fmt.Sprint(n)
		}
		vsched.Outcome("%d %s", start, out)
	}})
	// exporters that themselves use the API
	vh.Add(&vh.Task{Prop: "C13", Name: "busy-exporters", Shards: [2]int{4, 4}, Seq: func(s *vh.S) {
		what := []string{"start", "start child", "end", "end two", "register", "unregister other", "unregister itself", "apply", "lookup"}
		for variant := 0; variant < 2; variant++ {
			s.Seqs(len(what), 2, func(seq []int) {
				cas := fmt.Sprintf("local=%v, the exporter does", variant == 1)
				for _, l := range seq {
					cas += " " + what[l] + ","
				}
				s.Exec(cas, func() {
					setup(variant == 1)
					plain, late, other := &spanLog{}, &spanLog{}, &spanLog{}
					ctx, outer := trace.StartSpan(bg, "outer")
					var inner []*trace.Span
					_, open := trace.StartSpan(ctx, "open")
					_, second := trace.StartSpan(ctx, "second")
					calls, depth, lateOn := map[trace.SpanID]int{}, 0, false
					var busy *fnSpanExporter
					busy = &fnSpanExporter{func(d *trace.SpanData) {
						calls[d.SpanContext.SpanID]++
						depth++
						defer func() { depth-- }()
						if depth > 1 || d.Name != "outer" {
							return
						}
						for _, l := range seq {
							switch what[l] {
							case "start":
								_, x := trace.StartSpan(bg, "inner")
								x.End()
								inner = append(inner, x)
							case "start child":
								_, x := trace.StartSpan(ctx, "inner")
								x.Annotate(nil, "text")
								inner = append(inner, x)
							case "end":
								open.End()
							case "end two":
								open.End()
								second.End()
							case "register":
								trace.RegisterExporter(late)
								lateOn = true
							case "unregister other":
								trace.UnregisterExporter(other)
							case "unregister itself":
								trace.UnregisterExporter(busy)
							case "apply":
								trace.ApplyConfig(trace.Config{MaxAnnotationEventsPerSpan: 3})
							case "lookup":
								if internal.LocalSpanStoreEnabled {
									trace.StartSpan(bg, "stored")
								}
							}
						}
					}}
					trace.RegisterExporter(plain)
					trace.RegisterExporter(busy)
					trace.RegisterExporter(other)
					outer.End()
					for _, x := range inner {
						x.End()
					}
					open.End()
					second.End()
					for _, x := range append(inner, outer, open, second) {
						id := x.SpanContext().SpanID
						if plain.count(id) != 1 {
							vsched.Failf("a span exported %d times", plain.count(id))
						}
						if x != outer && late.count(id) > 1 || other.count(id) > 1 || calls[id] > 1 {
							vsched.Failf("a span exported more than once")
						}
					}
					if calls[outer.SpanContext().SpanID] != 1 {
						vsched.Failf("the busy exporter called %d times for the span", calls[outer.SpanContext().SpanID])
					}
					_, z := trace.StartSpan(bg, "probe")
					z.End()
					if n := late.count(z.SpanContext().SpanID); n != map[bool]int{true: 1}[lateOn] {
						vsched.Failf("the exporter registered meanwhile: %d calls", n)
					}
					off := false
					for _, l := range seq {
						off = off || what[l] == "unregister other"
					}
					if n := other.count(z.SpanContext().SpanID); n != map[bool]int{true: 1}[!off] {
						vsched.Failf("the exporter unregistered meanwhile: %d calls", n)
					}
					s.Outcome("%d %v %v", len(plain.got), lateOn, off)
				})
				s.Case(len(seq))
				s.Sample("%s", cas)
			})
		}
	}})
	// all histories of starting, ending and (un)registering
	vh.Add(&vh.Task{Prop: "C13", Name: "histories", Shards: [2]int{8, 8}, Seq: func(s *vh.S) {
		names := []string{"start", "start unsampled", "start child", "end oldest", "end newest", "end all again", "register 0", "register 1", "unregister 0", "unregister 1", "unregister unknown"}
		depth := s.Pick(5, 6)
		for variant := 0; variant < 2; variant++ {
			s.Seqs(len(names), depth, func(seq []int) {
				cas := fmt.Sprintf("local=%v", variant == 1)
				for _, l := range seq {
					cas += ", " + names[l]
				}
				s.Exec(cas, func() {
					setup(variant == 1)
					ls := []*spanLog{{}, {}, {}}
					reg := map[int]bool{}
					type sp struct {
						s     *trace.Span
						ended bool
						want  [3]int
					}
					var sps []*sp
					ctx := bg
					end := func(x *sp) {
						if !x.ended && x.s.SpanContext().IsSampled() {
							for i := range reg {
								x.want[i]++
							}
						}
						x.ended = true
						x.s.End()
						for i, l := range ls {
							if n := l.count(x.s.SpanContext().SpanID); n != x.want[i] {
								vsched.Failf("exporter %d called %d times by the time End returned, want %d", i, n, x.want[i])
							}
						}
					}
					for _, l := range seq {
						switch l {
						case 0, 1, 2:
							c := bg
							if l == 2 {
								c = ctx
							}
							var o []trace.StartOption
							if l == 1 {
								o = append(o, trace.WithSampler(trace.NeverSample()))
							}
							c, x := trace.StartSpan(c, "s", o...)
							ctx = c
							sps = append(sps, &sp{s: x})
						case 3:
							for _, x := range sps {
								if !x.ended {
									end(x)
									break
								}
							}
						case 4:
							for i := len(sps) - 1; i >= 0; i-- {
								if !sps[i].ended {
									end(sps[i])
									break
								}
							}
						case 5:
							for _, x := range sps {
								if x.ended {
									end(x)
								}
							}
						case 6, 7:
							trace.RegisterExporter(ls[l-6])
							reg[l-6] = true
						case 8, 9:
							trace.UnregisterExporter(ls[l-8])
							delete(reg, l-8)
						case 10:
							trace.UnregisterExporter(ls[2])
						}
					}
					out := ""
					for i, l := range ls {
						n := 0
						for _, x := range sps {
							n += x.want[i]
							if l.count(x.s.SpanContext().SpanID) != x.want[i] {
								vsched.Failf("exporter %d: span exported %d times, want %d", i, l.count(x.s.SpanContext().SpanID), x.want[i])
							}
						}
						if len(l.got) != n {
							vsched.Failf("exporter %d got %d spans, want %d", i, len(l.got), n)
						}
						out += fmt.Sprint(n, " ")
					}
					s.Outcome("%s of %d", out, len(sps))
				})
				s.Case(depth)
				s.Sample("%s", cas)
			})
		}
	}})
}

type fnSpanExporter struct{ f func(*trace.SpanData) }

func (e *fnSpanExporter) ExportSpan(d *trace.SpanData) { e.f(d) }
