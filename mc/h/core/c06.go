package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
)

// logExporter logs what it is called with.
type logExporter struct {
	id   int
	busy *int
	log  *[]string
	v    []*view.View
	kept []keptData
}

// keptData is a report an exporter holds on to.
type keptData struct {
	d *view.Data
	s string
}

func reportStr(d *view.Data) string {
	return fmt.Sprintf("%s start=%s end=%s [%s]", d.View.Name, tm(d.Start), tm(d.End), rowsStr(d.Rows))
}

func (e *logExporter) ExportView(d *view.Data) {
	*e.busy++
	if *e.busy > 1 {
		vsched.Failf("concurrent exporter calls")
	}
	*e.log = append(*e.log, fmt.Sprintf("e%d %s", e.id, reportStr(d)))
	e.kept = append(e.kept, keptData{d, reportStr(d)})
	e.v = append(e.v, d.View)
	*e.busy--
}

func init() {
	A := &vdef{name: "A", m: "c06/1", keys: []string{"k"}, agg: "dist", bounds: []float64{2}}
	B := &vdef{name: "B", m: "c06/2", agg: "sum"}
	ops := []string{"rec1", "rec2", "regE1", "unregE1", "regA", "unregA", "tick", "period3", "period0", "regE2", "unregB", "regB", "unregE2", "half"}
	run := func(s *vh.S, nops, depth int, def bool, period int64) {
		s.Seqs(nops, depth, func(seq []int) {
			cas := ""
			for _, o := range seq {
				cas += ops[o] + " "
			}
			s.Exec(cas, func() {
				vsched.Reinit()
				m1, m2 := stats.Int64("c06/1", "", "1"), stats.Float64("c06/2", "", "1")
				ms := map[string]stats.Measure{"c06/1": m1, "c06/2": m2}
				var mt view.Meter = defMeter{}
				if !def {
					mt = newMeter()
				}
				vsched.Idle()
				mm := newMM()
				objs := map[string]*view.View{"A": mkView(A, ms["c06/1"]), "B": mkView(B, ms["c06/2"])}
				var log, want []string
				busy := 0
				es := []*logExporter{{id: 0, busy: &busy, log: &log}, {id: 1, busy: &busy, log: &log}}
				on := [2]bool{}
				cur := int64(10e9) // period
				last := vsched.Now()
				// the initial situation: both views and the first exporter registered
				for _, d := range []*vdef{A, B} {
					mustRegister(mt, objs[d.name])
					mm.register(vsched.Now(), []*vdef{d}, []*view.View{objs[d.name]})
				}
				mt.RegisterExporter(es[0])
				on[0] = true
				report := func(n string) {
					o := mm.views[n]
					if o == nil {
						return
					}
					for i := range es {
						if on[i] {
							want = append(want, fmt.Sprintf("e%d %s start=%s end=%s [%s]", i, n, relT(o.start), relT(vsched.Now()), refRows(o.d, o.recs)))
						}
					}
				}
				compare := func(step int, what string) {
					vsched.Idle()
					sort.Strings(log)
					sort.Strings(want)
					if fmt.Sprint(log) != fmt.Sprint(want) {
						vsched.Failf("step %d (%s): exporters called with\n  %s\nwant\n  %s", step, what, strings.Join(log, "\n  "), strings.Join(want, "\n  "))
					}
					log, want = nil, nil
					for _, e := range es {
						for _, v := range e.v {
							if v != objs[v.Name] {
								vsched.Failf("exported with another view definition: %v", v)
							}
						}
						e.v = nil
					}
				}
				advance := func(d int64) {
					for d > 0 {
						next := last + cur - vsched.Now()
						if next > d {
							vsched.AdvanceQuiet(d)
							vsched.Idle()
							return
						}
						vsched.AdvanceQuiet(next)
						d -= next
						last = vsched.Now()
						report("A")
						report("B")
						vsched.Idle()
					}
				}
				for step, o := range seq {
					advance(int64(time.Millisecond))
					switch ops[o] {
					case "rec1":
						if def {
							stats.Record(tagCtx(map[string]string{"k": "x"}), m1.M(int64(step)))
						} else {
							recordOn(mt, tagCtx(map[string]string{"k": "x"}), m1.M(int64(step)))
						}
						mm.record("c06/1", rec{map[string]string{"k": "x"}, sample{v: float64(step), t: vsched.Now()}})
					case "rec2":
						if def {
							stats.Record(bg, m2.M(1.5), m2.M(2))
						} else {
							recordOn(mt, bg, m2.M(1.5), m2.M(2))
						}
						mm.record("c06/2", rec{nil, sample{v: 1.5, t: vsched.Now()}})
						mm.record("c06/2", rec{nil, sample{v: 2, t: vsched.Now()}})
					case "regE1", "regE2":
						i := int(ops[o][4] - '1')
						mt.RegisterExporter(es[i])
						on[i] = true
					case "unregE1", "unregE2":
						i := int(ops[o][6] - '1')
						mt.UnregisterExporter(es[i])
						on[i] = false
					case "regA", "regB":
						n := ops[o][3:]
						d := A
						if n == "B" {
							d = B
						}
						mustRegister(mt, objs[n])
						mm.register(vsched.Now(), []*vdef{d}, []*view.View{objs[n]})
					case "unregA", "unregB":
						n := ops[o][5:]
						report(n)
						mm.unregister(n)
						mt.Unregister(objs[n])
					case "period3":
						mt.SetReportingPeriod(3 * time.Second)
						cur, last = 3e9, vsched.Now()
					case "period0":
						mt.SetReportingPeriod(0)
						cur, last = 10e9, vsched.Now()
					case "tick":
						advance(10e9)
					case "half":
						advance(5e9)
					}
					compare(step, ops[o])
				}
				advance(11e9)
				compare(len(seq), "final tick")
				mt.Stop()
				advance0 := vsched.Now()
				vsched.AdvanceQuiet(60e9)
				vsched.Idle()
				compare(len(seq), "after Stop")
				_ = advance0
				for _, e := range es {
					for _, k := range e.kept {
						if got := reportStr(k.d); got != k.s {
							vsched.Failf("a report has changed after it was delivered:\n  %s\nit was\n  %s", got, k.s)
						}
					}
				}
				s.Outcome("%s", mm)
			})
			s.Case(depth)
			s.Sample("%s", cas)
		})
	}
	vh.Add(&vh.Task{Prop: "C06", Name: "histories", Shards: [2]int{8, 8}, Weight: 5, Seq: func(s *vh.S) {
		run(s, len(ops), s.Pick(4, 5), false, 0)
		run(s, len(ops), 3, true, 0)
		run(s, 8, s.Pick(5, 6), false, 0)
	}})

	// what happens how long before a tick
	vh.Add(&vh.Task{Prop: "C06", Name: "before-ticks", Seq: func(s *vh.S) {
		what := []string{"nothing", "register view", "register view and record", "register exporter", "record", "register the view again", "set resource", "read", "retrieve", "unregister other view", "unregister and register again", "unregister other exporter"}
		for _, period := range []int64{1e6, 1e9, 3e9, 10e9, 3600e9} {
			for _, delta := range []int64{1, 1000, 999999, 1e6, 1e6 + 1, 5e8, 1e9, 9e9, 10e9 - 1} {
				for _, w := range what {
					if delta >= period || !s.Mine() || s.Stop() {
						continue
					}
					cas := fmt.Sprintf("period %d, %s %d ns before the tick", period, w, delta)
					s.Exec(cas, func() {
						vsched.Reinit()
						m1, m2 := stats.Int64("c06/1", "", "1"), stats.Float64("c06/2", "", "1")
						mt := newMeter()
						vsched.Idle()
						mm := newMM()
						va, vb := mkView(A, m1), mkView(B, m2)
						reg := func(d *vdef, v *view.View) {
							mustRegister(mt, v)
							mm.register(vsched.Now(), []*vdef{d}, []*view.View{v})
						}
						reg(B, vb)
						busy := 0
						var log, want []string
						e0, e1 := &logExporter{id: 0, busy: &busy, log: &log}, &logExporter{id: 1, busy: &busy, log: &log}
						mt.RegisterExporter(e0)
						on := 1
						mt.SetReportingPeriod(time.Duration(period))
						report := func() {
							for _, n := range []string{"A", "B"} {
								if o := mm.views[n]; o != nil {
									for i := 0; i < on; i++ {
										want = append(want, fmt.Sprintf("e%d %s start=%s end=%s [%s]", i, n, relT(o.start), relT(vsched.Now()), refRows(o.d, o.recs)))
									}
								}
							}
						}
						record := func() {
							recordOn(mt, bg, m1.M(1), m2.M(2))
							mm.record("c06/1", rec{nil, sample{v: 1, t: vsched.Now()}})
							mm.record("c06/2", rec{nil, sample{v: 2, t: vsched.Now()}})
						}
						if strings.Contains(w, "other view") || strings.Contains(w, "again") {
							reg(A, va)
							record()
						}
						if strings.Contains(w, "other exporter") {
							mt.RegisterExporter(e1)
						}
						vsched.AdvanceQuiet(period - delta)
						switch w {
						case "register view":
							reg(A, va)
						case "register view and record":
							reg(A, va)
							record()
						case "register exporter":
							mt.RegisterExporter(e1)
							on = 2
						case "record":
							record()
						case "register the view again":
							mustRegister(mt, va)
						case "set resource":
							mt.SetResource(nil)
						case "read":
							readAll()
						case "retrieve":
							mustRetrieve(mt, "B")
						case "unregister other view", "unregister and register again":
							o := mm.views["A"]
							want = append(want, fmt.Sprintf("e0 A start=%s end=%s [%s]", relT(o.start), relT(vsched.Now()), refRows(o.d, o.recs)))
							mt.Unregister(va)
							mm.unregister("A")
							if w != "unregister other view" {
								reg(A, va)
							}
						case "unregister other exporter":
							mt.UnregisterExporter(e1)
						}
						vsched.Idle()
						for tick, d := range []int64{delta, period, period} {
							vsched.AdvanceQuiet(d)
							report()
							vsched.Idle()
							sort.Strings(log)
							sort.Strings(want)
							if fmt.Sprint(log) != fmt.Sprint(want) {
								vsched.Failf("tick %d: exporters called with\n  %s\nwant\n  %s", tick, strings.Join(log, "\n  "), strings.Join(want, "\n  "))
							}
							log, want = nil, nil
						}
						mt.Stop()
						s.Outcome("%s", mm)
					})
					s.Case(3)
					s.Sample("%s", cas)
				}
			}
		}
	}})

	// exporters and views coming and going while ticks happen
	vh.Add(&vh.Task{Prop: "C06", Name: "exporter-callbacks", Race: true, Bound: [2]int{99, 99}, Shards: [2]int{8, 8}, Weight: 8, Body: func() {
		vsched.Reinit()
		m := stats.Int64("c06/1", "", "1")
		mt := newMeter()
		va, vb := &view.View{Name: "A", Measure: m, Aggregation: view.Count()}, &view.View{Name: "B", Measure: m, Aggregation: view.Sum()}
		mustRegister(mt, va, vb)
		recordOn(mt, bg, m.M(1))
		vsched.Idle()
		busy := false
		type call struct {
			e    int
			v    string
			s, t int64
		}
		var calls []call
		ex := make([]*fnExporter, 3)
		for i := range ex {
			i := i
			ex[i] = &fnExporter{func(d *view.Data) {
				if busy {
					vsched.Failf("concurrent exporter calls")
				}
				busy = true
				c := call{e: i, v: d.View.Name, s: vsched.Stamp()}
				vsched.Yield()
				c.t = vsched.Stamp()
				calls = append(calls, c)
				if len(d.Rows) != 1 {
					vsched.Failf("exporter got %d rows", len(d.Rows))
				}
				busy = false
			}}
		}
		mt.RegisterExporter(ex[0])
		mt.RegisterExporter(ex[1])
		var unregE, unregV, regE int64
		vsched.Explore(true)
		t1 := vsched.Thread("clock", func() { vsched.Advance(10e9) })
		t2 := vsched.Thread("exporters", func() {
			mt.UnregisterExporter(ex[1])
			unregE = vsched.Stamp()
			mt.RegisterExporter(ex[2])
			regE = vsched.Stamp()
		})
		t3 := vsched.Thread("views", func() {
			mt.Unregister(va)
			unregV = vsched.Stamp()
		})
		vsched.Join(t1, t2, t3)
		vsched.Explore(false)
		vsched.Idle()
		_ = regE
		mt.Find("B") // synchronise with the worker
		vsched.AdvanceQuiet(10e9)
		vsched.Idle()
		mt.Find("B")
		n := map[string]int{}
		for _, c := range calls {
			n[fmt.Sprint(c.e, c.v)]++
			if c.e == 1 && c.t > unregE {
				vsched.Failf("exporter called after its unregistration returned")
			}
			if c.v == "A" && c.t > unregV {
				vsched.Failf("exporter called for a view after its unregistration returned")
			}
		}
		// exporter 0 sees every tick of B and the final report of A
		if n["0B"] != 2 || n["0A"] < 1 || n["0A"] > 2 {
			vsched.Failf("exporter 0 called %v", n)
		}
		if n["1B"] > 1 || n["1A"] > n["0A"] || n["2A"] > n["0A"] || n["2B"] < 1 || n["2B"] > 2 {
			vsched.Failf("exporter calls %v", n)
		}
		vsched.Outcome("%v", n)
	}})

	// changing the period while a tick is due
	vh.Add(&vh.Task{Prop: "C06", Name: "period-change", Race: true, Bound: [2]int{99, 99}, Shards: [2]int{8, 8}, Weight: 3, Body: func() {
		vsched.Reinit()
		m := stats.Int64("c06/1", "", "1")
		mt := newMeter()
		mustRegister(mt, &view.View{Name: "A", Measure: m, Aggregation: view.Count()})
		vsched.Idle()
		var ends []int64
		mt.RegisterExporter(&fnExporter{func(d *view.Data) { ends = append(ends, d.End.UnixNano()-vsched.Epoch) }})
		var at int64
		vsched.Explore(true)
		t1 := vsched.Thread("clock", func() { vsched.Advance(10e9); vsched.Advance(1e9) })
		t2 := vsched.Thread("period", func() {
			mt.SetReportingPeriod(4 * time.Second)
			at = vsched.Now() - vsched.Epoch
		})
		vsched.Join(t1, t2)
		vsched.Explore(false)
		vsched.Idle()
		mt.Find("A") // synchronise with the worker
		before := len(ends)
		if before > 2 {
			vsched.Failf("%d reports: %v", before, ends)
		}
		for i := 0; i < 8; i++ {
			vsched.AdvanceQuiet(1e9)
			vsched.Idle()
		}
		mt.Find("A")
		got := len(ends) - before
		if got != 2 {
			vsched.Failf("period 4s set at about %d: reports at %v", at, ends)
		}
		vsched.Outcome("set at %d, reports %v", at, ends)
	}})
}

type fnExporter struct{ f func(*view.Data) }

func (e *fnExporter) ExportView(d *view.Data) { e.f(d) }
