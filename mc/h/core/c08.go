package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/resource"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
)

func isProducer(m view.Meter) (n int) {
	for _, p := range producers() {
		if q, ok := m.(metricproducer.Producer); ok && p == q {
			n++
		}
	}
	return
}

func init() {
	A := &vdef{name: "A", m: "c08/1", keys: []string{"k"}, agg: "sum"}
	Ac := &vdef{name: "A", m: "c08/1", agg: "count"}
	// every history over two meters and the default one
	kinds := []string{"rec", "regA", "regA'", "unregA", "regE", "unregE", "tick", "stop", "res", "period"}
	vh.Add(&vh.Task{Prop: "C08", Name: "isolation", Shards: [2]int{8, 8}, Weight: 4, Seq: func(s *vh.S) {
		nm := 3
		s.Seqs(nm*len(kinds), s.Pick(3, 4), func(seq []int) {
			cas := ""
			for _, o := range seq {
				cas += fmt.Sprintf("m%d.%s ", o%nm, kinds[o/nm])
			}
			s.Exec(cas, func() {
				vsched.Reinit()
				vsched.Idle()
				m1 := stats.Int64("c08/1", "", "1")
				// the default meter's producer is what is there before the others start
				def := producers()
				if len(def) != 1 {
					vsched.Failf("%d producers at start", len(def))
				}
				mts := []view.Meter{defMeter{}, newMeter(), newMeter()}
				vsched.Idle()
				prod := []metricproducer.Producer{def[0], mts[1].(metricproducer.Producer), mts[2].(metricproducer.Producer)}
				mms := []*mmeter{newMM(), newMM(), newMM()}
				var got, want []string
				type est struct {
					on, stopped bool
					last, per   int64
					res         *resource.Resource
				}
				st := make([]est, nm)
				exs := make([]*fnExporter, nm)
				for i := range exs {
					i := i
					st[i].last, st[i].per = vsched.Now(), 10e9
					exs[i] = &fnExporter{func(d *view.Data) {
						got = append(got, fmt.Sprintf("m%d %s %s@%s", i, d.View.Name, rowsStr(d.Rows), tm(d.End)))
					}}
				}
				obj := map[*vdef]*view.View{}
				for i := range mts {
					if i != 2 {
						v := mkView(A, m1)
						mustRegister(mts[i], v)
						mms[i].register(vsched.Now(), []*vdef{A}, []*view.View{v})
						mts[i].RegisterExporter(exs[i])
						st[i].on = true
					}
				}
				_ = obj
				exp := func(i int) {
					if v := mms[i].views["A"]; v != nil && st[i].on {
						want = append(want, fmt.Sprintf("m%d A %s@%s", i, refRows(v.d, v.recs), relT(vsched.Now())))
					}
				}
				for step, o := range seq {
					i, k := o%nm, kinds[o/nm]
					mt, mm := mts[i], mms[i]
					vsched.AdvanceQuiet(1000)
					switch k {
					case "rec":
						tags := map[string]string{"k": fmt.Sprint(step)}
						if i == 0 {
							stats.Record(tagCtx(tags), m1.M(int64(step+1)))
						} else {
							recordOn(mt, tagCtx(tags), m1.M(int64(step+1)))
						}
						if !st[i].stopped {
							mm.record("c08/1", rec{tags, sample{v: float64(step + 1), t: vsched.Now()}})
						}
					case "regA", "regA'":
						d := A
						if k == "regA'" {
							d = Ac
						}
						v := mkView(d, m1)
						err := mt.Register(v)
						if st[i].stopped {
							if err == nil {
								vsched.Failf("registering on a stopped meter succeeds")
							}
						} else if f := mm.register(vsched.Now(), []*vdef{d}, []*view.View{v}); f != (err != nil) {
							vsched.Failf("register on m%d: %v", i, err)
						}
					case "unregA":
						mt.Unregister(&view.View{Name: "A"})
						if !st[i].stopped {
							exp(i)
							mm.unregister("A")
						}
					case "regE":
						mt.RegisterExporter(exs[i])
						st[i].on = true
					case "unregE":
						mt.UnregisterExporter(exs[i])
						st[i].on = false
					case "res":
						st[i].res = &resource.Resource{Type: fmt.Sprint("r", i, step)}
						prod[i].(interface{ SetResource(*resource.Resource) }).SetResource(st[i].res)
					case "period":
						mt.SetReportingPeriod(4 * time.Second)
						if !st[i].stopped {
							st[i].per, st[i].last = 4e9, vsched.Now()
						}
					case "stop":
						mt.Stop()
						if !st[i].stopped {
							st[i].stopped = true
							mms[i] = newMM()
						}
						mt.Stop()
					case "tick":
						end := vsched.Now() + 11e9
						for {
							nx := int64(-1)
							for j := range st {
								if t := st[j].last + st[j].per; !st[j].stopped && t <= end && (nx < 0 || t < nx) {
									nx = t
								}
							}
							if nx < 0 {
								break
							}
							vsched.AdvanceQuiet(nx - vsched.Now())
							for j := range st {
								if !st[j].stopped && st[j].last+st[j].per == nx {
									st[j].last = nx
									exp(j)
								}
							}
							vsched.Idle()
						}
						vsched.AdvanceQuiet(end - vsched.Now())
					}
					vsched.Idle()
					sort.Strings(got)
					sort.Strings(want)
					if fmt.Sprint(got) != fmt.Sprint(want) {
						vsched.Failf("step %d m%d.%s: exporters called with\n %s\nwant\n %s", step, i, k, strings.Join(got, "\n "), strings.Join(want, "\n "))
					}
					got, want = nil, nil
					for j := range mts {
						np := 0
						for _, p := range producers() {
							if p == prod[j] {
								np++
							}
						}
						w := 1
						if st[j].stopped {
							w = 0
						}
						if np != w {
							vsched.Failf("step %d: meter %d is listed %d times as producer, stopped=%v", step, j, np, st[j].stopped)
						}
						if st[j].stopped {
							if f := mts[j].Find("A"); f != nil {
								vsched.Failf("stopped meter finds a view")
							}
							if _, err := mts[j].RetrieveData("A"); err == nil {
								vsched.Failf("stopped meter retrieves data")
							}
							continue
						}
						mms[j].compare(mts[j], []string{"A"})
						ms := prod[j].Read()
						if v := mms[j].views["A"]; v != nil && len(v.recs) > 0 {
							if len(ms) != 1 || ms[0].Resource != st[j].res {
								vsched.Failf("meter %d reads %s, resource should be %v", j, metricsStr(ms), st[j].res)
							}
						} else if len(ms) != 0 {
							vsched.Failf("meter %d reads %s, has no data", j, metricsStr(ms))
						}
					}
				}
				s.Outcome("%v %v %v", mms[0], mms[1], mms[2])
			})
			s.Case(len(seq))
			s.Sample("%s", cas)
		})
	}})

	// two measures, views of which come and go on the default and another meter while a third uses both
	ops2 := []string{"rec1", "rec2", "rec12", "regA", "regB", "unregA"}
	B := &vdef{name: "B", m: "c08/2", agg: "sum"}
	vh.Add(&vh.Task{Prop: "C08", Name: "two-measures", Shards: [2]int{8, 8}, Weight: 3, Seq: func(s *vh.S) {
		s.Seqs(2*len(ops2), s.Pick(5, 6), func(seq []int) {
			cas := ""
			for _, o := range seq {
				cas += fmt.Sprintf("m%d.%s ", o%2, ops2[o/2])
			}
			s.Exec(cas, func() {
				vsched.Reinit()
				vsched.Idle()
				m1, m2 := stats.Int64("c08/1", "", "1"), stats.Int64("c08/2", "", "1")
				mts := []view.Meter{defMeter{}, newMeter(), newMeter()}
				mms := []*mmeter{newMM(), newMM(), newMM()}
				reg := func(i int, d *vdef, m stats.Measure) {
					v := mkView(d, m)
					mustRegister(mts[i], v)
					mms[i].register(vsched.Now(), []*vdef{d}, []*view.View{v})
				}
				reg(2, A, m1)
				reg(2, B, m2)
				for step, o := range seq {
					i, k := o%2, ops2[o/2]
					switch k {
					case "regA":
						reg(i, A, m1)
					case "regB":
						reg(i, B, m2)
					case "unregA":
						mts[i].Unregister(&view.View{Name: "A"})
						mms[i].unregister("A")
					default:
						var x []stats.Measurement
						v := int64(step + 1)
						if k != "rec2" {
							x = append(x, m1.M(v))
							mms[i].record("c08/1", rec{nil, sample{v: float64(v), t: vsched.Now()}})
						}
						if k != "rec1" {
							x = append(x, m2.M(v))
							mms[i].record("c08/2", rec{nil, sample{v: float64(v), t: vsched.Now()}})
						}
						if i == 0 {
							stats.Record(bg, x...)
						} else {
							recordOn(mts[i], bg, x...)
						}
					}
				}
				for i := range mts {
					mms[i].compare(mts[i], []string{"A", "B"})
				}
				s.Outcome("%v %v %v", mms[0], mms[1], mms[2])
			})
			s.Case(len(seq))
			s.Sample("%s", cas)
		})
	}})

	// stopping against every other call: nothing panics, hangs or reports afterwards
	ops := []string{"record", "register", "find", "retrieve", "unregister", "period", "stop", "read", "setresource", "exporter", "stop+record", "start-late"}
	races := func(name string, pairs bool, tier, bt int) {
		vh.Add(&vh.Task{Prop: "C08", Name: name, Tier: tier, Race: true, Bound: [2]int{bt, bt}, Shards: [2]int{8, 8}, Weight: 8, Body: func() {
			vsched.Reinit()
			m := stats.Int64("c08/1", "", "1")
			i := vsched.Choose(len(ops), "op1")
			j := i
			if pairs {
				j += vsched.Choose(len(ops)-i, "op2")
			}
			vsched.Idle()
			base := len(producers())
			mt := view.NewMeter()
			late := i == 11 || j == 11
			va := &view.View{Name: "A", Measure: m, Aggregation: view.Count()}
			if !late {
				mt.Start()
				mustRegister(mt, va)
				vsched.Idle()
				if isProducer(mt) != 1 {
					vsched.Failf("started meter is not a producer")
				}
			}
			view.Register(va) // subscribes the measure
			stopped := false
			mt.RegisterExporter(&fnExporter{func(*view.Data) {
				vsched.Yield()
				if stopped {
					vsched.Failf("report after Stop returned")
				}
			}})
			do := func(o string) {
				switch o {
				case "record":
					recordOn(mt, bg, m.M(1))
					recordOn(mt, bg, m.M(1))
				case "register":
					mt.Register(&view.View{Name: "B", Measure: m, Aggregation: view.Sum()})
				case "find":
					mt.Find("A")
				case "retrieve":
					mt.RetrieveData("A")
				case "unregister":
					mt.Unregister(va)
				case "period":
					mt.SetReportingPeriod(time.Second)
				case "stop":
					mt.Stop()
				case "stop+record":
					mt.Stop()
					recordOn(mt, bg, m.M(1))
					mt.Find("A")
				case "read":
					readAll()
				case "setresource":
					mt.SetResource(&resource.Resource{})
				case "exporter":
					mt.RegisterExporter(&fnExporter{func(*view.Data) {}})
				}
			}
			vsched.Explore(true)
			if late {
				mt.Start()
			}
			t1 := vsched.Thread("op1", func() { do(ops[i]) })
			gs := []*vsched.G{t1}
			if pairs {
				gs = append(gs, vsched.Thread("op2", func() { do(ops[j]) }))
			}
			t3 := vsched.Thread("stop", func() {
				mt.Stop()
				vsched.Advance(10e9)
			})
			vsched.Join(append(gs, t3)...)
			stopped = true
			vsched.Explore(false)
			vsched.Idle()
			vsched.AdvanceQuiet(30e9)
			vsched.Idle()
			if n := isProducer(mt); n != 0 || len(producers()) != base {
				vsched.Failf("stopped meter is listed as producer (%d, %d producers, %d before)", n, len(producers()), base)
			}
			recordOn(mt, bg, m.M(1))
			mt.Find("A")
			mt.RetrieveData("A")
			mt.Register(va)
			mt.Unregister(va)
			mt.SetReportingPeriod(time.Second)
			mt.Stop()
			vsched.Outcome("%s %s", ops[i], ops[j])
		}})
	}
	races("stop-races", false, 0, 99)
	// every pair of calls on a meter that keeps running: no race, and each has its effect
	vh.Add(&vh.Task{Prop: "C08", Name: "configuration-races", Race: true, Bound: [2]int{2, 4}, Shards: [2]int{8, 8}, Weight: 5, Body: func() {
		vsched.Reinit()
		calls := []string{"record", "register", "find", "retrieve", "unregister", "period", "read", "setresource", "exporter", "unexporter"}
		i := vsched.Choose(len(calls), "op1")
		j := i + vsched.Choose(len(calls)-i, "op2")
		m := stats.Int64("c08/1", "", "1")
		mt := newMeter()
		va := &view.View{Name: "A", Measure: m, Aggregation: view.Count()}
		vb := &view.View{Name: "B", Measure: m, Aggregation: view.Sum()}
		mustRegister(mt, va)
		old := &fnExporter{func(*view.Data) {}}
		mt.RegisterExporter(old)
		vsched.Idle()
		do := func(o string) {
			switch o {
			case "record":
				recordOn(mt, bg, m.M(1))
			case "register":
				mustRegister(mt, vb)
			case "find":
				if mt.Find("A") == nil && i != 4 && j != 4 {
					vsched.Failf("A is not found")
				}
			case "retrieve":
				mt.RetrieveData("A")
			case "unregister":
				mt.Unregister(va)
			case "period":
				mt.SetReportingPeriod(time.Second)
			case "read":
				readAll()
			case "setresource":
				mt.SetResource(&resource.Resource{Type: "t"})
			case "exporter":
				mt.RegisterExporter(&fnExporter{func(*view.Data) {}})
			case "unexporter":
				mt.UnregisterExporter(old)
			}
		}
		has := func(o string) bool { return calls[i] == o || calls[j] == o }
		vsched.Explore(true)
		t1 := vsched.Thread("op1", func() { do(calls[i]) })
		t2 := vsched.Thread("op2", func() { do(calls[j]) })
		vsched.Join(t1, t2)
		vsched.Explore(false)
		vsched.Idle()
		if (mt.Find("A") == nil) != has("unregister") || (mt.Find("B") != nil) != has("register") {
			vsched.Failf("%s, %s: A %v B %v", calls[i], calls[j], mt.Find("A"), mt.Find("B"))
		}
		recordOn(mt, bg, m.M(1))
		for _, x := range mt.(metricproducer.Producer).Read() {
			if (x.Resource != nil) != has("setresource") {
				vsched.Failf("%s, %s: resource %v", calls[i], calls[j], x.Resource)
			}
		}
		mt.Stop()
		vsched.Outcome("%s %s", calls[i], calls[j])
	}})
	// two meters used by different goroutines share nothing that is written
	vh.Add(&vh.Task{Prop: "C08", Name: "two-meters", Race: true, Bound: [2]int{1, 3}, Shards: [2]int{8, 8}, Weight: 5, Body: func() {
		vsched.Reinit()
		m := stats.Int64("c08/1", "", "1")
		var agg *view.Aggregation
		kind := vsched.Choose(4, "aggregation")
		switch kind {
		case 0:
			agg = view.Count()
		case 1:
			agg = view.Sum()
		case 2:
			agg = view.LastValue()
		case 3:
			agg = view.Distribution(1, 2)
		}
		mts := []view.Meter{newMeter(), newMeter()}
		if vsched.Choose(2, "default meter") == 1 {
			mts[0].Stop()
			mts[0] = defMeter{}
		}
		vs := []*view.View{{Name: "A", Measure: m, Aggregation: agg}, {Name: "A", Measure: m, Aggregation: agg}}
		exported := [2]int{}
		es := make([]*fnExporter, 2)
		for i := range es {
			i := i
			es[i] = &fnExporter{func(*view.Data) { exported[i]++ }}
		}
		vsched.Idle()
		use := func(i int) {
			mts[i].RegisterExporter(es[i])
			mustRegister(mts[i], vs[i])
			if _, ok := mts[i].(defMeter); ok {
				stats.Record(bg, m.M(int64(1+i)))
			} else {
				recordOn(mts[i], bg, m.M(int64(1+i)))
			}
			rows, err := mts[i].RetrieveData("A")
			if err != nil || len(rows) != 1 {
				vsched.Failf("meter %d: %s %v", i, rowsStr(rows), err)
			}
			mts[i].Unregister(vs[i])
			if exported[i] != 1 {
				vsched.Failf("meter %d reported %d times", i, exported[i])
			}
		}
		vsched.Explore(true)
		t1 := vsched.Thread("one", func() { use(0) })
		t2 := vsched.Thread("two", func() { use(1) })
		vsched.Join(t1, t2)
		vsched.Explore(false)
		mts[1].Stop()
		vsched.Outcome("%d", kind)
	}})
	races("stop-races-pairs", true, 1, 2)

	// a full queue while stopping
	vh.Add(&vh.Task{Prop: "C08", Name: "stop-full-queue", Shards: [2]int{1, 1}, Seq: func(s *vh.S) {
		for _, n := range []int{1, 1023, 1024, 1025, 3000} {
			for _, thr := range []int{1, 3} {
				cas := fmt.Sprintf("%d records by %d goroutines while stopping", n, thr)
				s.Exec(cas, func() {
					vsched.Reinit()
					m := stats.Int64("c08/1", "", "1")
					mt := newMeter()
					mustRegister(mt, &view.View{Name: "A", Measure: m, Aggregation: view.Count()})
					var ts []*vsched.G
					for i := 0; i < thr; i++ {
						ts = append(ts, vsched.Thread("rec", func() {
							for k := 0; k < n; k++ {
								recordOn(mt, bg, m.M(1))
							}
						}))
					}
					ts = append(ts, vsched.Thread("stop", func() { mt.Stop() }))
					vsched.Join(ts...)
					s.Outcome("%s", cas)
				})
				s.Case(n * thr)
			}
		}
	}})
}

var _ metricdata.Metric
