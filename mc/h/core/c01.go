package main

import (
	"fmt"

	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/resource"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
)

// rowCheck verifies that a distribution row describes one set of samples that are all 1 or 3.
func rowCheck(what string, d *view.DistributionData) {
	var b int64
	for _, c := range d.CountPerBucket {
		b += c
	}
	if b != d.Count {
		vsched.Failf("%s: torn row: count %d, bucket sum %d", what, d.Count, b)
	}
}

type countExporter struct {
	busy bool
	n    int
	last map[string]int64
}

func (e *countExporter) ExportView(d *view.Data) {
	if e.busy {
		vsched.Failf("concurrent calls of one exporter")
	}
	e.busy = true
	vsched.Yield()
	c := countOf(d.Rows)
	if c < e.last[d.View.Name] {
		vsched.Failf("exported count of %s went back from %d to %d", d.View.Name, e.last[d.View.Name], c)
	}
	e.last[d.View.Name] = c
	e.n++
	e.busy = false
}

func newMeter() view.Meter {
	m := view.NewMeter()
	m.Start()
	return m
}

func init() {
	vh.Add(&vh.Task{Prop: "C01", Name: "record-vs-readers", Race: true, Bound: [2]int{2, 5}, Shards: [2]int{8, 8}, Weight: 9, Body: func() {
		vsched.Reinit()
		m := stats.Int64("c01/m", "", "1")
		mt := newMeter()
		v1 := &view.View{Name: "cnt", Measure: m, Aggregation: view.Count()}
		v2 := &view.View{Name: "dist", Measure: m, Aggregation: view.Distribution(1, 2)}
		mustRegister(mt, v1, v2)
		vsched.Idle()
		rec := func() { recordOn(mt, bg, m.M(1)) }
		vsched.Explore(true)
		t1 := vsched.Thread("rec1", func() { rec(); rec() })
		var seen, seen2 int64
		t2 := vsched.Thread("rec2+retrieve", func() {
			rec()
			seen = countOf(mustRetrieve(mt, "cnt"))
			if seen < 1 {
				vsched.Failf("own record not visible: %d", seen)
			}
		})
		t3 := vsched.Thread("read", func() {
			for _, p := range producers() {
				ms := p.Read()
				seen2 += metricCount(ms, "dist")
			}
		})
		vsched.Join(t1, t2, t3)
		vsched.Explore(false)
		for _, n := range []string{"cnt", "dist"} {
			if c := countOf(mustRetrieve(mt, n)); c != 3 {
				vsched.Failf("%s: %d records counted, 3 made", n, c)
			}
		}
		vsched.Outcome("retrieve=%d read=%d", seen, seen2)
	}},
		// recording against re-registration, unregistration of another view of the same measure, reads
		// and resource changes
		&vh.Task{Prop: "C01", Name: "record-vs-admin", Race: true, Bound: [2]int{2, 4}, Shards: [2]int{8, 8}, Weight: 8, Body: func() {
			vsched.Reinit()
			m := stats.Int64("c01/m", "", "1")
			mt := newMeter()
			v1 := &view.View{Name: "cnt", Measure: m, Aggregation: view.Count()}
			v2 := &view.View{Name: "dist", Measure: m, Aggregation: view.Distribution(0, 2)}
			mustRegister(mt, v1, v2)
			vsched.Idle()
			var read int64
			vsched.Explore(true)
			t1 := vsched.Thread("rec", func() { recordOn(mt, bg, m.M(1)); recordOn(mt, bg, m.M(1)) })
			t2 := vsched.Thread("admin", func() {
				mt.Unregister(v2)
				if err := mt.Register(v1, v2); err != nil {
					vsched.Failf("re-register: %v", err)
				}
			})
			t3 := vsched.Thread("read", func() {
				for _, p := range producers() {
					ms := p.Read()
					read += metricCount(ms, "cnt") + 10*metricCount(ms, "dist")
				}
			})
			vsched.Join(t1, t2, t3)
			vsched.Explore(false)
			if c := countOf(mustRetrieve(mt, "cnt")); c != 2 {
				vsched.Failf("cnt: %d records counted, 2 made", c)
			}
			d := countOf(mustRetrieve(mt, "dist"))
			if d > 2 {
				vsched.Failf("dist: %d records counted, 2 made", d)
			}
			vsched.Outcome("dist=%d read=%d", d, read)
		}},
		&vh.Task{Prop: "C01", Name: "exporters-ticks", Race: true, Bound: [2]int{2, 4}, Shards: [2]int{8, 8}, Weight: 8, Body: func() {
			vsched.Reinit()
			m := stats.Int64("c01/m", "", "1")
			mt := newMeter()
			v1 := &view.View{Name: "cnt", Measure: m, Aggregation: view.Count()}
			mustRegister(mt, v1)
			vsched.Idle()
			e1 := &countExporter{last: map[string]int64{}}
			e2 := &countExporter{last: map[string]int64{}}
			mt.RegisterExporter(e1)
			vsched.Explore(true)
			t1 := vsched.Thread("rec", func() { recordOn(mt, bg, m.M(1)); recordOn(mt, bg, m.M(1)) })
			t2 := vsched.Thread("clock", func() { vsched.Advance(10e9); mt.RegisterExporter(e2); readAll() })
			t3 := vsched.Thread("res", func() { mt.SetResource(&resource.Resource{Type: "t"}); mt.UnregisterExporter(e2) })
			vsched.Join(t1, t2, t3)
			vsched.Explore(false)
			mt.RegisterExporter(e2)
			mt.Unregister(v1)
			vsched.Idle()
			mt.Stop()
			if e1.last["cnt"] != 2 || e2.last["cnt"] != 2 {
				vsched.Failf("final report: exporters saw %d and %d records, 2 made", e1.last["cnt"], e2.last["cnt"])
			}
			vsched.Outcome("calls %d %d", e1.n, e2.n)
		}},
		// default meter, package-level record functions
		&vh.Task{Prop: "C01", Name: "default-meter", Race: true, Bound: [2]int{3, 99}, Shards: [2]int{8, 8}, Weight: 7, Body: func() {
			vsched.Reinit()
			m := stats.Int64("c01/m", "", "1")
			f := stats.Float64("c01/f", "", "1")
			v1 := &view.View{Name: "cnt", Measure: m, Aggregation: view.Count()}
			v2 := &view.View{Name: "sum", Measure: f, Aggregation: view.Sum()}
			if err := view.Register(v1, v2); err != nil {
				vsched.Failf("register: %v", err)
			}
			vsched.Idle()
			vsched.Explore(true)
			t1 := vsched.Thread("rec1", func() { stats.Record(bg, m.M(1), f.M(2)) })
			t2 := vsched.Thread("rec2", func() {
				if err := stats.RecordWithTags(bg, nil, f.M(3), m.M(1)); err != nil {
					vsched.Failf("record: %v", err)
				}
				r, err := view.RetrieveData("sum")
				if err != nil || len(r) == 0 || r[0].Data.(*view.SumData).Value < 3 {
					vsched.Failf("own record not visible: %v %v", r, err)
				}
			})
			var s string
			t3 := vsched.Thread("read", func() {
				ms := readAll()
				c, x := metricCount(ms, "cnt"), metricCount(ms, "sum")
				s = fmt.Sprint(c, x)
				if !(c == 0 && x == 0 || c == 1 && (x == 2 || x == 3) || c == 2 && x == 5) {
					vsched.Failf("read saw part of a record call: count %d sum %d", c, x)
				}
			})
			vsched.Join(t1, t2, t3)
			vsched.Explore(false)
			r1, err1 := view.RetrieveData("cnt")
			r2, err2 := view.RetrieveData("sum")
			if err1 != nil || err2 != nil || countOf(r1) != 2 || countOf(r2) != 5 {
				vsched.Failf("final data: %v %v %v %v", r1, err1, r2, err2)
			}
			vsched.Outcome("%s", s)
		}},
		// recording while the first view over the measure is being registered, with nothing else ordering the two
		&vh.Task{Prop: "C01", Name: "record-vs-first-registration", Race: true, Bound: [2]int{3, 6}, Shards: [2]int{8, 8}, Weight: 4, Body: func() {
			vsched.Reinit()
			m := stats.Int64("c01/m", "", "1")
			f := stats.Float64("c01/f", "", "1")
			vsched.Idle()
			vsched.Explore(true)
			t1 := vsched.Thread("rec", func() { stats.Record(bg, m.M(1), f.M(2)); stats.Record(bg, f.M(2)) })
			t2 := vsched.Thread("reg", func() {
				if err := view.Register(&view.View{Name: "cnt", Measure: m, Aggregation: view.Count()}); err != nil {
					vsched.Failf("register: %v", err)
				}
				stats.Record(bg, m.M(1))
			})
			t3 := vsched.Thread("opts", func() {
				if err := stats.RecordWithOptions(bg, stats.WithMeasurements(f.M(2), m.M(1))); err != nil {
					vsched.Failf("record: %v", err)
				}
				if stats.Int64("c01/m", "x", "1").Description() != "" {
					vsched.Failf("second definition of the measure")
				}
			})
			vsched.Join(t1, t2, t3)
			vsched.Explore(false)
			rs, err := view.RetrieveData("cnt")
			if n := countOf(rs); err != nil || n < 1 || n > 3 {
				vsched.Failf("counted %v, %v", n, err)
			}
			vsched.Outcome("%d", countOf(rs))
		}},
		// more records than the command queue holds, from 1-3 goroutines, with and without a reader in between
		&vh.Task{Prop: "C01", Name: "bursts", Shards: [2]int{1, 1}, Seq: func(s *vh.S) {
			for _, thr := range []int{1, 2, 3} {
				for _, n := range []int{1, 1000, 1023, 1024, 1025, 1100, 2500} {
					for _, batch := range []int{1, 3} {
						if !s.Mine() || s.Stop() {
							continue
						}
						cas := fmt.Sprintf("%d goroutines, %d record calls each of %d measurements", thr, n, batch)
						s.Exec(cas, func() {
							vsched.Reinit()
							m := stats.Int64("c01/m", "", "1")
							mt := newMeter()
							mustRegister(mt, &view.View{Name: "cnt", Measure: m, Aggregation: view.Count()})
							var ms []stats.Measurement
							for i := 0; i < batch; i++ {
								ms = append(ms, m.M(1))
							}
							var ts []*vsched.G
							for i := 0; i < thr; i++ {
								ts = append(ts, vsched.Thread("rec", func() {
									for k := 0; k < n; k++ {
										recordOn(mt, bg, ms...)
									}
								}))
							}
							vsched.Join(ts...)
							c := countOf(mustRetrieve(mt, "cnt"))
							if c != int64(n*thr*batch) {
								vsched.Failf("%d counted, %d recorded", c, n*thr*batch)
							}
							s.Outcome("%d", c)
						})
						s.Case(n * thr)
						s.Sample("%s", cas)
					}
				}
			}
		}})
}

var _ = metricdata.UnitBytes
