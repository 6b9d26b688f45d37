package main

import (
	"time"

	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
)

type snap struct {
	what   string
	rows   []*view.Row
	ms     []*metricdata.Metric
	before string
}

func (s *snap) now() string {
	if s.ms != nil {
		return metricsStr(s.ms)
	}
	return rowsStr(s.rows)
}

type snapExporter struct{ snaps []*snap }

func (e *snapExporter) ExportView(d *view.Data) {
	e.snaps = append(e.snaps, &snap{what: "exported " + d.View.Name, rows: d.Rows, before: rowsStr(d.Rows)})
}

// scribble overwrites everything in a snapshot that belongs to it.
func scribble(rows []*view.Row) {
	for _, r := range rows {
		switch d := r.Data.(type) {
		case *view.CountData:
			d.Value = -77
		case *view.SumData:
			d.Value = -77
		case *view.LastValueData:
			d.Value = -77
		case *view.DistributionData:
			d.Count, d.Min, d.Max, d.Mean, d.SumOfSquaredDev = -77, -77, -77, -77, -77
			for i := range d.CountPerBucket {
				d.CountPerBucket[i] = -77
			}
			for i := range d.ExemplarsPerBucket {
				d.ExemplarsPerBucket[i] = nil
			}
		}
		for i := range r.Tags {
			r.Tags[i] = tag.Tag{}
		}
		r.Tags, r.Data = nil, nil
	}
	for i := range rows {
		rows[i] = nil
	}
}

func scribbleMetrics(ms []*metricdata.Metric) {
	for i, m := range ms {
		for k, t := range m.TimeSeries {
			for j := range t.Points {
				if d, ok := t.Points[j].Value.(*metricdata.Distribution); ok {
					d.Count, d.Sum = -77, -77
					for b := range d.Buckets {
						d.Buckets[b] = metricdata.Bucket{Count: -77}
					}
				}
				t.Points[j].Value = int64(-77)
			}
			for j := range t.LabelValues {
				t.LabelValues[j] = metricdata.LabelValue{}
			}
			m.TimeSeries[k] = nil
		}
		m.Descriptor.Name = "scribbled"
		ms[i] = nil
	}
}

func init() {
	defs := []*vdef{
		{name: "cnt", m: "c02/a", keys: []string{"k"}, agg: "count"},
		{name: "sum", m: "c02/a", keys: []string{"k"}, agg: "sum"},
		{name: "dist", m: "c02/a", keys: []string{"k"}, agg: "dist", bounds: []float64{2, 4}},
		{name: "last", m: "c02/b", agg: "last"},
		{name: "bdist", m: "c02/b", agg: "dist"},
	}
	// every history of records, retrievals, reads and ticks, every snapshot kept (or overwritten by
	// its consumer) and compared at the end
	vh.Add(&vh.Task{Prop: "C02", Name: "snapshot-histories", Shards: [2]int{8, 8}, Weight: 5, Seq: func(s *vh.S) {
		ops := []string{"rec1", "rec3", "rec5@x", "recab", "recatt", "retrieve", "read", "tick", "retrieve!", "read!"}
		s.Seqs(len(ops), s.Pick(5, 6), func(seq []int) {
			cas := ""
			for _, o := range seq {
				cas += ops[o] + " "
			}
			s.Exec(cas, func() {
				vsched.Reinit()
				a, b := stats.Float64("c02/a", "", "1"), stats.Int64("c02/b", "", "1")
				ms := map[string]stats.Measure{"c02/a": a, "c02/b": b}
				mt := newMeter()
				for _, d := range defs {
					mustRegister(mt, mkView(d, ms[d.m]))
				}
				e := &snapExporter{}
				mt.RegisterExporter(e)
				recs := map[string][]rec{}
				do := func(tags map[string]string, att metricdata.Attachments, av []float64, bv []int64) {
					var x []stats.Measurement
					for _, v := range av {
						x = append(x, a.M(v))
						recs["c02/a"] = append(recs["c02/a"], rec{tags, sample{v, att, vsched.Now()}})
					}
					for _, v := range bv {
						x = append(x, b.M(v))
						recs["c02/b"] = append(recs["c02/b"], rec{tags, sample{float64(v), att, vsched.Now()}})
					}
					if err := stats.RecordWithOptions(tagCtx(tags), stats.WithRecorder(mt), stats.WithMeasurements(x...), stats.WithAttachments(att)); err != nil {
						vsched.Failf("%v", err)
					}
				}
				var snaps []*snap
				check := func(sc bool) {
					for _, d := range defs {
						rows := mustRetrieve(mt, d.name)
						got := rowsStr(rows)
						if want := refRows(d, recs[d.m]); got != want {
							vsched.Failf("%s: retrieved %s\nwant %s", d.name, got, want)
						}
						if sc {
							scribble(rows)
						} else {
							snaps = append(snaps, &snap{what: "retrieved " + d.name, rows: rows, before: got})
						}
					}
				}
				for i, o := range seq {
					vsched.AdvanceQuiet(int64(time.Millisecond))
					switch ops[o] {
					case "rec1":
						do(nil, nil, []float64{1}, nil)
					case "rec3":
						do(nil, nil, []float64{3}, nil)
					case "rec5@x":
						do(map[string]string{"k": "x"}, nil, []float64{5}, nil)
					case "recab":
						do(map[string]string{"k": "x"}, nil, []float64{2}, []int64{7, 8})
					case "recatt":
						do(nil, metricdata.Attachments{"n": i}, []float64{2}, []int64{1})
					case "retrieve", "retrieve!":
						check(ops[o] == "retrieve!")
					case "read", "read!":
						x := mt.(interface{ Read() []*metricdata.Metric }).Read()
						if ops[o] == "read!" {
							scribbleMetrics(x)
						} else {
							snaps = append(snaps, &snap{what: "read", ms: x, before: metricsStr(x)})
						}
					case "tick":
						vsched.AdvanceQuiet(10e9)
						vsched.Idle()
					}
				}
				check(false)
				snaps = append(snaps, e.snaps...)
				for _, d := range defs {
					mt.Unregister(&view.View{Name: d.name})
				}
				for _, sn := range snaps {
					if n := sn.now(); n != sn.before {
						vsched.Failf("%s snapshot changed from\n%s\nto\n%s", sn.what, sn.before, n)
					}
				}
				s.Outcome("%s", refRows(defs[2], recs["c02/a"]))
			})
			s.Case(len(seq))
			s.Sample("%s", cas)
		})
	}})

	// snapshots taken while measurements are recorded are prefixes of what was recorded
	seqv := []float64{1, 3, 5}
	vh.Add(&vh.Task{Prop: "C02", Name: "snapshots-while-recording", Race: true, Bound: [2]int{2, 4}, Shards: [2]int{8, 8}, Weight: 8, Body: func() {
		vsched.Reinit()
		a, b := stats.Float64("c02/a", "", "1"), stats.Float64("c02/b", "", "1")
		mt := newMeter()
		mustRegister(mt, &view.View{Name: "dist", Measure: a, Aggregation: view.Distribution(2, 4)}, &view.View{Name: "bsum", Measure: b, Aggregation: view.Sum()})
		vsched.Idle()
		prefix := func(what string, d *view.DistributionData) int {
			n := int(d.Count)
			if n < 1 || n > len(seqv) {
				vsched.Failf("%s: count %d", what, n)
			}
			var sum, dev float64
			var bk [3]int64
			for _, v := range seqv[:n] {
				sum += v
				bk[int(v)/2]++
			}
			for _, v := range seqv[:n] {
				dev += (v - sum/float64(n)) * (v - sum/float64(n))
			}
			if d.Min != seqv[0] || d.Max != seqv[n-1] || !close9(d.Mean, sum/float64(n)) || !close9(d.SumOfSquaredDev, dev) || len(d.CountPerBucket) != 3 || d.CountPerBucket[0] != bk[0] || d.CountPerBucket[1] != bk[1] || d.CountPerBucket[2] != bk[2] {
				vsched.Failf("%s saw a state the view never passed through: %+v", what, *d)
			}
			return n
		}
		var kept []*view.DistributionData
		var counts []int
		var na, nb int64
		var ms []*metricdata.Metric
		vsched.Explore(true)
		t1 := vsched.Thread("rec", func() {
			for _, v := range seqv {
				recordOn(mt, bg, a.M(v), b.M(v))
			}
		})
		t2 := vsched.Thread("retrieve", func() {
			n := 0
			for i := 0; i < 2; i++ {
				rows := mustRetrieve(mt, "dist")
				if len(rows) == 0 && n == 0 {
					continue
				}
				d := rows[0].Data.(*view.DistributionData)
				k := prefix("retrieval", d)
				if k < n {
					vsched.Failf("retrievals go back from %d to %d samples", n, k)
				}
				n = k
				kept, counts = append(kept, d), append(counts, k)
			}
		})
		t3 := vsched.Thread("read", func() {
			ms = mt.(interface{ Read() []*metricdata.Metric }).Read()
			na, nb = metricCount(ms, "dist"), metricCount(ms, "bsum")
			var sum float64
			for _, v := range seqv[:na] {
				sum += v
			}
			if nb != int64(sum) {
				vsched.Failf("read sees %d samples of one measure and sum %d of the other", na, nb)
			}
		})
		vsched.Join(t1, t2, t3)
		vsched.Explore(false)
		if n := len(mustRetrieve(mt, "dist")); n != 1 {
			vsched.Failf("%d rows", n)
		}
		for i, d := range kept {
			if prefix("kept snapshot", d) != counts[i] {
				vsched.Failf("retrieved snapshot of %d samples changed to %d", counts[i], d.Count)
			}
		}
		if metricCount(ms, "dist") != na || metricCount(ms, "bsum") != nb {
			vsched.Failf("read snapshot changed")
		}
		vsched.Outcome("read %d retrieved %v", na, counts)
	}})
}
