package main

import (
	"fmt"
	"math"

	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
)

type nopExporter struct{}

func (*nopExporter) ExportView(*view.Data) {}

func close9(a, b float64) bool {
	if a == b {
		return true
	}
	d := math.Abs(a - b)
	return d <= 1e-9*math.Max(math.Abs(a), math.Abs(b)) || d < 1e-12
}

func init() {
	bounds := [][]float64{nil, {1}, {0}, {0, 0, 1}, {2, 1}, {1, 1}, {0.5, 2, 2.5}, {2.5, 0, 0.5, 1}, {1e9}, {-0.0, 7, 1}, {2, 2, 2}, {0.25, 0.5, 1, 2, 2.5, 7}}
	values := []float64{-2, 0, 0.5, 1, 2, 2.5, 7}
	ivalues := []int64{-3, -1, 0, 1, 2, 7, 1 << 40}
	vh.Add(&vh.Task{Prop: "C03", Name: "value-sequences", Shards: [2]int{8, 8}, Weight: 5, Seq: func(s *vh.S) {
		for n := 1; n <= s.Pick(4, 5); n++ {
			// attachments on a subset of the samples
			for _, isInt := range []bool{false, true} {
				for mask := 0; mask < 1<<uint(n); mask++ {
					if n == 5 && mask%3 != 0 {
						continue
					}
					s.Seqs(len(values), n, func(seq []int) {
						cas := fmt.Sprintf("int=%v values %v attachments %b", isInt, seq, mask)
						s.Exec(cas, func() {
							vsched.Reinit()
							mf, mi := stats.Float64("c03/f", "", "1"), stats.Int64("c03/i", "", "1")
							var m stats.Measure = mf
							if isInt {
								m = mi
							}
							mt := newMeter()
							var defs []*vdef
							var vs []*view.View
							for i, b := range bounds {
								defs = append(defs, &vdef{name: fmt.Sprint("d", i), agg: "dist", bounds: b})
							}
							for _, a := range []string{"count", "sum", "last"} {
								defs = append(defs, &vdef{name: a, agg: a})
							}
							for _, d := range defs {
								vs = append(vs, mkView(d, m))
							}
							mustRegister(mt, vs...)
							var rs []rec
							for i, o := range seq {
								vsched.AdvanceQuiet(1000)
								var x stats.Measurement
								var v float64
								if isInt {
									x, v = mi.M(ivalues[o]), float64(ivalues[o])
								} else {
									x, v = mf.M(values[o]), values[o]
								}
								if x.Value() != v {
									vsched.Failf("measurement of %v has value %v", v, x.Value())
								}
								var att metricdata.Attachments
								if mask>>uint(i)&1 == 1 {
									att = metricdata.Attachments{"i": i, "v": o}
								} else if i%2 == 1 {
									att = metricdata.Attachments{}
								}
								if err := stats.RecordWithOptions(bg, stats.WithRecorder(mt), stats.WithMeasurements(x), stats.WithAttachments(att)); err != nil {
									vsched.Failf("%v", err)
								}
								rs = append(rs, rec{nil, sample{v, att, vsched.Now()}})
							}
							vsched.AdvanceQuiet(1000)
							for _, d := range defs {
								got, want := rowsStr(mustRetrieve(mt, d.name)), refRows(d, rs)
								if got != want {
									vsched.Failf("%s %v bounds %v:\n got %s\nwant %s", d.name, m.Name(), d.bounds, got, want)
								}
								s.Outcome("%s", got)
							}
						})
						s.Case(n)
						s.Sample("%s", cas)
					})
				}
			}
		}
	}})
	// looking at the data, reporting it and exporting it leave it as it is
	vh.Add(&vh.Task{Prop: "C03", Name: "observed", Shards: [2]int{4, 8}, Weight: 3, Seq: func(s *vh.S) {
		ops := []string{"record 1", "record 1 attached", "record 3 attached", "record 7@x", "tick", "two ticks", "retrieve", "read", "exporter", "no exporter"}
		defs := []*vdef{{name: "d0", agg: "dist"}, {name: "d1", agg: "dist", bounds: []float64{2}, keys: []string{"k1"}}, {name: "d2", agg: "dist", bounds: []float64{0, 1, 5}}, {name: "count", agg: "count", keys: []string{"k1"}}, {name: "sum", agg: "sum"}, {name: "last", agg: "last", keys: []string{"k1"}}}
		s.Seqs(len(ops), s.Pick(6, 7), func(seq []int) {
			if seq[0] >= 4 && seq[0] != 8 { // nothing to look at yet
				return
			}
			cas := ""
			for _, o := range seq {
				cas += ops[o] + "; "
			}
			s.Exec(cas, func() {
				vsched.Reinit()
				m := stats.Float64("c03/o", "", "1")
				mt := newMeter()
				vsched.Idle()
				var vs []*view.View
				for _, d := range defs {
					vs = append(vs, mkView(d, m))
				}
				mustRegister(mt, vs...)
				var rs []rec
				e := &nopExporter{}
				for i, o := range seq {
					vsched.AdvanceQuiet(1000)
					v, att, tags := 1.0, metricdata.Attachments(nil), map[string]string(nil)
					switch ops[o] {
					case "tick", "two ticks":
						for n := 0; n < o-3; n++ {
							vsched.AdvanceQuiet(10e9)
							vsched.Idle()
						}
						continue
					case "retrieve":
						for _, d := range defs {
							mustRetrieve(mt, d.name)
						}
						continue
					case "read":
						readAll()
						continue
					case "exporter":
						mt.RegisterExporter(e)
						continue
					case "no exporter":
						mt.UnregisterExporter(e)
						continue
					case "record 3 attached":
						v, att = 3, metricdata.Attachments{"i": i}
					case "record 1 attached":
						att = metricdata.Attachments{"i": i}
					case "record 7@x":
						v, tags = 7, map[string]string{"k1": "x"}
					}
					if err := stats.RecordWithOptions(tagCtx(tags), stats.WithRecorder(mt), stats.WithMeasurements(m.M(v)), stats.WithAttachments(att)); err != nil {
						vsched.Failf("%v", err)
					}
					rs = append(rs, rec{tags, sample{v, att, vsched.Now()}})
				}
				vsched.AdvanceQuiet(1000)
				for _, d := range defs {
					got, want := rowsStr(mustRetrieve(mt, d.name)), refRows(d, rs)
					if got != want {
						vsched.Failf("%s bounds %v:\n got %s\nwant %s", d.name, d.bounds, got, want)
					}
					s.Outcome("%s", got)
				}
			})
			s.Case(len(seq))
			s.Sample("%s", cas)
		})
	}})
	// bucket bound lists and what registration makes of them
	vh.Add(&vh.Task{Prop: "C03", Name: "bucket-bounds", Shards: [2]int{4, 8}, Seq: func(s *vh.S) {
		bv := []float64{-1, 0, 0.5, 1, 2, -1e-9, 1e300}
		probe := []float64{-5, -1, -1e-9, 0, 0.25, 0.5, 0.75, 1, 1.5, 2, 3, 1e300}
		for n := 0; n <= s.Pick(4, 5); n++ {
			s.Seqs(len(bv), n, func(seq []int) {
				var b []float64
				neg := false
				for _, o := range seq {
					b = append(b, bv[o])
					neg = neg || bv[o] < 0
				}
				cas := fmt.Sprintf("bounds %v", b)
				s.Exec(cas, func() {
					vsched.Reinit()
					m := stats.Float64("c03/f", "", "1")
					mt := newMeter()
					d := &vdef{name: "d", agg: "dist", bounds: b}
					v := mkView(d, m)
					err := mt.Register(v)
					if neg {
						if err != view.ErrNegativeBucketBounds {
							vsched.Failf("negative bounds gave %v", err)
						}
						if mt.Find("d") != nil {
							vsched.Failf("view with negative bounds is registered")
						}
						s.Outcome("negative")
						return
					}
					if err != nil {
						vsched.Failf("register: %v", err)
					}
					cb := d.canonBounds()
					if fmt.Sprint(v.Aggregation.Buckets) != fmt.Sprint(cb) {
						vsched.Failf("bounds became %v, want %v", v.Aggregation.Buckets, cb)
					}
					for _, p := range probe {
						vs := mustRetrieve(mt, "d")
						var before []int64
						if len(vs) > 0 {
							before = vs[0].Data.(*view.DistributionData).CountPerBucket
						}
						recordOn(mt, bg, m.M(p))
						after := mustRetrieve(mt, "d")[0].Data.(*view.DistributionData).CountPerBucket
						if len(after) != len(cb)+1 {
							vsched.Failf("%d buckets for %d bounds", len(after), len(cb))
						}
						i := 0
						for i < len(cb) && p >= cb[i] {
							i++
						}
						for k := range after {
							var w int64
							if before != nil {
								w = before[k]
							}
							if k == i {
								w++
							}
							if after[k] != w {
								vsched.Failf("value %v with bounds %v: buckets went from %v to %v", p, cb, before, after)
							}
						}
					}
					s.Outcome("%v", cb)
				})
				s.Case(len(probe))
				s.Sample("%s", cas)
			})
		}
	}})
	// magnitudes: relative accuracy of the running mean and deviation
	vh.Add(&vh.Task{Prop: "C03", Name: "magnitudes", Shards: [2]int{4, 8}, Seq: func(s *vh.S) {
		vals := []float64{1e-9, -1e-3, 0.1, 3, -1e6, 1e6 + 0.5, 1e12, -1e15, 4e18}
		s.Seqs(len(vals), s.Pick(4, 5), func(seq []int) {
			cas := fmt.Sprint("values ", seq)
			s.Exec(cas, func() {
				vsched.Reinit()
				m := stats.Float64("c03/f", "", "1")
				mt := newMeter()
				mustRegister(mt, mkView(&vdef{name: "d", agg: "dist", bounds: []float64{1}}, m))
				mn, mx, scale := math.Inf(1), math.Inf(-1), 0.0
				var vs []float64
				for _, o := range seq {
					v := vals[o]
					recordOn(mt, bg, m.M(v))
					vs = append(vs, v)
					mn, mx, scale = math.Min(mn, v), math.Max(mx, v), math.Max(scale, math.Abs(v))
				}
				var sum float64
				for _, v := range vs {
					sum += v / scale
				}
				mean := sum / float64(len(vs))
				var dev float64
				for _, v := range vs {
					dev += (v/scale - mean) * (v/scale - mean)
				}
				d := mustRetrieve(mt, "d")[0].Data.(*view.DistributionData)
				if d.Count != int64(len(vs)) || d.Min != mn || d.Max != mx || math.Abs(d.Mean/scale-mean) > 1e-9 || math.Abs(d.SumOfSquaredDev/scale/scale-dev) > 1e-9 || !close9(d.Sum(), d.Mean*float64(d.Count)) {
					vsched.Failf("values %v: %+v, want min %v max %v mean %v dev %v", vs, *d, mn, mx, mean*scale, dev*scale*scale)
				}
				s.Outcome("%v %v %v", mn, mx, mean)
			})
			s.Case(len(seq))
		})
	}})
}
