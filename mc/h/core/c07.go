package main

import (
	"fmt"
	"sort"
	"strings"

	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/resource"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
)

// refMetric renders the metric a view must convert to (see metricStr).
func refMetric(d *vdef, isInt bool, mdesc, munit string, res *resource.Resource, recs []rec, now int64) string {
	unit := metricdata.Unit("1") // UCUM abbreviations, as documented
	if d.agg != "count" {
		switch munit {
		case "ms":
			unit = "ms"
		case "By":
			unit = "By"
		}
	}
	var typ metricdata.Type
	switch {
	case d.agg == "count":
		typ = metricdata.TypeCumulativeInt64
	case d.agg == "dist":
		typ = metricdata.TypeCumulativeDistribution
	case d.agg == "sum" && isInt:
		typ = metricdata.TypeCumulativeInt64
	case d.agg == "sum":
		typ = metricdata.TypeCumulativeFloat64
	case isInt:
		typ = metricdata.TypeGaugeInt64
	default:
		typ = metricdata.TypeGaugeFloat64
	}
	desc := d.desc
	if desc == "" {
		desc = mdesc
	}
	ks := append([]string(nil), d.keys...)
	sort.Strings(ks)
	lk := []metricdata.LabelKey{}
	for _, k := range ks {
		lk = append(lk, metricdata.LabelKey{Key: k})
	}
	s := fmt.Sprintf("%s|%s|%s|%v|%v|", d.name, desc, unit, typ, lk)
	if res != nil {
		s += fmt.Sprintf("%s%v|", res.Type, res.Labels)
	}
	by := map[string][]rec{}
	for _, r := range recs {
		by[tagSig(d, r.tags)] = append(by[tagSig(d, r.tags)], r)
	}
	var ts []string
	for _, rs := range by {
		lv := []metricdata.LabelValue{}
		for _, k := range ks {
			if v := rs[0].tags[k]; v != "" {
				lv = append(lv, metricdata.NewLabelValue(v))
			} else {
				lv = append(lv, metricdata.LabelValue{})
			}
		}
		start := relT(rs[0].t)
		if d.agg == "last" {
			start = "-"
		}
		var sum float64
		for _, r := range rs {
			sum += r.v
		}
		var p string
		num := func(x float64) string {
			if isInt {
				return fmt.Sprintf("int64 %d", int64(x))
			}
			return "float64 " + rnd(x)
		}
		switch d.agg {
		case "count":
			p = fmt.Sprintf("int64 %d", len(rs))
		case "sum":
			p = num(sum)
		case "last":
			p = num(rs[len(rs)-1].v)
		default:
			b := d.canonBounds()
			cnt := make([]int, len(b)+1)
			ex := make([]string, len(b)+1)
			for i := range ex {
				ex[i] = "."
			}
			dev := 0.0
			for _, r := range rs {
				i := 0
				for i < len(b) && r.v >= b[i] {
					i++
				}
				cnt[i]++
				if len(r.att) > 0 {
					ex[i] = fmt.Sprintf("%s@%s{%s}", rnd(r.v), relT(r.t), attStr(r.att))
				}
				dev += (r.v - sum/float64(len(rs))) * (r.v - sum/float64(len(rs)))
			}
			p = fmt.Sprintf("dist n=%d sum=%s dev=%s bounds=%v", len(rs), rnd(sum), rnd(dev), b)
			for i := range cnt {
				p += fmt.Sprintf(" %d:%s", cnt[i], ex[i])
			}
		}
		ts = append(ts, fmt.Sprintf("%v start=%s %s@%s", lv, start, p, relT(now)))
	}
	sort.Strings(ts)
	return s + strings.Join(ts, "; ")
}

func init() {
	vh.Add(&vh.Task{Prop: "C07", Name: "definitions", Shards: [2]int{8, 8}, Weight: 3, Seq: func(s *vh.S) {
		keysets := [][]string{nil, {"k1"}, {"k2", "k1"}, {"k3", "k1", "k2"}}
		tags := []map[string]string{nil, {"k1": "a"}, {"k2": "b"}, {"k1": "a", "k2": "b"}, {"k3": "", "k1": "c"}, {"k3": "d", "other": "x"}}
		bset := [][]float64{nil, {1}, {0, 3, 1}}
		ress := []*resource.Resource{nil, {}, {Type: "t", Labels: map[string]string{"a": "b"}}}
		for _, isInt := range []bool{true, false} {
			for _, unit := range []string{"1", "ms", "By", "", "kg"} {
				for _, agg := range []string{"count", "sum", "last", "dist"} {
					for bi, b := range bset {
						if agg != "dist" && bi > 0 {
							continue
						}
						for _, keys := range keysets {
							for _, desc := range []string{"", "view text"} {
								for ri, res := range ress {
									if !s.Mine() || s.Stop() {
										continue
									}
									// every subset of the tag combinations as history, plus repeats
									for mask := 0; mask < 1<<uint(len(tags)); mask++ {
										d := &vdef{name: "v", desc: desc, keys: keys, agg: agg, bounds: b}
										cas := fmt.Sprintf("int=%v unit=%q %s%v keys=%v desc=%q res=%d tags=%b", isInt, unit, agg, b, keys, desc, ri, mask)
										s.Exec(cas, func() {
											vsched.Reinit()
											vsched.MapReverse(mask%2 == 1)
											var m stats.Measure
											mi, mf := (*stats.Int64Measure)(nil), (*stats.Float64Measure)(nil)
											if isInt {
												mi = stats.Int64("c07/m", "measure text", unit)
												m = mi
											} else {
												mf = stats.Float64("c07/m", "measure text", unit)
												m = mf
											}
											mt := newMeter()
											vsched.Idle()
											mustRegister(mt, mkView(d, m), &view.View{Name: "never", Measure: stats.Int64("c07/never", "", "1"), Aggregation: view.Count()})
											mt.SetResource(res)
											var rs []rec
											var kept []*metricdata.Metric
											was := ""
											for pass := 0; pass < 2; pass++ {
												for i, t := range tags {
													if mask>>uint(i)&1 == 0 {
														continue
													}
													vsched.AdvanceQuiet(1000)
													v := float64(i + 2*pass)
													var x stats.Measurement
													if isInt {
														x = mi.M(int64(v))
													} else {
														v += 0.25
														x = mf.M(v)
													}
													var att metricdata.Attachments
													if i%2 == 0 {
														att = metricdata.Attachments{"i": i}
													}
													if err := stats.RecordWithOptions(tagCtx(t), stats.WithRecorder(mt), stats.WithMeasurements(x), stats.WithAttachments(att)); err != nil {
														vsched.Failf("%v", err)
													}
													rs = append(rs, rec{t, sample{v, att, vsched.Now()}})
												}
												mustRetrieve(mt, "v") // everything queued is processed
												vsched.AdvanceQuiet(1000)
												want := ""
												if len(rs) > 0 {
													want = refMetric(d, isInt, "measure text", unit, res, rs, vsched.Now())
												}
												var got string
												if pass == 0 {
													kept = mt.(interface{ Read() []*metricdata.Metric }).Read()
													got = metricsStr(kept)
													was = got
												} else {
													got = metricsStr(readAll())
													if now := metricsStr(kept); now != was {
														vsched.Failf("what an earlier read gave has become\n%s\nit was\n%s", now, was)
													}
												}
												if got != want {
													vsched.Failf("got\n%s\nwant\n%s", got, want)
												}
												s.Outcome("%s", got)
											}
										})
										s.Case(mask)
										s.Sample("%s", cas)
									}
								}
							}
						}
					}
				}
			}
		}
	}})
	// values: every sequence over an alphabet with negative, zero, fractional and large values
	vh.Add(&vh.Task{Prop: "C07", Name: "values", Shards: [2]int{4, 8}, Weight: 2, Seq: func(s *vh.S) {
		iv := []float64{0, 1, -1, 3, -3, 1 << 40, -(1 << 40), 7}
		fv := []float64{0, 0.25, -0.25, 0.5, -1.5, 1e18, -1e18, 0.75}
		for _, isInt := range []bool{true, false} {
			for _, d := range []*vdef{{agg: "count"}, {agg: "sum"}, {agg: "last"}, {agg: "dist"}, {agg: "dist", bounds: []float64{1}}, {agg: "dist", bounds: []float64{0, 0.5, 3}}} {
				d.name, d.keys = "v", []string{"k1"}
				iv, fv := iv, fv
				if d.agg == "dist" { // the sum of a distribution is kept as mean and count: no cancellation of large values
					iv, fv = []float64{0, 1, -1, 3, -3, 1000, -1000, 7}, []float64{0, 0.25, -0.25, 0.5, -1.5, 1000.5, -1000, 0.75}
				}
				s.Seqs(len(iv), s.Pick(4, 5), func(seq []int) {
					cas := fmt.Sprintf("int=%v %s%v %v", isInt, d.agg, d.bounds, seq)
					s.Exec(cas, func() {
						vsched.Reinit()
						var m stats.Measure = stats.Float64("c07/f", "text", "1")
						if isInt {
							m = stats.Int64("c07/m", "text", "1")
						}
						mt := newMeter()
						vsched.Idle()
						mustRegister(mt, mkView(d, m))
						var rs []rec
						t := map[string]string{"k1": "a"}
						for _, o := range seq {
							var x stats.Measurement
							v := fv[o]
							switch mm := m.(type) {
							case *stats.Int64Measure:
								v = iv[o]
								x = mm.M(int64(v))
							case *stats.Float64Measure:
								x = mm.M(v)
							}
							recordOn(mt, tagCtx(t), x)
							rs = append(rs, rec{t, sample{v, nil, vsched.Now()}})
						}
						mustRetrieve(mt, "v")
						want := ""
						if len(rs) > 0 {
							want = refMetric(d, isInt, "text", "1", nil, rs, vsched.Now())
						}
						if got := metricsStr(readAll()); got != want {
							vsched.Failf("got\n%s\nwant\n%s", got, want)
						} else {
							s.Outcome("%s", got)
						}
					})
					s.Case(len(seq))
					s.Sample("%s", cas)
				})
			}
		}
	}})
	// histories of several views, registrations and reads
	vh.Add(&vh.Task{Prop: "C07", Name: "histories", Shards: [2]int{8, 8}, Weight: 3, Seq: func(s *vh.S) {
		defs := []*vdef{{name: "A", m: "c07/1", keys: []string{"k"}, agg: "dist", bounds: []float64{2}}, {name: "B", m: "c07/1", agg: "count"}, {name: "C", m: "c07/2", keys: []string{"k"}, agg: "last"}}
		// a view of the same name, measure and type takes the place of another: nothing of the first one is left
		swaps := map[string][]*vdef{"A": {{name: "A", m: "c07/1", desc: "second", keys: []string{"j"}, agg: "dist", bounds: []float64{5}}, defs[0]},
			"C": {{name: "C", m: "c07/2", desc: "third", keys: []string{"k"}, agg: "last"}, {name: "C", m: "c07/2", keys: []string{"j", "k"}, agg: "last"}, defs[2]}}
		ops := []string{"rec1", "rec1@x", "rec2", "rec12@y", "regA", "unregA", "unregB", "regB", "unregC", "regC", "res1", "res0", "swapA", "swapC"}
		s.Seqs(len(ops), s.Pick(5, 6), func(seq []int) {
			cas := ""
			for _, o := range seq {
				cas += ops[o] + " "
			}
			s.Exec(cas, func() {
				vsched.Reinit()
				m1, m2 := stats.Int64("c07/1", "one", "By"), stats.Float64("c07/2", "two", "ms")
				ms := map[string]stats.Measure{"c07/1": m1, "c07/2": m2}
				mt := newMeter()
				vsched.Idle()
				mm := newMM()
				byName := map[string]*vdef{}
				reg := func(d *vdef) {
					v := mkView(d, ms[d.m])
					mustRegister(mt, v)
					mm.register(vsched.Now(), []*vdef{d}, []*view.View{v})
				}
				for _, d := range defs {
					byName[d.name] = d
					if d.name != "B" {
						reg(d)
					}
				}
				var res *resource.Resource
				swapped := map[string]int{}
				for step, o := range seq {
					vsched.AdvanceQuiet(1000)
					n := ops[o]
					switch {
					case strings.HasPrefix(n, "swap"):
						x := n[4:]
						mt.Unregister(&view.View{Name: x})
						mm.unregister(x)
						byName[x] = swaps[x][swapped[x]%len(swaps[x])]
						swapped[x]++
						reg(byName[x])
					case strings.HasPrefix(n, "reg"):
						reg(byName[n[3:]])
					case strings.HasPrefix(n, "unreg"):
						mt.Unregister(&view.View{Name: n[5:]})
						mm.unregister(n[5:])
					case n == "res1":
						res = &resource.Resource{Type: fmt.Sprint("t", step)}
						mt.SetResource(res)
					case n == "res0":
						res = nil
						mt.SetResource(nil)
					default:
						var tags map[string]string
						if i := strings.Index(n, "@"); i > 0 {
							tags = map[string]string{"k": n[i+1:], "j": "J" + n[i+1:]}
						}
						var x []stats.Measurement
						if strings.Contains(n[:4], "1") {
							x = append(x, m1.M(int64(step)))
							mm.record("c07/1", rec{tags, sample{v: float64(step), t: vsched.Now()}})
						}
						if strings.Contains(n, "2") {
							x = append(x, m2.M(float64(step)+0.5))
							mm.record("c07/2", rec{tags, sample{v: float64(step) + 0.5, t: vsched.Now()}})
						}
						recordOn(mt, tagCtx(tags), x...)
					}
					mt.Find("A")
					vsched.AdvanceQuiet(1000)
					var want []string
					for _, v := range mm.views {
						if len(v.recs) > 0 {
							u, ds := "By", "one"
							if v.d.m == "c07/2" {
								u, ds = "ms", "two"
							}
							want = append(want, refMetric(v.d, v.d.m == "c07/1", ds, u, res, v.recs, vsched.Now()))
						}
					}
					sort.Strings(want)
					if got := metricsStr(readAll()); got != strings.Join(want, "\n") {
						vsched.Failf("step %d %s: got\n%s\nwant\n%s", step, n, got, strings.Join(want, "\n"))
					}
				}
				s.Outcome("%s", mm)
			})
			s.Case(len(seq))
			s.Sample("%s", cas)
		})
	}})
}
