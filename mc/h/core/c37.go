package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricexport"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/metric/test"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
)

// fixedProducer returns the metrics it is given.
type fixedProducer struct{ ms []*metricdata.Metric }

func (p *fixedProducer) Read() []*metricdata.Metric { return p.ms }

func init() {
	// label texts that run into each other
	texts := []string{"", "a", "b", "ab", "ba", "=", "\"", "{", "}", ",", "a\x00", ":1"}
	at := func(n int64) time.Time { return time.Unix(0, vsched.Epoch+n) }
	// any two series of one or two metrics are told apart
	vh.Add(&vh.Task{Prop: "C37", Name: "series", Shards: [2]int{8, 8}, Seq: func(s *vh.S) {
		type series struct {
			name string
			kv   []string // key, value; absent if the value is "-"
		}
		var all []series
		for _, n := range []string{"m", "ma", "m{", ""} {
			for _, k1 := range []string{"a", "ab", "", "="} {
				for _, v1 := range append([]string{"-"}, texts...) {
					all = append(all, series{n, []string{k1, v1}})
					if n != "m" {
						continue
					}
					for _, k2 := range []string{"b", "ba", "\""} {
						for _, v2 := range []string{"-", "", "b", "ab", "\"", "="} {
							all = append(all, series{n, []string{k1, v1, k2, v2}})
						}
					}
				}
			}
		}
		// texts of different series that run into each other: reported last and with this message, so that a known
		// finding about them hides nothing else
		const collide = "label sets that concatenate equally are told apart: "
		concat := func(x series) string {
			var kv [][2]string
			for i := 0; i < len(x.kv); i += 2 {
				if x.kv[i+1] != "-" {
					kv = append(kv, [2]string{x.kv[i], x.kv[i+1]})
				}
			}
			sort.Slice(kv, func(i, j int) bool { return kv[i][0] < kv[j][0] })
			c := x.name + "{"
			for _, p := range kv {
				c += p[0] + p[1]
			}
			return c + "}"
		}
		ident := func(x series) string {
			var kv []string
			for i := 0; i < len(x.kv); i += 2 {
				if x.kv[i+1] != "-" {
					kv = append(kv, fmt.Sprintf("%q:%q", x.kv[i], x.kv[i+1]))
				}
			}
			sort.Strings(kv)
			return fmt.Sprintf("%q%v", x.name, kv)
		}
		metricOf := func(x series, v int64) *metricdata.Metric {
			m := &metricdata.Metric{Descriptor: metricdata.Descriptor{Name: x.name}, TimeSeries: []*metricdata.TimeSeries{{Points: []metricdata.Point{metricdata.NewInt64Point(at(v), v)}}}}
			for i := 0; i < len(x.kv); i += 2 {
				m.Descriptor.LabelKeys = append(m.Descriptor.LabelKeys, metricdata.LabelKey{Key: x.kv[i]})
				lv := metricdata.NewLabelValue(x.kv[i+1])
				if x.kv[i+1] == "-" {
					lv = metricdata.LabelValue{}
				}
				m.TimeSeries[0].LabelValues = append(m.TimeSeries[0].LabelValues, lv)
			}
			return m
		}
		labels := func(x series) map[string]string {
			l := map[string]string{}
			for i := 0; i < len(x.kv); i += 2 {
				if x.kv[i+1] != "-" {
					l[x.kv[i]] = x.kv[i+1]
				}
			}
			return l
		}
		// all series in one exporter: each gives its own value (the last with that identity)
		s.Exec("all at once", func() {
			vsched.Reinit()
			e := test.NewExporter(metricexport.NewReader())
			want, last := map[string]int64{}, map[string]int64{}
			var ms []*metricdata.Metric
			for i, x := range all {
				ms = append(ms, metricOf(x, int64(i)))
				want[ident(x)], last[concat(x)] = int64(i), int64(i)
			}
			e.ExportMetrics(bg, ms)
			mixed := ""
			for _, x := range all {
				p, ok := e.GetPoint(x.name, labels(x))
				if w := last[concat(x)]; ok && w != want[ident(x)] && p.Value == w && p.Time.Equal(at(w)) {
					mixed = fmt.Sprintf("GetPoint of %s gives %d, want %d", ident(x), w, want[ident(x)])
					continue
				}
				if !ok || p.Value != want[ident(x)] || !p.Time.Equal(at(want[ident(x)])) {
					vsched.Failf("series %s: %v %v, want %d", ident(x), p, ok, want[ident(x)])
				}
			}
			if mixed != "" {
				vsched.Failf(collide+"%s", mixed)
			}
		})
		s.Case(len(all))
		// and in pairs: nothing is found that was not exported
		for i, x := range all {
			if !s.Mine() || s.Stop() {
				continue
			}
			s.Exec(ident(x), func() {
				vsched.Reinit()
				e := test.NewExporter(metricexport.NewReader())
				e.ExportMetrics(bg, []*metricdata.Metric{metricOf(x, int64(i))})
				n, mixed := 0, ""
				for _, y := range all {
					p, ok := e.GetPoint(y.name, labels(y))
					if ok && ident(x) != ident(y) && concat(x) == concat(y) && p.Value == int64(i) {
						mixed = fmt.Sprintf("exported %s, found as %s", ident(x), ident(y))
						continue
					}
					if ok != (ident(x) == ident(y)) || ok && p.Value != int64(i) {
						vsched.Failf("exported %s, found %v as %s", ident(x), p, ident(y))
					}
					if ok {
						n++
					}
				}
				s.Outcome("%d", n)
				if mixed != "" {
					vsched.Failf(collide+"%s", mixed)
				}
			})
			s.Case(len(all))
		}
	}})

	// histories of exports, reads and recordings: the latest point of each series
	type mm map[string]string
	tk := []string{"a", "ab"}
	vh.Add(&vh.Task{Prop: "C37", Name: "histories", Shards: [2]int{8, 8}, Seq: func(s *vh.S) {
		type op struct {
			name string
			v    float64
			tags mm
		}
		ops := []op{{"record", 1, mm{}}, {"record", 2, mm{"a": "bc"}}, {"record", 4, mm{"ab": "d"}}, {"record", 8, mm{"a": "bc", "ab": "c"}}, {"produce", 0, nil}, {"stop producing", 0, nil}, {"read", 0, nil}}
		for d := 0; d <= s.Pick(4, 6); d++ {
			s.Seqs(len(ops), d, func(seq []int) {
				name := ""
				for _, i := range seq {
					name += ops[i].name + fmt.Sprint(ops[i].tags) + "; "
				}
				s.Exec(name, func() {
					vsched.Reinit()
					m := stats.Float64("c37/m", "", "1")
					v := &view.View{Name: "v", Measure: m, Aggregation: view.Sum()}
					for _, k := range tk {
						v.TagKeys = append(v.TagKeys, key(k))
					}
					if err := view.Register(v); err != nil {
						vsched.Failf("%v", err)
					}
					pr := &fixedProducer{}
					e := test.NewExporter(metricexport.NewReader())
					now, seen := map[string]float64{}, map[string]float64{}
					prod, prodSeen := int64(0), int64(-1)
					on := false
					ident := func(t mm) string { return fmt.Sprintf("%q %q", t["a"], t["ab"]) }
					for _, i := range append(seq, len(ops)-1) {
						switch o := ops[i]; o.name {
						case "record":
							ctx := context.Context(bg)
							for k, x := range o.tags {
								ctx, _ = tag.New(ctx, tag.Insert(key(k), x))
							}
							stats.Record(ctx, m.M(o.v))
							now[ident(o.tags)] += o.v
						case "produce":
							prod++
							pr.ms = []*metricdata.Metric{{Descriptor: metricdata.Descriptor{Name: "p"}, TimeSeries: []*metricdata.TimeSeries{
								{Points: []metricdata.Point{metricdata.NewInt64Point(at(0), -1), metricdata.NewInt64Point(at(1), prod)}}}}}
							metricproducer.GlobalManager().AddProducer(pr)
							on = true
						case "stop producing":
							metricproducer.GlobalManager().DeleteProducer(pr)
							on = false
						case "read":
							vsched.AdvanceQuiet(1000)
							e.ReadAndExport()
							for k, x := range now {
								seen[k] = x
							}
							if on {
								prodSeen = prod
							}
						}
						for _, o := range ops[:4] {
							p, ok := e.GetPoint("v", o.tags)
							w, wok := seen[ident(o.tags)]
							if ok != wok || ok && p.Value != w {
								vsched.Failf("after %s: %v gives %v %v, want %v %v", ops[i].name, o.tags, p.Value, ok, w, wok)
							}
						}
						p, ok := e.GetPoint("p", nil)
						if ok != (prodSeen >= 0) || ok && p.Value != prodSeen {
							vsched.Failf("after %s: producer's point %v %v, want %d", ops[i].name, p.Value, ok, prodSeen)
						}
						if _, ok := e.GetPoint("v", mm{"a": "b", "ab": "cc"}); ok {
							vsched.Failf("a point of a series that does not exist")
						}
					}
					if str := e.String(); !strings.HasPrefix(str, "points{") {
						vsched.Failf("%s", str)
					}
					s.Outcome("%v %d", seen, prodSeen)
					s.Sample("%s", name)
				})
				s.Case(len(seq))
			})
		}
	}})
}
