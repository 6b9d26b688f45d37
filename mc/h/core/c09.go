package main

import (
	"fmt"
	"strings"

	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
)

type fakeRecorder struct {
	calls []string
}

func (f *fakeRecorder) Record(t *tag.Map, ms interface{}, att map[string]interface{}) {
	x := ""
	for _, m := range ms.([]stats.Measurement) {
		x += fmt.Sprintf("%s=%v ", m.Measure().Name(), m.Value())
	}
	f.calls = append(f.calls, fmt.Sprintf("%s| %s| %s", t, x, attStr(att)))
}

func init() {
	type mut struct {
		name string
		m    func() tag.Mutator
		bad  bool
		set  func(map[string]string)
	}
	long := strings.Repeat("v", 256)
	muts := []mut{
		{"ins k=new", func() tag.Mutator { return tag.Insert(key("k"), "new") }, false, func(m map[string]string) {
			if _, ok := m["k"]; !ok {
				m["k"] = "new"
			}
		}},
		{"upd k=upd", func() tag.Mutator { return tag.Update(key("k"), "upd") }, false, func(m map[string]string) {
			if _, ok := m["k"]; ok {
				m["k"] = "upd"
			}
		}},
		{"ups l=x", func() tag.Mutator { return tag.Upsert(key("l"), "x") }, false, func(m map[string]string) { m["l"] = "x" }},
		{"del k", func() tag.Mutator { return tag.Delete(key("k")) }, false, func(m map[string]string) { delete(m, "k") }},
		{"bad", func() tag.Mutator { return tag.Upsert(key("k"), long) }, true, nil},
		{"bad insert", func() tag.Mutator { return tag.Insert(key("l"), "\x01") }, true, nil},
	}
	ctxs := []map[string]string{nil, {"k": "old"}, {"k": "old", "l": "l0"}}
	// every combination of options through every record function
	vh.Add(&vh.Task{Prop: "C09", Name: "options", Shards: [2]int{8, 8}, Weight: 3, Seq: func(s *vh.S) {
		defs := []*vdef{{name: "a", m: "c09/1", keys: []string{"k", "l"}, agg: "dist", bounds: []float64{2}}, {name: "b", m: "c09/2", keys: []string{"k"}, agg: "sum"}}
		mset := [][]int{nil, {0}, {1}, {2}, {0, 0}, {0, 1}, {2, 0}, {0, 2}, {0, 2, 1}, {2, 0, 2}, {2, 2, 1}, {2, 2}, {2, 2, 2}} // 2: a measure without view
		for _, fn := range []string{"Record", "RecordWithTags", "WithOptions", "WithRecorder(meter)", "WithRecorder(fake)"} {
			for ci, ct := range ctxs {
				for _, msx := range mset {
					for attn := 0; attn < 3; attn++ {
						for m1 := -1; m1 < len(muts); m1++ {
							for m2 := -1; m2 < len(muts); m2++ {
								if m1 == -1 && m2 != -1 || fn == "Record" && (m1 >= 0 || attn > 0) || fn == "RecordWithTags" && attn > 0 {
									continue
								}
								if !s.Mine() || s.Stop() {
									continue
								}
								var ml []tag.Mutator
								cas := fmt.Sprintf("%s ctx=%d measurements=%v attachments=%d mutators", fn, ci, msx, attn)
								for _, i := range []int{m1, m2} {
									if i >= 0 {
										cas += " " + muts[i].name
									}
								}
								s.Exec(cas, func() {
									vsched.Reinit()
									a, b, c := stats.Int64("c09/1", "", "1"), stats.Float64("c09/2", "", "1"), stats.Int64("c09/3", "", "1")
									ms := map[string]stats.Measure{"c09/1": a, "c09/2": b}
									var mt view.Meter = defMeter{}
									if fn == "WithRecorder(meter)" {
										mt = newMeter()
									}
									for _, d := range defs {
										mustRegister(mt, mkView(d, ms[d.m]))
									}
									want := map[string]string{}
									for k, v := range ct {
										want[k] = v
									}
									bad, used := false, false
									for _, i := range []int{m1, m2} {
										if i >= 0 {
											ml = append(ml, muts[i].m())
											bad = bad || muts[i].bad
											if muts[i].set != nil {
												muts[i].set(want)
											}
										}
									}
									var att metricdata.Attachments
									if attn == 1 {
										att = metricdata.Attachments{}
									} else if attn == 2 {
										att = metricdata.Attachments{"trace": "t"}
									}
									var xs []stats.Measurement
									recs := map[string][]rec{}
									mstr := ""
									for _, i := range msx {
										switch i {
										case 0:
											xs = append(xs, a.M(3))
											recs["c09/1"] = append(recs["c09/1"], rec{want, sample{3, att, vsched.Now()}})
											mstr += "c09/1=3 "
										case 1:
											xs = append(xs, b.M(1.5))
											recs["c09/2"] = append(recs["c09/2"], rec{want, sample{1.5, att, vsched.Now()}})
											mstr += "c09/2=1.5 "
										case 2:
											xs = append(xs, c.M(9))
											mstr += "c09/3=9 "
										}
										used = used || i != 2
									}
									ctx := tagCtx(ct)
									before := tag.FromContext(ctx).String()
									fake := &fakeRecorder{}
									var err error
									switch fn {
									case "Record":
										stats.Record(ctx, xs...)
									case "RecordWithTags":
										err = stats.RecordWithTags(ctx, ml, xs...)
									case "WithOptions":
										err = stats.RecordWithOptions(ctx, stats.WithMeasurements(xs...), stats.WithTags(ml...), stats.WithAttachments(att))
									case "WithRecorder(meter)":
										err = stats.RecordWithOptions(ctx, stats.WithTags(ml...), stats.WithRecorder(mt), stats.WithAttachments(att), stats.WithMeasurements(xs...))
									case "WithRecorder(fake)":
										err = stats.RecordWithOptions(ctx, stats.WithRecorder(fake), stats.WithTags(ml...), stats.WithAttachments(att), stats.WithMeasurements(xs...))
									}
									// with nothing to record the mutators are not looked at
									if (err != nil) != (bad && used) {
										vsched.Failf("error %v, want one: %v", err, bad && used)
									}
									if tag.FromContext(ctx).String() != before {
										vsched.Failf("the context's tags changed from %s to %s", before, tag.FromContext(ctx))
									}
									if bad || !used || fn == "WithRecorder(fake)" {
										recs = nil
									}
									if fn == "WithRecorder(fake)" {
										if bad || !used {
											if len(fake.calls) != 0 {
												vsched.Failf("recorder called: %v", fake.calls)
											}
										} else {
											w := fmt.Sprintf("%s| %s| %s", tag.FromContext(tagCtx(want)), mstr, attStr(att))
											if ct == nil && len(ml) == 0 {
												w = fmt.Sprintf("%s| %s| %s", (*tag.Map)(nil), mstr, attStr(att))
											}
											if len(fake.calls) != 1 || fake.calls[0] != w && len(want) > 0 {
												vsched.Failf("recorder got %q, want %q", fake.calls, w)
											}
										}
									}
									for _, d := range defs {
										got, w := rowsStr(mustRetrieve(mt, d.name)), refRows(d, recs[d.m])
										if got != w {
											vsched.Failf("%s: got %s want %s", d.name, got, w)
										}
										s.Outcome("%s", got)
									}
									if fn == "WithRecorder(meter)" {
										if ps := producers(); len(ps) == 2 {
											for _, p := range ps {
												if p != mt.(interface{ Read() []*metricdata.Metric }) && len(p.Read()) != 0 {
													vsched.Failf("the default meter got data")
												}
											}
										}
									}
								})
								s.Case(1)
								s.Sample("%s", cas)
							}
						}
					}
				}
			}
		}
	}})
	// handles of one measure: histories of creating, registering, recording
	vh.Add(&vh.Task{Prop: "C09", Name: "measure-handles", Shards: [2]int{4, 8}, Seq: func(s *vh.S) {
		ops := []string{"rec h0", "rec h1", "rec h2", "reg view(h0)", "reg view(h1)", "reg view(h2)", "new h1", "new h2", "unreg view(h0)"}
		s.Seqs(len(ops), s.Pick(5, 6), func(seq []int) {
			cas := ""
			for _, o := range seq {
				cas += ops[o] + "; "
			}
			s.Exec(cas, func() {
				vsched.Reinit()
				mt := newMeter()
				mm := newMM()
				// the same name with other texts and of the other kind
				mk := []func() stats.Measure{
					func() stats.Measure { return stats.Int64("c09/m", "first", "By") },
					func() stats.Measure { return stats.Int64("c09/m", "second", "1") },
					func() stats.Measure { return stats.Float64("c09/m", "third", "ms") },
				}
				h := make([]stats.Measure, 3)
				for i, f := range mk {
					h[i] = f()
				}
				sub := false
				defs := make([]*vdef, 3)
				for i := range defs {
					defs[i] = &vdef{name: fmt.Sprint("v", i), m: "c09/m", agg: "sum"}
				}
				for step, o := range seq {
					switch {
					case o < 3:
						var x stats.Measurement
						switch m := h[o].(type) {
						case *stats.Int64Measure:
							x = m.M(int64(step + 1))
						case *stats.Float64Measure:
							x = m.M(float64(step + 1))
						}
						recordOn(mt, bg, x)
						if sub {
							mm.record("c09/m", rec{nil, sample{v: float64(step + 1), t: vsched.Now()}})
						}
					case o < 6:
						v := mkView(defs[o-3], h[o-3])
						mustRegister(mt, v)
						mm.register(0, []*vdef{defs[o-3]}, []*view.View{v})
						sub = true
					case o < 8:
						h[o-5] = mk[o-5]()
					default:
						mt.Unregister(&view.View{Name: "v0"})
						mm.unregister("v0")
					}
					for i, m := range h {
						if m.Name() != "c09/m" || m.Description() != "first" || m.Unit() != "By" {
							vsched.Failf("handle %d is %s %s %s", i, m.Name(), m.Description(), m.Unit())
						}
					}
					mm.compare(mt, []string{"v0", "v1", "v2"})
				}
				s.Outcome("%s", mm)
			})
			s.Case(len(seq))
			s.Sample("%s", cas)
		})
	}})
	// every order of up to four definitions of two names, of both kinds: the first
	// definition of a name supplies the texts of all its handles
	vh.Add(&vh.Task{Prop: "C09", Name: "handle-texts", Shards: [2]int{1, 1}, Weight: 1, Seq: func(s *vh.S) {
		type text struct{ name, desc, unit string }
		defs := []text{{"c09/p", "one", "By"}, {"c09/p", "", "1"}, {"c09/q", "two", ""}, {"c09/q", "one", "ms"}}
		s.Seqs(2*len(defs), s.Pick(3, 4), func(seq []int) {
			cas := fmt.Sprint(seq)
			s.Exec(cas, func() {
				vsched.Reinit()
				first := map[string]text{}
				hs, want := []stats.Measure{}, []text{}
				for _, o := range seq {
					d := defs[o/2]
					var m stats.Measure
					var x stats.Measurement
					if o%2 == 0 {
						h := stats.Int64(d.name, d.desc, d.unit)
						m, x = h, h.M(7)
					} else {
						h := stats.Float64(d.name, d.desc, d.unit)
						m, x = h, h.M(7)
					}
					if x.Value() != 7 || x.Measure() != m {
						vsched.Failf("measurement %v of %v", x.Value(), x.Measure())
					}
					if _, ok := first[d.name]; !ok {
						first[d.name] = d
					}
					hs, want = append(hs, m), append(want, first[d.name])
					for i, h := range hs {
						if got := (text{h.Name(), h.Description(), h.Unit()}); got != want[i] {
							vsched.Failf("handle %d is %q, created first as %q", i, got, want[i])
						}
					}
				}
			})
			s.Case(len(seq))
			s.Outcome("%s", cas)
		})
	}})
	vh.Add(&vh.Task{Prop: "C09", Name: "concurrent-handles", Race: true, Bound: [2]int{4, 7}, Shards: [2]int{8, 8}, Weight: 5, Body: func() {
		vsched.Reinit()
		mt := newMeter()
		vsched.Idle()
		desc := [2]string{}
		vsched.Explore(true)
		t1 := vsched.Thread("a", func() {
			m := stats.Int64("c09/m", "A", "1")
			desc[0] = m.Description()
			mustRegister(mt, &view.View{Name: "va", Measure: m, Aggregation: view.Count()})
			recordOn(mt, bg, m.M(1))
		})
		t2 := vsched.Thread("b", func() {
			m := stats.Int64("c09/m", "B", "1")
			desc[1] = m.Description()
			mustRegister(mt, &view.View{Name: "vb", Measure: m, Aggregation: view.Count()})
			recordOn(mt, bg, m.M(1))
		})
		vsched.Join(t1, t2)
		vsched.Explore(false)
		if desc[0] != desc[1] || desc[0] == "" {
			vsched.Failf("two definitions: %v", desc)
		}
		m := stats.Int64("c09/m", "C", "1")
		recordOn(mt, bg, m.M(1))
		a, b := countOf(mustRetrieve(mt, "va")), countOf(mustRetrieve(mt, "vb"))
		if m.Description() != desc[0] || a < 2 || b < 2 || a+b < 5 || a+b > 6 {
			vsched.Failf("%v %v: counts %d %d", m.Description(), desc, a, b)
		}
		vsched.Outcome("%s %d %d", desc[0], a, b)
	}})
	// the recorder is looked up while views are being registered for the first time
	vh.Add(&vh.Task{Prop: "C09", Name: "first-subscription", Race: true, Bound: [2]int{99, 99}, Shards: [2]int{8, 8}, Weight: 4, Body: func() {
		vsched.Reinit()
		m, f := stats.Int64("c09/m", "", "1"), stats.Float64("c09/f", "", "1")
		vsched.Idle()
		vsched.Explore(true)
		t1 := vsched.Thread("rec", func() {
			stats.Record(bg, m.M(1))
			if err := stats.RecordWithOptions(bg, stats.WithMeasurements(f.M(2), m.M(1)), stats.WithAttachments(metricdata.Attachments{"a": 1})); err != nil {
				vsched.Failf("%v", err)
			}
		})
		t2 := vsched.Thread("reg", func() {
			if err := view.Register(&view.View{Name: "v", Measure: m, Aggregation: view.Count()}, &view.View{Name: "w", Measure: f, Aggregation: view.Distribution(1)}); err != nil {
				vsched.Failf("%v", err)
			}
			stats.Record(bg, m.M(1))
		})
		vsched.Join(t1, t2)
		vsched.Explore(false)
		r, _ := view.RetrieveData("v")
		w, _ := view.RetrieveData("w")
		n, k := countOf(r), countOf(w)
		if n < 1 || n > 3 || k > 1 {
			vsched.Failf("counted %d %d", n, k)
		}
		vsched.Outcome("%d %d", n, k)
	}})
}
