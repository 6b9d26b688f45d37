package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
)

// mview is a registered view of the model.
type mview struct {
	d     *vdef
	v     *view.View // the object that was registered
	start int64
	recs  []rec
}

// mmeter is the reference model of a meter.
type mmeter struct {
	views map[string]*mview
}

func newMM() *mmeter { return &mmeter{views: map[string]*mview{}} }

func sameDef(a, b *vdef) bool {
	return a.agg == b.agg && a.m == b.m && fmt.Sprint(a.canonBounds()) == fmt.Sprint(b.canonBounds())
}

func (m *mmeter) clone() *mmeter {
	c := newMM()
	for k, v := range m.views {
		x := *v
		x.recs = append([]rec(nil), v.recs...)
		c.views[k] = &x
	}
	return c
}

func invalidDef(d *vdef) bool {
	for _, b := range d.bounds {
		if b < 0 {
			return true
		}
	}
	return d.m == "" || d.agg == "" || len(d.name) > 255 || strings.Contains(d.name, "\n")
}

// register applies a batch and reports whether an error must be returned.
func (m *mmeter) register(now int64, ds []*vdef, vs []*view.View) (fails bool) {
	for _, d := range ds {
		if invalidDef(d) {
			return true
		}
	}
	for i, d := range ds {
		if o := m.views[d.name]; o != nil {
			if !sameDef(o.d, d) {
				fails = true
			}
			continue
		}
		m.views[d.name] = &mview{d: d, v: vs[i], start: now}
	}
	return
}

func (m *mmeter) unregister(name string) { delete(m.views, name) }

func (m *mmeter) record(measure string, r rec) {
	for _, v := range m.views {
		if v.d.m == measure {
			v.recs = append(v.recs, r)
		}
	}
}

// compare checks everything observable about the named views.
func (m *mmeter) compare(mt view.Meter, names []string) {
	for _, n := range names {
		f := mt.Find(n)
		rows, err := mt.RetrieveData(n)
		o := m.views[n]
		if o == nil {
			if f != nil {
				vsched.Failf("Find(%q) finds an unregistered view", n)
			}
			if err == nil {
				vsched.Failf("RetrieveData(%q) of an unregistered view succeeds: %s", n, rowsStr(rows))
			}
			continue
		}
		if f != o.v {
			vsched.Failf("Find(%q) = %v, want the registered view", n, f)
		}
		if err != nil {
			vsched.Failf("RetrieveData(%q): %v", n, err)
		}
		if got, want := rowsStr(rows), refRows(o.d, o.recs); got != want {
			vsched.Failf("data of %q:\n got %s\nwant %s", n, got, want)
		}
	}
}

func (m *mmeter) String() string {
	var ss []string
	for n, v := range m.views {
		ss = append(ss, fmt.Sprintf("%s(%s,%d)", n, v.d.agg, len(v.recs)))
	}
	sort.Strings(ss)
	return strings.Join(ss, " ")
}

// finalReports keeps what it is given.
type finalReports struct{ ds []*view.Data }

func (e *finalReports) ExportView(d *view.Data) { e.ds = append(e.ds, d) }

func init() {
	A := &vdef{name: "A", m: "c05/1", keys: []string{"k"}, agg: "dist", bounds: []float64{0, 2, 1}}
	A2 := &vdef{name: "A", m: "c05/1", keys: []string{"k"}, agg: "dist", bounds: []float64{1, 2}}
	Aagg := &vdef{name: "A", m: "c05/1", keys: []string{"k"}, agg: "count"}
	Abnd := &vdef{name: "A", m: "c05/1", keys: []string{"k"}, agg: "dist", bounds: []float64{1, 3}}
	Am := &vdef{name: "A", m: "c05/2", keys: []string{"k"}, agg: "dist", bounds: []float64{1, 2}}
	B := &vdef{name: "B", m: "c05/1", agg: "sum"}
	E := &vdef{name: "E", m: "c05/1", keys: []string{"k"}, agg: "dist", bounds: []float64{1, 2}} // A in all but the name
	C := &vdef{name: "C", m: "c05/2", agg: "last"}
	bad := &vdef{name: "bad", m: "c05/1", agg: "dist", bounds: []float64{1, -1}}
	noM := &vdef{name: "D", agg: "count"}
	noAgg := &vdef{name: "D", m: "c05/2"}
	long := &vdef{name: strings.Repeat("n", 256), m: "c05/1", agg: "count"}
	unp := &vdef{name: "x\ny", m: "c05/1", agg: "count"}
	names := []string{"A", "B", "C", "D", "E", "bad", long.name, unp.name, "c05/1"}
	type op struct {
		name  string
		reg   []*vdef
		unreg []*vdef
		rec   string
	}
	ops := []op{
		{name: "reg(A)", reg: []*vdef{A}},
		{name: "reg(A equal)", reg: []*vdef{A2}},
		{name: "reg(B)", reg: []*vdef{B}},
		{name: "reg(A other agg)", reg: []*vdef{Aagg}},
		{name: "reg(A other measure,B)", reg: []*vdef{Am, B}},
		{name: "reg(C,bad)", reg: []*vdef{C, bad}},
		{name: "unreg(A)", unreg: []*vdef{A}},
		{name: "unreg(B,unknown)", unreg: []*vdef{B, noM}},
		{name: "rec1", rec: "c05/1"},
		{name: "rec2", rec: "c05/2"},
		{name: "reg(C,B,E,A)", reg: []*vdef{C, B, E, A}},
		{name: "unreg(C,E)", unreg: []*vdef{C, E}},
		// only in the wider alphabet
		{name: "reg(A other bounds,C)", reg: []*vdef{Abnd, C}},
		{name: "reg(no measure)", reg: []*vdef{B, noM}},
		{name: "reg(no aggregation)", reg: []*vdef{noAgg, C}},
		{name: "reg(too long)", reg: []*vdef{long, A}},
		{name: "reg(unprintable)", reg: []*vdef{unp}},
		{name: "reg()", reg: []*vdef{}},
		{name: "reg(B,B)", reg: []*vdef{B, B}},
	}
	mk := func(d *vdef, ms map[string]stats.Measure) *view.View {
		v := &view.View{Name: d.name}
		if d.m != "" {
			v.Measure = ms[d.m]
		}
		for _, k := range d.keys {
			v.TagKeys = append(v.TagKeys, key(k))
		}
		if d.agg != "" {
			v.Aggregation = mkAgg(d)
		}
		return v
	}
	run := func(s *vh.S, nops, depth int, def, fresh bool) {
		s.Seqs(nops, depth, func(seq []int) {
			cas := ""
			for _, o := range seq {
				cas += ops[o].name + " "
			}
			s.Exec(cas, func() {
				vsched.Reinit()
				ms := map[string]stats.Measure{"c05/1": stats.Int64("c05/1", "d1", "1"), "c05/2": stats.Float64("c05/2", "d2", "By")}
				var mt view.Meter = defMeter{}
				if !def {
					mt = newMeter()
				}
				mm := newMM()
				objs := map[*vdef]*view.View{}
				for step, o := range seq {
					vsched.AdvanceQuiet(int64(time.Millisecond))
					x := &ops[o]
					switch {
					case x.reg != nil:
						var vs []*view.View
						for _, d := range x.reg {
							if objs[d] == nil || fresh {
								objs[d] = mk(d, ms)
							}
							vs = append(vs, objs[d])
						}
						err := mt.Register(vs...)
						if fails := mm.register(vsched.Now(), x.reg, vs); fails != (err != nil) {
							vsched.Failf("step %d %s: error %v, want one: %v", step, x.name, err, fails)
						}
					case x.unreg != nil:
						var vs []*view.View
						for _, d := range x.unreg {
							vs = append(vs, &view.View{Name: d.name})
							mm.unregister(d.name)
						}
						mt.Unregister(vs...)
					default:
						v := float64(step) + 0.5
						var mea stats.Measurement
						if x.rec == "c05/1" {
							v = float64(step)
							mea = ms[x.rec].(*stats.Int64Measure).M(int64(step))
						} else {
							mea = ms[x.rec].(*stats.Float64Measure).M(v)
						}
						if def {
							stats.Record(bg, mea)
						} else {
							recordOn(mt, bg, mea)
						}
						mm.record(x.rec, rec{nil, sample{v: v, t: vsched.Now()}})
					}
					mm.compare(mt, names)
				}
				s.Outcome("%s", mm)
				// the final report tells since when each view has been collecting
				vsched.AdvanceQuiet(int64(time.Millisecond))
				e := &finalReports{}
				mt.RegisterExporter(e)
				n := 0
				for _, name := range names {
					o := mm.views[name]
					mt.Unregister(&view.View{Name: name})
					if o == nil {
						if len(e.ds) != n {
							vsched.Failf("%q is not registered and was reported", name)
						}
						continue
					}
					n++
					if len(e.ds) != n || e.ds[n-1].View != o.v {
						vsched.Failf("unregistering %q: %d reports, want %d", name, len(e.ds), n)
					}
					if at := e.ds[n-1].Start.UnixNano(); at != o.start {
						vsched.Failf("%q is said to collect since %d, registered at %d", name, at, o.start)
					}
				}
				mt.UnregisterExporter(e)
			})
			s.Case(depth)
			s.Sample("%s", cas)
		})
	}
	vh.Add(&vh.Task{Prop: "C05", Name: "histories", Shards: [2]int{8, 8}, Weight: 5, Seq: func(s *vh.S) {
		run(s, len(ops), 3, false, true)
		run(s, len(ops), 3, true, false)
		run(s, 12, s.Pick(4, 5), false, true)
		run(s, 10, s.Pick(5, 6), false, false)
	}})
	// names and descriptions default to the measure's
	// every pair of definitions of one name
	vh.Add(&vh.Task{Prop: "C05", Name: "definitions", Shards: [2]int{4, 4}, Seq: func(s *vh.S) {
		var ds []*vdef
		for _, m := range []string{"c05/1", "c05/2"} {
			for _, k := range [][]string{nil, {"k"}} {
				for _, g := range []string{"count", "sum", "last"} {
					ds = append(ds, &vdef{name: "A", m: m, keys: k, agg: g})
				}
				for _, b := range [][]float64{nil, {0}, {1}, {2}, {1, 2}, {2, 1}, {0, 1, 2}, {1, 3}, {1, 2, 3}, {3, 1, 2}, {0, 3}, {0.5, 1, 2}} {
					ds = append(ds, &vdef{name: "A", m: m, keys: k, agg: "dist", bounds: b})
				}
			}
		}
		for i, d1 := range ds {
			for j, d2 := range ds {
				if !s.Mine() {
					continue
				}
				cas := fmt.Sprintf("%s %v %v %v, then %s %v %v %v", d1.m, d1.keys, d1.agg, d1.bounds, d2.m, d2.keys, d2.agg, d2.bounds)
				d1, d2 := d1, d2
				s.Exec(cas, func() {
					vsched.Reinit()
					ms := map[string]stats.Measure{"c05/1": stats.Int64("c05/1", "d1", "1"), "c05/2": stats.Float64("c05/2", "d2", "By")}
					mt := newMeter()
					mm := newMM()
					for n, d := range []*vdef{d1, d2, d1} {
						vs := []*view.View{mk(d, ms)}
						if fails, err := mm.register(vsched.Now(), []*vdef{d}, vs), mt.Register(vs...); fails != (err != nil) {
							vsched.Failf("registration %d: error %v, want one: %v", n, err, fails)
						}
						recordOn(mt, bg, ms["c05/1"].(*stats.Int64Measure).M(int64(n)), ms["c05/2"].(*stats.Float64Measure).M(float64(n)+0.5))
						mm.record("c05/1", rec{nil, sample{v: float64(n), t: vsched.Now()}})
						mm.record("c05/2", rec{nil, sample{v: float64(n) + 0.5, t: vsched.Now()}})
						mm.compare(mt, []string{"A"})
					}
					s.Outcome("%v", sameDef(d1, d2))
				})
				s.Case(3)
				if i*j%97 == 0 {
					s.Sample("%s", cas)
				}
			}
		}
	}})
	vh.Add(&vh.Task{Prop: "C05", Name: "defaults", Shards: [2]int{1, 1}, Seq: func(s *vh.S) {
		for _, name := range []string{"", "n", strings.Repeat("n", 255)} {
			for _, desc := range []string{"", "text"} {
				for _, keys := range [][]string{nil, {"b", "a"}, {"c", "a", "b"}} {
					s.Exec(name+desc, func() {
						vsched.Reinit()
						m := stats.Int64("c05/m", "measure text", "1")
						mt := newMeter()
						v := mk(&vdef{name: name, m: "x", keys: keys, agg: "count"}, map[string]stats.Measure{"x": m})
						v.Description = desc
						w := v.WithName("renamed")
						mustRegister(mt, v)
						wn, wd := name, desc
						if wn == "" {
							wn = "c05/m"
						}
						if wd == "" {
							wd = "measure text"
						}
						if v.Name != wn || v.Description != wd || mt.Find(wn) != v {
							vsched.Failf("registered as %q %q, want %q %q", v.Name, v.Description, wn, wd)
						}
						for i := 1; i < len(v.TagKeys); i++ {
							if v.TagKeys[i-1].Name() > v.TagKeys[i].Name() {
								vsched.Failf("keys not sorted: %v", v.TagKeys)
							}
						}
						if w.Name != "renamed" || w.Measure != m || w.Aggregation != v.Aggregation {
							vsched.Failf("WithName: %+v", w)
						}
						mustRegister(mt, w)
						if mt.Find("renamed") != w || mt.Find(wn) != v {
							vsched.Failf("renamed view not registered beside the original")
						}
						s.Outcome("%s %s", wn, wd)
					})
					s.Case(2)
				}
			}
		}
	}})

	// two goroutines with short programs of registrations, unregistrations, records and lookups:
	// every interleaving must be explained by some order of the operations
	progs := [][]string{
		{"regA", "rec", "getA"}, {"regA2", "getA"}, {"regConf", "getA"}, {"unregA", "getA"}, {"regA", "unregA"}, {"rec", "regB", "getB"}, {"unregA", "regConf", "getA"}, {"rec", "rec"}, {"regBad", "getB"}, {"findA", "rec", "findA"},
	}
	conc := func(name string, race bool, bq, bt int, progs [][]string) {
		vh.Add(&vh.Task{Prop: "C05", Name: name, Race: race, Bound: [2]int{bq, bt}, Shards: [2]int{8, 8}, Weight: 6, Body: func() {
			vsched.Reinit()
			ms := map[string]stats.Measure{"c05/1": stats.Int64("c05/1", "", "1"), "c05/2": stats.Float64("c05/2", "", "By")}
			mt := newMeter()
			mm := newMM()
			a := mk(A2, ms)
			if vsched.Choose(2, "A registered before") == 1 {
				mustRegister(mt, a)
				mm.register(0, []*vdef{A2}, []*view.View{a})
			}
			mustRegister(mt, mk(C, ms))
			recordOn(mt, bg, ms["c05/2"].(*stats.Float64Measure).M(1)) // subscribe both measures
			bsub := &view.View{Name: "sub", Measure: ms["c05/1"], Aggregation: view.Count()}
			mustRegister(mt, bsub)
			i := vsched.Choose(len(progs), "program 1")
			j := i + vsched.Choose(len(progs)-i, "program 2")
			reg := func(d *vdef, extra ...*vdef) func() (string, func(*mmeter) bool) {
				return func() (string, func(*mmeter) bool) {
					var vs []*view.View
					ds := append([]*vdef{d}, extra...)
					for _, d := range ds {
						vs = append(vs, mk(d, ms))
					}
					err := mt.Register(vs...)
					return fmt.Sprintf(" err=%v", err != nil), func(m *mmeter) bool { return m.register(0, ds, vs) == (err != nil) }
				}
			}
			get := func(n string) func() (string, func(*mmeter) bool) {
				return func() (string, func(*mmeter) bool) {
					rows, err := mt.RetrieveData(n)
					got := rowsStr(rows)
					return fmt.Sprintf(" %v %s", err != nil, got), func(m *mmeter) bool {
						o := m.views[n]
						if o == nil || err != nil {
							return o == nil && err != nil
						}
						return got == refRows(o.d, o.recs)
					}
				}
			}
			table := map[string]func() (string, func(*mmeter) bool){
				"regA": reg(A2), "regA2": reg(A), "regConf": reg(Aagg), "regB": reg(B), "regBad": reg(B, bad),
				"getA": get("A"), "getB": get("B"),
				"findA": func() (string, func(*mmeter) bool) {
					v := mt.Find("A")
					return fmt.Sprintf(" %v", v != nil), func(m *mmeter) bool { return (m.views["A"] != nil) == (v != nil) }
				},
				"unregA": func() (string, func(*mmeter) bool) {
					mt.Unregister(&view.View{Name: "A"})
					return "", func(m *mmeter) bool { m.unregister("A"); return true }
				},
				"rec": func() (string, func(*mmeter) bool) {
					recordOn(mt, bg, ms["c05/1"].(*stats.Int64Measure).M(1))
					return "", func(m *mmeter) bool {
						m.record("c05/1", rec{nil, sample{v: 1, t: vsched.Epoch}})
						return true
					}
				},
			}
			var hs [2]*vh.Hist[*mmeter]
			var ts []*vsched.G
			vsched.Idle()
			vsched.Explore(true)
			for k, pi := range []int{i, j} {
				h := &vh.Hist[*mmeter]{Thread: k}
				hs[k] = h
				pr := progs[pi]
				ts = append(ts, vsched.Thread(fmt.Sprint("t", k), func() {
					for _, o := range pr {
						h.Do(o, table[o])
					}
				}))
			}
			vsched.Join(ts...)
			vsched.Explore(false)
			h := &vh.Hist[*mmeter]{Thread: 2}
			h.Do("getA", get("A"))
			h.Do("getB", get("B"))
			if !vh.Linearizable(mm, (*mmeter).clone, nil, hs[0], hs[1], h) {
				vsched.Failf("no order of the operations explains: %s", vh.HistString(hs[0], hs[1], h))
			}
			vsched.Outcome("%d %d %s", i, j, vh.HistString(h))
		}})
	}
	conc("concurrent", false, 1, 3, progs)
	// with race detection
	conc("concurrent-few", true, 2, 4, [][]string{{"regA", "getA"}, {"unregA", "rec"}, {"regConf", "rec"}, {"findA", "findA"}})
}

// defMeter is the default meter behind the package-level functions.
type defMeter struct{ view.Meter }

func (defMeter) Register(v ...*view.View) error             { return view.Register(v...) }
func (defMeter) Unregister(v ...*view.View)                 { view.Unregister(v...) }
func (defMeter) Find(n string) *view.View                   { return view.Find(n) }
func (defMeter) RetrieveData(n string) ([]*view.Row, error) { return view.RetrieveData(n) }
func (defMeter) RegisterExporter(e view.Exporter)           { view.RegisterExporter(e) }
func (defMeter) UnregisterExporter(e view.Exporter)         { view.UnregisterExporter(e) }
func (defMeter) SetReportingPeriod(d time.Duration)         { view.SetReportingPeriod(d) }
func (defMeter) Stop()                                      { view.Stop() }
