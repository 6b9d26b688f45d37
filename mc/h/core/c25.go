package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/metric"
	"go.opencensus.io/metric/metricdata"
)

// regModel is what a registry should contain.
type regModel struct {
	ms map[string]*rmetric
}

type rmetric struct {
	k       mkind
	desc    string
	unit    metricdata.Unit
	cl      map[metricdata.LabelKey]metricdata.LabelValue
	keys    []metricdata.LabelKey
	start   int64
	es      map[string]*float64 // by label text
	h       mmetric
	entries map[string]mentry
}

func (m *rmetric) allKeys() []metricdata.LabelKey {
	var c []metricdata.LabelKey
	for k := range m.cl {
		c = append(c, k)
	}
	sort.Slice(c, func(i, j int) bool { return c[i].Key < c[j].Key })
	return append(c, m.keys...)
}

func (m *rmetric) labels(lv []metricdata.LabelValue) string {
	var all []metricdata.LabelValue
	for _, k := range m.allKeys()[:len(m.cl)] {
		all = append(all, m.cl[k])
	}
	all = append(all, lv...)
	for i := range all {
		if !all[i].Present {
			all[i].Value = ""
		}
	}
	return fmt.Sprint(all)
}

func (m *rmetric) render() string {
	x := fmt.Sprintf("type=%v desc=%q unit=%q keys=%v", m.k.typ(), m.desc, m.unit, m.allKeys())
	var ts []string
	for l, v := range m.es {
		w := *v
		if w < 0 && !m.k.derived() {
			w = 0
		}
		y := l + "="
		if m.k.isFloat() {
			y += fmt.Sprintf("float %v", w)
		} else {
			y += fmt.Sprintf("int %v", int64(w))
		}
		if m.k.cumulative() {
			y += fmt.Sprintf(" since %d", m.start)
		}
		ts = append(ts, y)
	}
	sort.Strings(ts)
	return x + " " + strings.Join(ts, "; ")
}

func (g *regModel) render() string {
	var out []string
	for n, m := range g.ms {
		out = append(out, n+" "+m.render())
	}
	sort.Strings(out)
	return strings.Join(out, " | ")
}

func regRender(r *metric.Registry) string {
	now := vsched.Now()
	var out []string
	for _, m := range r.Read() {
		d := m.Descriptor
		x := fmt.Sprintf("%s type=%v desc=%q unit=%q keys=%v", d.Name, d.Type, d.Description, d.Unit, d.LabelKeys)
		if m.Resource != nil {
			x += " resource!"
		}
		var ts []string
		for _, t := range m.TimeSeries {
			y := fmt.Sprint(t.LabelValues) + "="
			for _, p := range t.Points {
				y += ptStr(p)
				if p.Time.UnixNano() != now {
					y += fmt.Sprintf(" at %d not %d", p.Time.UnixNano(), now)
				}
			}
			if d.Type == metricdata.TypeCumulativeInt64 || d.Type == metricdata.TypeCumulativeFloat64 {
				y += fmt.Sprintf(" since %d", t.StartTime.UnixNano())
			}
			ts = append(ts, y)
		}
		sort.Strings(ts)
		out = append(out, x+" "+strings.Join(ts, "; "))
	}
	sort.Strings(out)
	return strings.Join(out, " | ")
}

type regOpt struct {
	spoil func() // changes the arguments the options were made with last
	o    func() []metric.Options
	desc string
	unit metricdata.Unit
	cl   map[metricdata.LabelKey]metricdata.LabelValue
	keys []metricdata.LabelKey
}

func regOpts() []regOpt {
	l := metricdata.LabelKey{Key: "l"}
	k := metricdata.LabelKey{Key: "k", Description: "a key"}
	// the options get their own keys and labels, which the caller changes later
	var ks []metricdata.LabelKey
	var ts []string
	var cs map[metricdata.LabelKey]metricdata.LabelValue
	keys := func() metric.Options {
		ks = append(make([]metricdata.LabelKey, 0, 5), l, k)
		return metric.WithLabelKeysAndDescription(ks...)
	}
	texts := func() metric.Options {
		ts = append(make([]string, 0, 5), "l")
		return metric.WithLabelKeys(ts...)
	}
	con := func(i int) metric.Options {
		cs = map[metricdata.LabelKey]metricdata.LabelValue{}
		for k, v := range constLabels[i] {
			cs[k] = v
		}
		return metric.WithConstLabel(cs)
	}
	spoil := func() {
		for i := range ks {
			ks[i] = metricdata.LabelKey{Key: "spoilt", Description: "d"}
		}
		for i := range ts {
			ts[i] = "spoilt"
		}
		for k := range cs {
			cs[k] = metricdata.NewLabelValue("spoilt")
		}
		if cs != nil {
			cs[metricdata.LabelKey{Key: "added"}] = metricdata.NewLabelValue("spoilt")
		}
	}
	out := []regOpt{
		{o: func() []metric.Options { return nil }},
		{o: func() []metric.Options {
			return []metric.Options{metric.WithDescription("some text"), texts(), metric.WithUnit(metricdata.UnitBytes)}
		}, desc: "some text", unit: "By", keys: []metricdata.LabelKey{l}, spoil: spoil},
		{o: func() []metric.Options { return []metric.Options{keys()} }, keys: []metricdata.LabelKey{l, k}, spoil: spoil},
	}
	for i := 1; i < len(constLabels); i++ {
		i := i
		out = append(out, regOpt{o: func() []metric.Options { return []metric.Options{con(i)} }, cl: constLabels[i], spoil: spoil},
			regOpt{o: func() []metric.Options {
				return []metric.Options{con(i), keys(), metric.WithUnit(metricdata.UnitMilliseconds)}
			}, cl: constLabels[i], keys: []metricdata.LabelKey{l, k}, unit: "ms", spoil: spoil},
			regOpt{o: func() []metric.Options {
				return []metric.Options{con(i), texts()}
			}, cl: constLabels[i], keys: []metricdata.LabelKey{l}, spoil: spoil})
	}
	return out
}

// add adds a metric to both and compares.
func (g *regModel) add(r *metric.Registry, k mkind, name string, o regOpt) string {
	old := g.ms[name]
	opts := o.o()
	h, err := addMetric(r, k, name, opts...)
	if o.spoil != nil {
		o.spoil()
	}
	if old != nil && old.k != k {
		if err == nil {
			return fmt.Sprintf("adding %s as %v succeeds though it exists as %v", name, k, old.k)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("adding %s as %v: %v", name, k, err)
	}
	g.ms[name] = &rmetric{k: k, desc: o.desc, unit: o.unit, cl: o.cl, keys: o.keys, start: vsched.Now(), es: map[string]*float64{}, h: h, entries: map[string]mentry{}}
	return ""
}

// update gets or replaces an entry and changes it.
func (m *rmetric) update(lv []metricdata.LabelValue, op string, v float64) string {
	in := append(make([]metricdata.LabelValue, 0, len(lv)+3), lv...)
	defer func() { // the caller may do with its labels what it likes
		in = in[:cap(in)]
		for i := range in {
			in[i] = metricdata.NewLabelValue("spoilt")
		}
	}()
	l := m.labels(lv)
	ok := len(lv) == len(m.keys)
	if m.k.derived() {
		x := new(float64)
		*x = v
		if op == "nil" {
			if err := m.h.upsert(nil, in...); err == nil {
				return "an entry without a function was accepted"
			}
			return ""
		}
		err := m.h.upsert(func() float64 { return *x }, in...)
		if ok != (err == nil) {
			return fmt.Sprintf("upsert with %d of %d labels: %v", len(lv), len(m.keys), err)
		}
		if ok {
			m.es[l] = x
		}
		return ""
	}
	e, err := m.h.entry(in...)
	if ok != (err == nil) {
		return fmt.Sprintf("entry with %d of %d labels: %v", len(lv), len(m.keys), err)
	}
	if !ok {
		return ""
	}
	if p, have := m.entries[l]; have && p.p != e.p {
		return "another entry for the same labels " + l
	} else if !have {
		for o, p := range m.entries {
			if p.p == e.p {
				return fmt.Sprintf("the same entry for labels %s and %s", o, l)
			}
		}
		m.entries[l] = e
		m.es[l] = new(float64)
	}
	x := m.es[l]
	switch {
	case op == "set" && e.set != nil:
		e.set(v)
		*x = v
	case op == "nil":
	default:
		e.add(v)
		if v > 0 || !m.k.cumulative() {
			*x += v
		}
	}
	return ""
}

func init() {
	long := strings.Repeat("v", 300)
	texts := []metricdata.LabelValue{{}, metricdata.NewLabelValue(""), metricdata.NewLabelValue("a"), metricdata.NewLabelValue("\x01\x01"), metricdata.NewLabelValue("a\x00"), metricdata.NewLabelValue(long[:254]), metricdata.NewLabelValue(long[:255]), metricdata.NewLabelValue(long[:256]), {Value: "a"}}
	// one metric of every kind and configuration; all sequences of updates
	vh.Add(&vh.Task{Prop: "C25", Name: "updates", Shards: [2]int{8, 8}, Weight: 4, Seq: func(s *vh.S) {
		type upd struct {
			l  int
			op string
			v  float64
		}
		us := []upd{{0, "set", 3}, {0, "add", 2}, {1, "add", -4}, {1, "set", 7}, {2, "add", 0}, {3, "set", -5}, {3, "add", 2.5}, {4, "set", 1}, {0, "nil", 0}, {1, "late", 9}}
		for k := kGI; k <= kDCF; k++ {
			for oi, o := range regOpts() {
				var lss [][]metricdata.LabelValue
				switch len(o.keys) {
				case 0:
					lss = [][]metricdata.LabelValue{{}, {}, lvs("x"), lvs("x"), lvs("x", "y")}
				case 1:
					lss = [][]metricdata.LabelValue{lvs("a"), lvs("-"), {}, lvs(""), lvs("a", "b")}
				default:
					lss = [][]metricdata.LabelValue{lvs("a", "b"), lvs("-", "ab"), lvs("a"), lvs("ab", "-"), lvs("a", "b", "c")}
				}
				s.Seqs(len(us), s.Pick(3, 4), func(seq []int) {
					cas := fmt.Sprintf("%v options %d", k, oi)
					for _, i := range seq {
						cas += fmt.Sprintf(" %v", us[i])
					}
					s.Exec(cas, func() {
						vsched.Reinit()
						r := metric.NewRegistry()
						g := &regModel{ms: map[string]*rmetric{}}
						vsched.AdvanceQuiet(5)
						if d := g.add(r, k, "m", o); d != "" {
							s.Failf(cas, "%s", d)
							return
						}
						m := g.ms["m"]
						for n, i := range seq {
							vsched.AdvanceQuiet(7)
							u := us[i]
							if u.op == "late" { // the value of the function changes later
								for l, x := range m.es {
									if k.derived() {
										*x += 1
									}
									_ = l
								}
							} else {
								v := u.v
								if !k.isFloat() {
									v = float64(int64(v))
								}
								if d := m.update(lss[u.l], u.op, v); d != "" {
									s.Failf(cas, "step %d: %s", n, d)
								}
							}
							if w, got := g.render(), regRender(r); w != got {
								s.Failf(cas, "step %d: read %s\nwant %s", n, got, w)
							}
						}
						s.Outcome("%v", m.render())
					})
					s.Case(len(seq))
					s.Sample("%s", cas)
				})
			}
		}
	}})
	// every pair and triple of label tuples over adversarial texts is kept apart and read back
	vh.Add(&vh.Task{Prop: "C25", Name: "labels", Shards: [2]int{8, 8}, Weight: 3, Seq: func(s *vh.S) {
		for _, k := range []mkind{kGI, kCF, kDGF, kDCI} {
			for oi, o := range regOpts() {
				nk := len(o.keys)
				if nk == 0 {
					continue
				}
				var tuples [][]metricdata.LabelValue
				for i := range texts {
					if nk == 1 {
						tuples = append(tuples, texts[i:i+1])
						continue
					}
					for j := range texts {
						tuples = append(tuples, []metricdata.LabelValue{texts[i], texts[j]})
					}
				}
				s.Seqs(len(tuples), 2, func(seq []int) {
					cas := fmt.Sprintf("%v options %d", k, oi)
					for _, i := range seq {
						cas += fmt.Sprintf(" (%s)", lvStr(tuples[i]))
					}
					s.Exec(cas, func() {
						vsched.Reinit()
						r := metric.NewRegistry()
						g := &regModel{ms: map[string]*rmetric{}}
						if d := g.add(r, k, "m", o); d != "" {
							s.Failf(cas, "%s", d)
						}
						for n, i := range seq {
							if d := g.ms["m"].update(tuples[i], "add", float64(n+1)); d != "" {
								s.Failf(cas, "%s", d)
							}
						}
						if w, got := g.render(), regRender(r); w != got {
							s.Failf(cas, "read %.800s\nwant %.800s", got, w)
						}
						s.Outcome("%d series", len(g.ms["m"].es))
					})
					s.Case(2)
				})
			}
		}
		// every length around the sizes of length prefixes
		for n := 0; n < s.Pick(700, 70000); n++ {
			for _, two := range []bool{false, true} {
				if n > 700 && n%127 > 2 || !s.Mine() || s.Stop() {
					continue
				}
				cas := fmt.Sprintf("value of %d bytes, two %v", n, two)
				s.Guard(cas, func() {
					r := metric.NewRegistry()
					v := strings.Repeat("x", n)
					m, _ := r.AddInt64Gauge("m", metric.WithLabelKeys("a", "b"))
					e, err := m.GetEntry(metricdata.NewLabelValue(v), metricdata.NewLabelValue("z"))
					if err != nil {
						s.Failf(cas, "%v", err)
						return
					}
					e.Set(1)
					if two {
						e, _ = m.GetEntry(metricdata.NewLabelValue(v+"y"), metricdata.NewLabelValue("z"))
						e.Set(2)
					}
					seen := 0
					for _, t := range r.Read()[0].TimeSeries {
						x := t.LabelValues[0].Value
						if t.LabelValues[1].Value != "z" || x != v && (x != v+"y" || !two) {
							s.Failf(cas, "read a series with labels %.40s(%d) %s", x, len(x), t.LabelValues[1].Value)
						}
						seen++
					}
					if seen != 1 && !two || two && seen != 2 {
						s.Failf(cas, "%d series", seen)
					}
				})
				s.Case(1)
			}
		}
		s.Outcome("lengths")
	}})
	// several metrics: additions, repeated and conflicting ones, interleaved with updates
	vh.Add(&vh.Task{Prop: "C25", Name: "metrics", Shards: [2]int{8, 8}, Weight: 3, Seq: func(s *vh.S) {
		opts := regOpts()
		type op struct {
			name string
			k    mkind
			o    int
			v    float64
		}
		var ops []op
		for _, k := range []mkind{kGI, kGF, kCI, kDCF, kDGI} {
			for _, o := range []int{0, 1} {
				ops = append(ops, op{"m", k, o, 0})
			}
		}
		for k := kGI; k <= kDCF; k++ {
			if k != kGI {
				ops = append(ops, op{"n", k, 3, 0})
			}
		}
		ops = append(ops, op{"M", kGI, 0, 0}, op{"", kGI, 0, 0}, op{"m", -1, 0, 2}, op{"n", -1, 0, 3}, op{"old m", -1, 0, 5})
		s.Seqs(len(ops), s.Pick(3, 4), func(seq []int) {
			cas := ""
			for _, i := range seq {
				cas += fmt.Sprintf("%v; ", ops[i])
			}
			s.Exec(cas, func() {
				vsched.Reinit()
				r, other := metric.NewRegistry(), metric.NewRegistry()
				g := &regModel{ms: map[string]*rmetric{}}
				var old *rmetric
				for n, i := range seq {
					vsched.AdvanceQuiet(3)
					o := ops[i]
					if o.k >= 0 {
						if o.name == "m" {
							if m := g.ms["m"]; m != nil && m.k == o.k {
								old = m
							}
						}
						if d := g.add(r, o.k, o.name, opts[o.o]); d != "" {
							s.Failf(cas, "step %d: %s", n, d)
						}
					} else {
						m := g.ms[o.name]
						if o.name == "old m" {
							m = old // a metric that was replaced takes updates without effect
						}
						if m != nil {
							lv := lvs("a", "b")[:len(m.keys)]
							if d := m.update(lv, "add", o.v); d != "" {
								s.Failf(cas, "step %d: %s", n, d)
							}
						}
					}
					if w, got := g.render(), regRender(r); w != got {
						s.Failf(cas, "step %d: read %s\nwant %s", n, got, w)
					}
					if got := regRender(other); got != "" {
						s.Failf(cas, "step %d: the other registry reads %s", n, got)
					}
				}
				s.Outcome("%s", g.render())
			})
			s.Case(len(seq))
			s.Sample("%s", cas)
		})
	}})
	// numeric extremes of each kind
	vh.Add(&vh.Task{Prop: "C25", Name: "values", Seq: func(s *vh.S) {
		vals := []float64{0, 1, -1, 0.1, 1 << 52, -(1 << 52), 1e300, math.Inf(1), math.SmallestNonzeroFloat64, 1e-300}
		for k := kGI; k <= kDCF; k++ {
			s.Seqs(len(vals)*2, 3, func(seq []int) {
				cas := fmt.Sprint(k)
				for _, i := range seq {
					cas += fmt.Sprintf(" %s %v", []string{"add", "set"}[i%2], vals[i/2])
				}
				s.Exec(cas, func() {
					vsched.Reinit()
					r := metric.NewRegistry()
					g := &regModel{ms: map[string]*rmetric{}}
					if d := g.add(r, k, "m", regOpt{o: func() []metric.Options { return nil }}); d != "" {
						s.Failf(cas, "%s", d)
					}
					for n, i := range seq {
						v := vals[i/2]
						if !k.isFloat() {
							if math.Abs(v) > 1e12 {
								v = 1 << 40
							}
							v = float64(int64(v))
						}
						if d := g.ms["m"].update(nil, []string{"add", "set"}[i%2], v); d != "" {
							s.Failf(cas, "%s", d)
						}
						if w, got := g.render(), regRender(r); w != got {
							s.Failf(cas, "step %d: read %s\nwant %s", n, got, w)
						}
					}
				})
				s.Outcome("%s", k)
				s.Case(3)
			})
		}
	}})
}
