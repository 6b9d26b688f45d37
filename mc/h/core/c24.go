package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/metric"
	"go.opencensus.io/metric/metricdata"
)

// mkind is one of the eight kinds of metrics of a registry.
type mkind int

const (
	kGI mkind = iota
	kGF
	kCI
	kCF
	kDGI
	kDGF
	kDCI
	kDCF
)

func (k mkind) String() string {
	return []string{"int gauge", "float gauge", "int cumulative", "float cumulative", "derived int gauge", "derived float gauge", "derived int cumulative", "derived float cumulative"}[k]
}
func (k mkind) derived() bool    { return k >= kDGI }
func (k mkind) isFloat() bool    { return k&1 == 1 }
func (k mkind) cumulative() bool { return k&2 == 2 }
func (k mkind) typ() metricdata.Type {
	switch {
	case k.cumulative() && k.isFloat():
		return metricdata.TypeCumulativeFloat64
	case k.cumulative():
		return metricdata.TypeCumulativeInt64
	case k.isFloat():
		return metricdata.TypeGaugeFloat64
	}
	return metricdata.TypeGaugeInt64
}

// mmetric is a handle on a metric of any kind.
type mmetric struct {
	k mkind
	h interface{}
}

func addMetric(r *metric.Registry, k mkind, name string, o ...metric.Options) (mmetric, error) {
	var h interface{}
	var err error
	isNil := false
	switch k {
	case kGI:
		x, e := r.AddInt64Gauge(name, o...)
		h, err, isNil = x, e, x == nil
	case kGF:
		x, e := r.AddFloat64Gauge(name, o...)
		h, err, isNil = x, e, x == nil
	case kCI:
		x, e := r.AddInt64Cumulative(name, o...)
		h, err, isNil = x, e, x == nil
	case kCF:
		x, e := r.AddFloat64Cumulative(name, o...)
		h, err, isNil = x, e, x == nil
	case kDGI:
		x, e := r.AddInt64DerivedGauge(name, o...)
		h, err, isNil = x, e, x == nil
	case kDGF:
		x, e := r.AddFloat64DerivedGauge(name, o...)
		h, err, isNil = x, e, x == nil
	case kDCI:
		x, e := r.AddInt64DerivedCumulative(name, o...)
		h, err, isNil = x, e, x == nil
	case kDCF:
		x, e := r.AddFloat64DerivedCumulative(name, o...)
		h, err, isNil = x, e, x == nil
	}
	if isNil != (err != nil) {
		panic(fmt.Sprintf("adding a %v: nil %v but error %v", k, isNil, err))
	}
	return mmetric{k, h}, err
}

// mentry is a handle on an entry of a plain metric.
type mentry struct {
	p   interface{} // identity
	add func(float64)
	set func(float64) // nil for cumulatives
}

func (m mmetric) entry(lv ...metricdata.LabelValue) (e mentry, err error) {
	switch x := m.h.(type) {
	case *metric.Int64Gauge:
		p, er := x.GetEntry(lv...)
		e, err = mentry{p, func(v float64) { p.Add(int64(v)) }, func(v float64) { p.Set(int64(v)) }}, er
	case *metric.Float64Gauge:
		p, er := x.GetEntry(lv...)
		e, err = mentry{p, func(v float64) { p.Add(v) }, func(v float64) { p.Set(v) }}, er
	case *metric.Int64Cumulative:
		p, er := x.GetEntry(lv...)
		e, err = mentry{p, func(v float64) { p.Inc(int64(v)) }, nil}, er
	case *metric.Float64Cumulative:
		p, er := x.GetEntry(lv...)
		e, err = mentry{p, func(v float64) { p.Inc(v) }, nil}, er
	default:
		panic("derived")
	}
	return
}

func (m mmetric) upsert(f func() float64, lv ...metricdata.LabelValue) error {
	var fi func() int64
	if f != nil {
		fi = func() int64 { return int64(f()) }
	}
	switch x := m.h.(type) {
	case *metric.Int64DerivedGauge:
		return x.UpsertEntry(fi, lv...)
	case *metric.Float64DerivedGauge:
		return x.UpsertEntry(f, lv...)
	case *metric.Int64DerivedCumulative:
		return x.UpsertEntry(fi, lv...)
	case *metric.Float64DerivedCumulative:
		return x.UpsertEntry(f, lv...)
	}
	panic("not derived")
}

func lvStr(lv []metricdata.LabelValue) string {
	var sb strings.Builder
	for _, v := range lv {
		if v.Present {
			x := v.Value
			if len(x) > 20 {
				x = fmt.Sprintf("%s..%s(%d)", x[:4], x[len(x)-4:], len(x))
			}
			fmt.Fprintf(&sb, "%q ", x)
		} else if v.Value != "" {
			fmt.Fprintf(&sb, "absent!%q ", v.Value)
		} else {
			sb.WriteString("- ")
		}
	}
	return strings.TrimSpace(sb.String())
}

func ptStr(p metricdata.Point) string {
	visit(p)
	switch p.Value.(type) {
	case int64:
		return fmt.Sprintf("int %v", p.Value)
	case float64:
		return fmt.Sprintf("float %v", p.Value)
	}
	return fmt.Sprintf("%T %v", p.Value, p.Value)
}

// readReg renders what a registry reads, metrics and series sorted.
func readReg(r *metric.Registry, full bool) string {
	now := time.Unix(0, vsched.Now())
	var out []string
	for _, m := range r.Read() {
		d := m.Descriptor
		x := fmt.Sprintf("%s type=%v", d.Name, d.Type)
		if full {
			x += fmt.Sprintf(" desc=%q unit=%q keys=%v", d.Description, d.Unit, d.LabelKeys)
			if m.Resource != nil {
				x += " resource"
			}
		}
		var ts []string
		for _, t := range m.TimeSeries {
			y := "[" + lvStr(t.LabelValues) + "]="
			for _, p := range t.Points {
				y += ptStr(p)
				if full && !p.Time.Equal(now) {
					y += fmt.Sprintf(" at %v not %v", p.Time, now)
				}
			}
			if full && (d.Type == metricdata.TypeCumulativeInt64 || d.Type == metricdata.TypeCumulativeFloat64) {
				y += fmt.Sprintf(" since %d", t.StartTime.UnixNano())
			}
			ts = append(ts, y)
		}
		sort.Strings(ts)
		out = append(out, x+" "+strings.Join(ts, "; "))
	}
	sort.Strings(out)
	return strings.Join(out, " | ")
}

// oneVal returns the values of a registry's single metric by label text.
func vals(r *metric.Registry) map[string]float64 {
	out := map[string]float64{}
	for _, m := range r.Read() {
		for _, t := range m.TimeSeries {
			k := m.Descriptor.Name + " " + lvStr(t.LabelValues)
			if _, dup := out[k]; dup {
				vsched.Failf("two series for %s", k)
			}
			if len(t.Points) != 1 {
				vsched.Failf("%d points for %s", len(t.Points), k)
			}
			switch v := t.Points[0].Value.(type) {
			case int64:
				out[k] = float64(v)
			case float64:
				out[k] = v
			}
		}
	}
	return out
}

func lvs(x ...string) (l []metricdata.LabelValue) {
	for _, v := range x {
		if v == "-" {
			l = append(l, metricdata.LabelValue{})
		} else {
			l = append(l, metricdata.NewLabelValue(v))
		}
	}
	return
}

var constLabels = []map[metricdata.LabelKey]metricdata.LabelValue{
	nil,
	{{Key: "c1"}: metricdata.NewLabelValue("C1")},
	{{Key: "c2"}: metricdata.LabelValue{}, {Key: "c1", Description: "d"}: metricdata.NewLabelValue("C1")},
	{{Key: "c2"}: metricdata.NewLabelValue(""), {Key: "c1", Description: "d"}: metricdata.NewLabelValue("C1"), {Key: "c3"}: metricdata.NewLabelValue("C3")},
	{{Key: "c1", Description: "z"}: metricdata.LabelValue{}, {Key: "c2", Description: "a"}: metricdata.NewLabelValue("C2"), {Key: "c3"}: metricdata.LabelValue{}, {Key: "c4", Description: "b"}: metricdata.NewLabelValue("")},
}

type gval struct {
	v   float64
	cum bool
}

func init() {
	// additions: each increment is a distinct power of two, so a value shows which ones it includes
	vh.Add(&vh.Task{Prop: "C24", Name: "additions", Race: true, Bound: [2]int{3, 6}, Shards: [2]int{8, 8}, Body: func() {
		vsched.Reinit()
		k := mkind(vsched.Choose(4, "kind"))
		r := metric.NewRegistry()
		m, err := addMetric(r, k, "m", metric.WithLabelKeys("l"))
		if err != nil {
			vsched.Failf("%v", err)
		}
		e, err := m.entry(lvs("a")...)
		if err != nil {
			vsched.Failf("%v", err)
		}
		vsched.Explore(true)
		type iv struct{ from, to int64 }
		adds := make([][]iv, 2)
		var gs []*vsched.G
		for t := 0; t < 2; t++ {
			t := t
			gs = append(gs, vsched.Thread(fmt.Sprint("add", t), func() {
				for j := 0; j < 2; j++ {
					t0 := vsched.Stamp()
					e.add(float64(int(1) << uint(2*j+t)))
					adds[t] = append(adds[t], iv{t0, vsched.Stamp()})
				}
			}))
		}
		var reads []iv
		var got []map[string]float64
		gs = append(gs, vsched.Thread("read", func() {
			for j := 0; j < 2; j++ {
				t0 := vsched.Stamp()
				got = append(got, vals(r))
				reads = append(reads, iv{t0, vsched.Stamp()})
			}
		}))
		vsched.Join(gs...)
		vsched.Explore(false)
		last := 0
		for i, g := range got {
			v, ok := g[`m "a"`]
			if !ok || len(g) != 1 {
				vsched.Failf("read %v", g)
			}
			for t := range adds {
				for j, a := range adds[t] {
					in := int(v)>>uint(2*j+t)&1 == 1
					if a.to < reads[i].from && !in || a.from > reads[i].to && in {
						vsched.Failf("%v: read %d gave %v: addition %d of thread %d included: %v", k, i, v, j, t, in)
					}
				}
			}
			if int(v)&last != last {
				vsched.Failf("%v: value went from %d to %v", k, last, v)
			}
			last = int(v)
		}
		if v := vals(r)[`m "a"`]; v != 15 {
			vsched.Failf("%v: final value %v, want 15", k, v)
		}
		vsched.Outcome("%v", got)
	}})
	// sets and additions of gauges, additions of positive and negative amounts of cumulatives, are linearizable
	vh.Add(&vh.Task{Prop: "C24", Name: "linearizable", Race: true, Bound: [2]int{2, 5}, Shards: [2]int{8, 8}, Body: func() {
		vsched.Reinit()
		k := mkind(vsched.Choose(4, "kind"))
		r := metric.NewRegistry()
		m, _ := addMetric(r, k, "m")
		e, err := m.entry()
		if err != nil {
			vsched.Failf("%v", err)
		}
		var progs [][]string
		if k.cumulative() {
			progs = [][]string{{"add 4", "add -2"}, {"add 0", "add 1"}, {"add -8", "read"}}
		} else {
			progs = [][]string{{"set 10", "add 1"}, {"add 2", "set 7"}, {"add -30", "read"}, {"read", "read"}}
		}
		i := vsched.Choose(len(progs), "program 1")
		j := vsched.Choose(i+1, "program 2")
		hs := []*vh.Hist[*gval]{{Thread: 0}, {Thread: 1}, {Thread: 2}}
		run := func(h *vh.Hist[*gval], op string) {
			var v float64
			fmt.Sscanf(op[strings.Index(op, " ")+1:], "%g", &v)
			h.Do(op, func() (string, func(*gval) bool) {
				switch op[:3] {
				case "set":
					e.set(v)
					return "", func(g *gval) bool { g.v = v; return true }
				case "add":
					e.add(v)
					return "", func(g *gval) bool {
						if v > 0 || !g.cum {
							g.v += v
						}
						return true
					}
				}
				w := vals(r)["m "]
				return fmt.Sprint("=", w), func(g *gval) bool { return w == g.v || w == 0 && g.v < 0 }
			})
		}
		vsched.Explore(true)
		var gs []*vsched.G
		for t, p := range [][]string{progs[i], progs[j], {"add 100"}} {
			t, p := t, p
			gs = append(gs, vsched.Thread(fmt.Sprint("t", t), func() {
				for _, op := range p {
					run(hs[t], op)
				}
			}))
		}
		vsched.Join(gs...)
		vsched.Explore(false)
		end := &vh.Hist[*gval]{Thread: 3}
		run(end, "read")
		if !vh.Linearizable(&gval{cum: k.cumulative()}, func(g *gval) *gval { c := *g; return &c }, nil, hs[0], hs[1], hs[2], end) {
			vsched.Failf("%v: not linearizable: %s", k, vh.HistString(append(hs, end)...))
		}
		vsched.Outcome("%v %d %d %s", k, i, j, end.Ops[0].Name)
	}})
	// concurrent creation of entries of the same and of different label values
	vh.Add(&vh.Task{Prop: "C24", Name: "entries", Race: true, Bound: [2]int{2, 4}, Shards: [2]int{8, 8}, Body: func() {
		vsched.Reinit()
		k := mkind(vsched.Choose(4, "kind"))
		cl := vsched.Choose(2, "constant labels")
		cls := map[metricdata.LabelKey]metricdata.LabelValue{}
		pre := "m "
		if cl == 1 { // five: a slice that grew to five has room for three more
			for i := 1; i <= 5; i++ {
				cls[metricdata.LabelKey{Key: fmt.Sprint("c", i)}] = metricdata.NewLabelValue(fmt.Sprint("C", i))
				pre += fmt.Sprintf("\"C%d\" ", i)
			}
		}
		r := metric.NewRegistry()
		m, err := addMetric(r, k, "m", metric.WithConstLabel(cls), metric.WithLabelKeys("l", "k"))
		if err != nil {
			vsched.Failf("%v", err)
		}
		vsched.Explore(true)
		want := [][]string{{"a", "x"}, {"a", "x"}, {"-", "y"}}
		es := make([][]mentry, 3)
		var gs []*vsched.G
		seen := []map[string]float64{}
		for t := range want {
			t := t
			gs = append(gs, vsched.Thread(fmt.Sprint("t", t), func() {
				for j := 0; j < 2; j++ {
					e, err := m.entry(lvs(want[t]...)...)
					if err != nil {
						vsched.Failf("%v", err)
					}
					e.add(1)
					es[t] = append(es[t], e)
					if t == 2 && j == 0 {
						seen = append(seen, vals(r))
					}
				}
			}))
		}
		vsched.Join(gs...)
		vsched.Explore(false)
		if es[0][0].p != es[0][1].p || es[0][0].p != es[1][0].p || es[0][0].p != es[1][1].p || es[2][0].p != es[2][1].p || es[0][0].p == es[2][0].p {
			vsched.Failf("%v: entries of the same labels differ or of different ones are the same", k)
		}
		for _, g := range seen {
			for l, v := range g {
				if l == pre+`- "y"` && v == 1 || l == pre+`"a" "x"` && v >= 0 && v <= 4 {
					continue
				}
				vsched.Failf("%v: read %q = %v", k, l, v)
			}
			if g[pre+`- "y"`] != 1 {
				vsched.Failf("%v: own entry missing: %v", k, g)
			}
		}
		g := vals(r)
		if len(g) != 2 || g[pre+`"a" "x"`] != 4 || g[pre+`- "y"`] != 2 {
			vsched.Failf("%v: finally %v", k, g)
		}
		vsched.Outcome("%v %v", seen, g)
	}})
	// replacing the function of derived metrics while reading and while others do
	vh.Add(&vh.Task{Prop: "C24", Name: "derived", Race: true, Bound: [2]int{3, 99}, Shards: [2]int{8, 8}, Body: func() {
		vsched.Reinit()
		k := kDGI + mkind(vsched.Choose(4, "kind"))
		cl := vsched.Choose(2, "constant labels") * 3
		r := metric.NewRegistry()
		m, err := addMetric(r, k, "m", metric.WithConstLabel(constLabels[cl]), metric.WithLabelKeys("l"))
		if err != nil {
			vsched.Failf("%v", err)
		}
		pre := "m " + []string{"", "", "", `"C1" "" "C3" `}[cl]
		ups := func(l string, v float64) {
			if err := m.upsert(func() float64 { return v }, lvs(l)...); err != nil {
				vsched.Failf("%v", err)
			}
		}
		ups("a", 1)
		vsched.Explore(true)
		hs := []*vh.Hist[map[string]float64]{{Thread: 0}, {Thread: 1}, {Thread: 2}}
		up := func(h *vh.Hist[map[string]float64], l string, v float64) {
			h.Do(fmt.Sprint("upsert ", l, v), func() (string, func(map[string]float64) bool) {
				ups(l, v)
				return "", func(mm map[string]float64) bool { mm[pre+fmt.Sprintf("%q", l)] = v; return true }
			})
		}
		var reads []map[string]float64
		var gs []*vsched.G
		gs = append(gs, vsched.Thread("up0", func() { up(hs[0], "a", 2); up(hs[0], "b", 3) }))
		gs = append(gs, vsched.Thread("up1", func() { up(hs[1], "b", 4); up(hs[1], "a", 5) }))
		gs = append(gs, vsched.Thread("read", func() {
			for i := 0; i < 2; i++ {
				g := vals(r)
				reads = append(reads, g)
			}
		}))
		vsched.Join(gs...)
		vsched.Explore(false)
		hadB := false
		for _, g := range reads {
			a, ok := g[pre+`"a"`]
			b, okb := g[pre+`"b"`]
			if !ok || a != 1 && a != 2 && a != 5 {
				vsched.Failf("%v: read %v", k, g)
			}
			if okb && b != 3 && b != 4 || hadB && !okb {
				vsched.Failf("%v: read %v", k, reads)
			}
			hadB = okb
		}
		end := &vh.Hist[map[string]float64]{Thread: 3}
		end.Do("read", func() (string, func(map[string]float64) bool) {
			g := vals(r)
			return fmt.Sprint(g), func(mm map[string]float64) bool { return fmt.Sprint(g) == fmt.Sprint(mm) }
		})
		if !vh.Linearizable(map[string]float64{pre + `"a"`: 1}, func(g map[string]float64) map[string]float64 {
			c := map[string]float64{}
			for k, v := range g {
				c[k] = v
			}
			return c
		}, nil, hs[0], hs[1], end) {
			vsched.Failf("%v: not linearizable: %s", k, vh.HistString(append(hs, end)...))
		}
		vsched.Outcome("%v %s", reads, end.Ops[0].Name)
	}})
	// functions of derived metrics that use metrics themselves
	vh.Add(&vh.Task{Prop: "C24", Name: "nested-functions", Race: true, Bound: [2]int{3, 99}, Shards: [2]int{4, 8}, Body: func() {
		vsched.Reinit()
		k := kDGI + mkind(vsched.Choose(4, "kind"))
		k2 := kDGI + mkind(vsched.Choose(4, "inner kind"))
		way := vsched.Choose(3, "what the function does")
		r, r2 := metric.NewRegistry(), metric.NewRegistry()
		m, err := addMetric(r, k, "m", metric.WithLabelKeys("l"))
		in, err2 := addMetric(r2, k2, "in", metric.WithLabelKeys("l"))
		g, err3 := r.AddInt64Gauge("plain", metric.WithLabelKeys("l"))
		if err != nil || err2 != nil || err3 != nil {
			vsched.Failf("%v %v %v", err, err2, err3)
		}
		if err := in.upsert(func() float64 { return 3 }, lvs("i")...); err != nil {
			vsched.Failf("%v", err)
		}
		f := func() float64 {
			switch way {
			case 0: // another registry's derived metric
				return vals(r2)[`in "i"`] + 1
			case 1: // another metric of its registry
				e, err := g.GetEntry(lvs("x")...)
				if err != nil {
					vsched.Failf("%v", err)
				}
				e.Set(7)
			case 2: // the functions of another metric
				if err := in.upsert(func() float64 { return 5 }, lvs("j")...); err != nil {
					vsched.Failf("%v", err)
				}
			}
			return 4
		}
		if err := m.upsert(f, lvs("a")...); err != nil {
			vsched.Failf("%v", err)
		}
		vsched.Explore(true)
		got := make([]map[string]float64, 2)
		t0 := vsched.Thread("read", func() { got[0] = vals(r) })
		t1 := vsched.Thread("read again", func() { got[1] = vals(r) })
		t2 := vsched.Thread("read inner", func() { vals(r2) })
		vsched.Join(t0, t1, t2)
		vsched.Explore(false)
		got = append(got, vals(r))
		for _, x := range got {
			if x[`m "a"`] != 4 {
				vsched.Failf("%v, %v: read %v", k, k2, x)
			}
		}
		if last := vals(r); way == 1 && last[`plain "x"`] != 7 || way == 2 && vals(r2)[`in "j"`] != 5 {
			vsched.Failf("%v, %v: read %v", k, k2, last)
		}
		vsched.Outcome("%v %v", way, got)
	}})
	// concurrent additions of metrics
	vh.Add(&vh.Task{Prop: "C24", Name: "metrics", Race: true, Bound: [2]int{2, 5}, Shards: [2]int{8, 8}, Body: func() {
		vsched.Reinit()
		k0 := []mkind{kGI, kCF, kDGF}[vsched.Choose(3, "kind 0")]
		k1 := []mkind{kGI, kCF, kDGF}[vsched.Choose(3, "kind 1")]
		r := metric.NewRegistry()
		vsched.Explore(true)
		var errs [2]error
		var ms [2]mmetric
		var gs []*vsched.G
		for t, k := range []mkind{k0, k1} {
			t, k := t, k
			gs = append(gs, vsched.Thread(fmt.Sprint("add", t), func() {
				ms[t], errs[t] = addMetric(r, k, "m")
				if errs[t] != nil {
					return
				}
				if k.derived() {
					errs[t] = ms[t].upsert(func() float64 { return float64(t + 1) })
				} else {
					var e mentry
					e, errs[t] = ms[t].entry()
					e.add(float64(t + 1))
				}
				if errs[t] != nil {
					vsched.Failf("%v: %v", k, errs[t])
				}
				if g := vals(r); len(g) > 1 || k0 != k1 && g["m "] != float64(t+1) {
					vsched.Failf("%v/%v: thread %d reads %v after adding", k0, k1, t, g)
				}
			}))
		}
		var o string
		gs = append(gs, vsched.Thread("other", func() {
			if _, err := addMetric(r, kGI, "other"); err != nil {
				vsched.Failf("%v", err)
			}
			o = readReg(r, false)
			if !strings.Contains(o, "other type=") {
				vsched.Failf("added metric not read: %s", o)
			}
		}))
		vsched.Join(gs...)
		vsched.Explore(false)
		ok := 0
		for _, e := range errs {
			if e == nil {
				ok++
			}
		}
		if k0 == k1 && ok != 2 || k0 != k1 && ok != 1 {
			vsched.Failf("%v/%v: added with %v", k0, k1, errs)
		}
		f := readReg(r, false)
		w := -1
		if k0 != k1 {
			w = 0
			if errs[0] != nil {
				w = 1
			}
		}
		found := false
		for t, k := range []mkind{k0, k1} {
			if (w == -1 || w == t) && strings.HasPrefix(f, fmt.Sprintf("m type=%v []=%s %d | other", k.typ(), map[bool]string{true: "float", false: "int"}[k.isFloat()], t+1)) {
				found = true
			}
		}
		if !found {
			vsched.Failf("%v/%v: %v: finally %s", k0, k1, errs, f)
		}
		vsched.Outcome("%v %s %s", errs, o, f)
	}})
}
