package main

import (
	"context"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
)

var bg = context.Background()

// ---- rendering of observed data ----

func rnd(x float64) string {
	if math.IsNaN(x) || math.IsInf(x, 0) {
		return fmt.Sprint(x)
	}
	if math.Abs(x) > 1e9 {
		return fmt.Sprintf("%.9e", x)
	}
	r := math.Round(x*1e6) / 1e6
	if r == 0 {
		r = 0 // drop the sign of zero
	}
	return fmt.Sprintf("%.6f", r+0)
}

func tm(t time.Time) string {
	if t.IsZero() {
		return "-"
	}
	return fmt.Sprint(t.UnixNano() - vsched.Epoch)
}

func attStr(a map[string]interface{}) string {
	ks := make([]string, 0, len(a))
	for k := range a {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("%s:%v,", k, a[k])
	}
	return s
}

func exStr(e *metricdata.Exemplar) string {
	if e == nil {
		return "."
	}
	return fmt.Sprintf("%s@%s{%s}", rnd(e.Value), tm(e.Timestamp), attStr(e.Attachments))
}

func dataStr(d view.AggregationData) string {
	switch d := d.(type) {
	case *view.CountData:
		return fmt.Sprintf("count=%d start=%s", d.Value, tm(d.Start))
	case *view.SumData:
		return fmt.Sprintf("sum=%s start=%s", rnd(d.Value), tm(d.Start))
	case *view.LastValueData:
		return fmt.Sprintf("last=%s", rnd(d.Value))
	case *view.DistributionData:
		var ex []string
		for _, e := range d.ExemplarsPerBucket {
			ex = append(ex, exStr(e))
		}
		return fmt.Sprintf("dist n=%d min=%s max=%s mean=%s sum=%s dev=%s b=%v ex=%v start=%s", d.Count, rnd(d.Min), rnd(d.Max), rnd(d.Mean), rnd(d.Sum()), rnd(d.SumOfSquaredDev), d.CountPerBucket, ex, tm(d.Start))
	}
	return fmt.Sprintf("%T", d)
}

func tagsStr(ts []tag.Tag) string {
	s := ""
	for _, t := range ts {
		s += fmt.Sprintf("%s=%q,", t.Key.Name(), t.Value)
	}
	return s
}

// rowsStr renders rows independent of their order.
func rowsStr(rows []*view.Row) string {
	ss := make([]string, 0, len(rows))
	for _, r := range rows {
		ss = append(ss, "{"+tagsStr(r.Tags)+"} "+dataStr(r.Data))
	}
	sort.Strings(ss)
	return strings.Join(ss, "; ")
}

// ---- reference model of one view ----

type sample struct {
	v   float64
	att map[string]interface{}
	t   int64 // virtual time
}

type vdef struct {
	name, desc string
	keys       []string // declared order
	m          string   // measure name
	agg        string   // count, sum, last, dist
	bounds     []float64
}

func (d *vdef) canonBounds() []float64 {
	b := append([]float64(nil), d.bounds...)
	sort.Float64s(b)
	for len(b) > 0 && b[0] <= 0 {
		b = b[1:]
	}
	return b
}

func relT(t int64) string { return fmt.Sprint(t - vsched.Epoch) }

// refData is the mathematical definition of the aggregate of a non-empty sample sequence.
func refData(d *vdef, ss []sample) string {
	switch d.agg {
	case "count":
		return fmt.Sprintf("count=%d start=%s", len(ss), relT(ss[0].t))
	case "sum":
		var x float64
		for _, s := range ss {
			x += s.v
		}
		return fmt.Sprintf("sum=%s start=%s", rnd(x), relT(ss[0].t))
	case "last":
		return fmt.Sprintf("last=%s", rnd(ss[len(ss)-1].v))
	}
	b := d.canonBounds()
	cnt := make([]int64, len(b)+1)
	ex := make([]string, len(b)+1)
	for i := range ex {
		ex[i] = "."
	}
	mn, mx, sum := math.Inf(1), math.Inf(-1), 0.0
	for _, s := range ss {
		mn, mx = math.Min(mn, s.v), math.Max(mx, s.v)
		sum += s.v
		i := 0
		for i < len(b) && s.v >= b[i] {
			i++
		}
		cnt[i]++
		if len(s.att) > 0 {
			ex[i] = fmt.Sprintf("%s@%s{%s}", rnd(s.v), relT(s.t), attStr(s.att))
		}
	}
	mean := sum / float64(len(ss))
	dev := 0.0
	for _, s := range ss {
		dev += (s.v - mean) * (s.v - mean)
	}
	return fmt.Sprintf("dist n=%d min=%s max=%s mean=%s sum=%s dev=%s b=%v ex=%v start=%s", len(ss), rnd(mn), rnd(mx), rnd(mean), rnd(sum), rnd(dev), cnt, ex, relT(ss[0].t))
}

// rec is one recorded measurement with the tags it was recorded under.
type rec struct {
	tags map[string]string
	sample
}

func tagSig(d *vdef, tags map[string]string) string {
	ks := append([]string(nil), d.keys...)
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		if v := tags[k]; v != "" {
			s += fmt.Sprintf("%s=%q,", k, v)
		}
	}
	return s
}

// refRows renders the rows the view must have for the given records.
func refRows(d *vdef, rs []rec) string {
	by := map[string][]sample{}
	for _, r := range rs {
		k := tagSig(d, r.tags)
		by[k] = append(by[k], r.sample)
	}
	ss := make([]string, 0, len(by))
	for k, v := range by {
		ss = append(ss, "{"+k+"} "+refData(d, v))
	}
	sort.Strings(ss)
	return strings.Join(ss, "; ")
}

func mkAgg(d *vdef) *view.Aggregation {
	switch d.agg {
	case "count":
		return view.Count()
	case "sum":
		return view.Sum()
	case "last":
		return view.LastValue()
	}
	return view.Distribution(append([]float64(nil), d.bounds...)...)
}

var keyCache = map[string]tag.Key{}

func key(name string) tag.Key { return tag.MustNewKey(name) }

func mkView(d *vdef, m stats.Measure) *view.View {
	v := &view.View{Name: d.name, Description: d.desc, Measure: m, Aggregation: mkAgg(d)}
	for _, k := range d.keys {
		v.TagKeys = append(v.TagKeys, key(k))
	}
	return v
}

func tagCtx(tags map[string]string) context.Context {
	ctx := bg
	ks := make([]string, 0, len(tags))
	for k := range tags {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c, err := tag.New(ctx, tag.Upsert(key(k), tags[k]))
		if err != nil {
			vsched.Harnessf("tag.New %s=%q: %v", k, tags[k], err)
		}
		ctx = c
	}
	return ctx
}

func recordOn(m view.Meter, ctx context.Context, ms ...stats.Measurement) {
	if err := stats.RecordWithOptions(ctx, stats.WithRecorder(m), stats.WithMeasurements(ms...)); err != nil {
		vsched.Failf("record: %v", err)
	}
}

func countOf(rows []*view.Row) (n int64) {
	for _, r := range rows {
		switch d := r.Data.(type) {
		case *view.CountData:
			n += d.Value
		case *view.DistributionData:
			n += d.Count
		case *view.SumData:
			n += int64(d.Value)
		}
	}
	return
}

func mustRetrieve(m view.Meter, name string) []*view.Row {
	rows, err := m.RetrieveData(name)
	if err != nil {
		vsched.Failf("retrieve %s: %v", name, err)
	}
	return rows
}

func mustRegister(m view.Meter, vs ...*view.View) {
	if err := m.Register(vs...); err != nil {
		vsched.Failf("register: %v", err)
	}
}

func producers() []metricproducer.Producer { return metricproducer.GlobalManager().GetAll() }

// readAll reads all producers.
func readAll() (ms []*metricdata.Metric) {
	for _, p := range producers() {
		ms = append(ms, p.Read()...)
	}
	return
}

// visited is what a visitor is given of a point.
type visited []interface{}

func (v *visited) VisitFloat64Value(x float64)                       { *v = append(*v, x) }
func (v *visited) VisitInt64Value(x int64)                           { *v = append(*v, x) }
func (v *visited) VisitDistributionValue(x *metricdata.Distribution) { *v = append(*v, x) }
func (v *visited) VisitSummaryValue(x *metricdata.Summary)           { *v = append(*v, x) }

// visit checks that a visitor is given the value of the point, once.
func visit(p metricdata.Point) {
	var v visited
	p.ReadValue(&v)
	if len(v) != 1 || v[0] != p.Value && v[0] == v[0] {
		vsched.Failf("a visitor of a point with value %T %v is given %v", p.Value, p.Value, v)
	}
}

func pointStr(p metricdata.Point) string {
	visit(p)
	switch v := p.Value.(type) {
	case int64:
		return fmt.Sprintf("int64 %d@%s", v, tm(p.Time))
	case float64:
		return fmt.Sprintf("float64 %s@%s", rnd(v), tm(p.Time))
	case *metricdata.Distribution:
		s := fmt.Sprintf("dist n=%d sum=%s dev=%s", v.Count, rnd(v.Sum), rnd(v.SumOfSquaredDeviation))
		if v.BucketOptions != nil {
			s += fmt.Sprintf(" bounds=%v", v.BucketOptions.Bounds)
		}
		for _, b := range v.Buckets {
			s += fmt.Sprintf(" %d:%s", b.Count, exStr(b.Exemplar))
		}
		return s + "@" + tm(p.Time)
	}
	return fmt.Sprintf("%T@%s", p.Value, tm(p.Time))
}

func metricStr(m *metricdata.Metric) string {
	s := fmt.Sprintf("%s|%s|%s|%v|%v|", m.Descriptor.Name, m.Descriptor.Description, m.Descriptor.Unit, m.Descriptor.Type, m.Descriptor.LabelKeys)
	if m.Resource != nil {
		s += fmt.Sprintf("%s%v|", m.Resource.Type, m.Resource.Labels)
	}
	var ts []string
	for _, t := range m.TimeSeries {
		x := fmt.Sprintf("%v start=%s", t.LabelValues, tm(t.StartTime))
		for _, p := range t.Points {
			x += " " + pointStr(p)
		}
		ts = append(ts, x)
	}
	sort.Strings(ts)
	return s + strings.Join(ts, "; ")
}

func metricsStr(ms []*metricdata.Metric) string {
	var ss []string
	for _, m := range ms {
		ss = append(ss, metricStr(m))
	}
	sort.Strings(ss)
	return strings.Join(ss, "\n")
}

func metricCount(ms []*metricdata.Metric, name string) (n int64) {
	for _, m := range ms {
		if m.Descriptor.Name != name {
			continue
		}
		for _, ts := range m.TimeSeries {
			for _, p := range ts.Points {
				switch v := p.Value.(type) {
				case int64:
					n += v
				case float64:
					n += int64(v)
				case *metricdata.Distribution:
					n += v.Count
				}
			}
		}
	}
	return
}
