// Command plug holds the harnesses for the HTTP and gRPC plugins and the diagnostic pages.
package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
)

func main() { vh.Main() }

var bg = context.Background()

// spanLog is an exporter that keeps what it was given.
type spanLog struct{ got []*trace.SpanData }

func (l *spanLog) ExportSpan(s *trace.SpanData) { l.got = append(l.got, s) }

// freeLog is an exporter for concurrent use that does not synchronise its callers.
type freeLog struct{}

func (freeLog) ExportSpan(s *trace.SpanData) { vsched.Log(s) }

func (freeLog) spans() (l []*trace.SpanData) {
	for _, v := range vsched.Logs() {
		if d, ok := v.(*trace.SpanData); ok {
			l = append(l, d)
		}
	}
	return
}

// stampIDs is a generator that is safe for concurrent use and does not synchronise its callers.
type stampIDs struct{}

func serial() uint64 {
	id, n := vsched.Serial()
	return uint64(id)<<32 | uint64(n)
}

func (stampIDs) NewTraceID() (t [16]byte) {
	binary.BigEndian.PutUint64(t[8:], serial())
	return
}
func (stampIDs) NewSpanID() (t [8]byte) {
	binary.BigEndian.PutUint64(t[:], serial())
	return
}

func tm(t time.Time) string {
	if t.IsZero() {
		return "-"
	}
	return fmt.Sprint(t.UnixNano() - vsched.Epoch)
}

func num(x float64) string {
	if math.IsNaN(x) || math.IsInf(x, 0) {
		return fmt.Sprint(x)
	}
	return fmt.Sprintf("%.6f", math.Round(x*1e6)/1e6+0)
}

func mapStr(m map[string]interface{}) string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%s=%T:%v,", k, m[k], m[k])
	}
	return sb.String()
}

// watcher observes everything recorded on some measures, by all given keys.
type watcher struct {
	names []string // view names, in the order of the measures
	short []string
}

func watch(keys []tag.Key, ms ...stats.Measure) *watcher {
	w := &watcher{}
	for _, m := range ms {
		v := &view.View{Name: "w/" + m.Name(), Measure: m, TagKeys: keys, Aggregation: view.Distribution()}
		if err := view.Register(v); err != nil {
			vsched.Failf("register %s: %v", v.Name, err)
		}
		w.names = append(w.names, v.Name)
		p := strings.Split(m.Name(), "/")
		w.short = append(w.short, p[len(p)-1])
	}
	return w
}

// mrow is one expected or observed row.
type mrow struct {
	tags string
	vs   []float64
}

func rowStr(tags string, n int64, mn, mx, sum float64) string {
	return fmt.Sprintf("{%s} n=%d min=%s max=%s sum=%s", tags, n, num(mn), num(mx), num(sum))
}

// rows renders what was recorded on the i-th measure.
func (w *watcher) rows(i int) string {
	rs, err := view.RetrieveData(w.names[i])
	if err != nil {
		vsched.Failf("retrieve %s: %v", w.names[i], err)
	}
	var ss []string
	for _, r := range rs {
		d := r.Data.(*view.DistributionData)
		kv := map[string]string{}
		for _, t := range r.Tags {
			kv[t.Key.Name()] = t.Value
		}
		ss = append(ss, rowStr(tagStr(kv), d.Count, d.Min, d.Max, d.Sum()))
	}
	sort.Strings(ss)
	return strings.Join(ss, "; ")
}

func tagStr(kv map[string]string) string {
	var ks []string
	for k, v := range kv {
		if v != "" {
			ks = append(ks, fmt.Sprintf("%s=%q", k, v))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func (w *watcher) all() string {
	s := ""
	for i := range w.names {
		s += fmt.Sprintf("%s: %s\n", w.short[i], w.rows(i))
	}
	return s
}

// expRows is the model of a watcher: measure -> tags -> values.
type expRows struct {
	w *watcher
	m map[string]map[string][]float64
}

func (w *watcher) model() *expRows { return &expRows{w, map[string]map[string][]float64{}} }

func (e *expRows) add(m stats.Measure, kv map[string]string, v float64) {
	n := "w/" + m.Name()
	if e.m[n] == nil {
		e.m[n] = map[string][]float64{}
	}
	t := tagStr(kv)
	e.m[n][t] = append(e.m[n][t], v)
}

func (e *expRows) all() string {
	s := ""
	for i, n := range e.w.names {
		var ss []string
		for t, vs := range e.m[n] {
			mn, mx, sum := math.Inf(1), math.Inf(-1), 0.0
			for _, v := range vs {
				mn, mx, sum = math.Min(mn, v), math.Max(mx, v), sum+v
			}
			ss = append(ss, rowStr(t, int64(len(vs)), mn, mx, sum))
		}
		sort.Strings(ss)
		s += fmt.Sprintf("%s: %s\n", e.w.short[i], strings.Join(ss, "; "))
	}
	return s
}

// diff reports the first differing line.
func diff(got, want string) string {
	if got == want {
		return ""
	}
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := range g {
		if i >= len(w) || g[i] != w[i] {
			x := ""
			if i < len(w) {
				x = w[i]
			}
			return fmt.Sprintf("got  %s\nwant %s", g[i], x)
		}
	}
	return fmt.Sprintf("got %q, want %q", got, want)
}

func merge(ms ...map[string]string) map[string]string {
	r := map[string]string{}
	for _, m := range ms {
		for k, v := range m {
			r[k] = v
		}
	}
	return r
}

const ms1 = int64(time.Millisecond)

// step is how far the clock moves: not a whole number of milliseconds.
const step = ms1 + ms1/8
