package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"go.opencensus.io/internal"
	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/trace"
)

type fullStore interface {
	localStore
	ReportSpansPerMethod() map[string]internal.PerMethodSummary
	ReportSpansByLatency(name string, minLatency, maxLatency time.Duration) []*trace.SpanData
}

// bounds of the latency buckets
var latB = []time.Duration{0, 10 * time.Microsecond, 100 * time.Microsecond, time.Millisecond, 10 * time.Millisecond, 100 * time.Millisecond, time.Second, 10 * time.Second, time.Minute, 1<<63 - 1}

type msample struct {
	id   trace.SpanID
	lat  time.Duration
	code int32
}

type mbucket struct {
	cap  int
	next int64
	list []msample // oldest first
}

func (b *mbucket) add(x msample) {
	if vsched.Now() < b.next || b.cap == 0 {
		return
	}
	b.next = vsched.Now() + int64(time.Second)
	b.list = append(b.list, x)
	b.resize(b.cap)
}

func (b *mbucket) resize(n int) {
	b.cap = n
	if len(b.list) > n {
		b.list = append([]msample(nil), b.list[len(b.list)-n:]...)
	}
}

type mname struct {
	active map[trace.SpanID]bool
	lat    [9]*mbucket
	errs   map[int32]*mbucket
	errCap int
}

type mstore struct {
	names map[string]*mname
}

func (m *mstore) name(n string, l, e int) *mname {
	x := m.names[n]
	if x == nil {
		x = &mname{active: map[trace.SpanID]bool{}, errs: map[int32]*mbucket{}, errCap: e}
		for i := range x.lat {
			x.lat[i] = &mbucket{cap: l}
		}
		m.names[n] = x
	}
	return x
}

func (m *mstore) size(n string, l, e int) {
	clamp := func(v int) int {
		if v < 0 {
			return 0
		}
		if v > 100000 {
			return 100000
		}
		return v
	}
	l, e = clamp(l), clamp(e)
	x := m.name(n, l, e)
	for _, b := range x.lat {
		b.resize(l)
	}
	for _, b := range x.errs {
		b.resize(e)
	}
	x.errCap = e
}

func (m *mstore) end(n string, x msample) {
	a := m.names[n]
	delete(a.active, x.id)
	if x.code == 0 {
		i := 0
		for i < 8 && x.lat >= latB[i+1] {
			i++
		}
		a.lat[i].add(x)
		return
	}
	b := a.errs[x.code]
	if b == nil {
		b = &mbucket{cap: a.errCap}
		a.errs[x.code] = b
	}
	b.add(x)
}

func ids(l []*trace.SpanData) string {
	var ss []string
	for _, d := range l {
		ss = append(ss, d.SpanID.String()[12:])
	}
	sort.Strings(ss)
	return strings.Join(ss, ",")
}

func mids(l []msample) string {
	var ss []string
	for _, x := range l {
		ss = append(ss, x.id.String()[12:])
	}
	sort.Strings(ss)
	return strings.Join(ss, ",")
}

// compare checks every report of the store against the model.
func (m *mstore) compare(st fullStore, ranges [][2]time.Duration) string {
	out := ""
	sum := st.ReportSpansPerMethod()
	if len(sum) != len(m.names) {
		vsched.Failf("summary has %d names, want %d", len(sum), len(m.names))
	}
	var ns []string
	for n := range m.names {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		x := m.names[n]
		p, ok := sum[n]
		if !ok || p.Active != len(x.active) {
			vsched.Failf("%s: summary %v %+v, want %d active", n, ok, p, len(x.active))
		}
		if len(p.LatencyBuckets) != 9 {
			vsched.Failf("%d latency buckets", len(p.LatencyBuckets))
		}
		var all []msample
		for i, b := range p.LatencyBuckets {
			if b.MinLatency != latB[i] || b.MaxLatency != latB[i+1] || b.Size != len(x.lat[i].list) {
				vsched.Failf("%s: latency bucket %d is %+v, want %d samples in [%v,%v)", n, i, b, len(x.lat[i].list), latB[i], latB[i+1])
			}
			all = append(all, x.lat[i].list...)
		}
		if len(p.ErrorBuckets) != len(x.errs) {
			vsched.Failf("%s: error buckets %+v, want %d", n, p.ErrorBuckets, len(x.errs))
		}
		var allErr []msample
		seen := map[int32]bool{}
		for _, b := range p.ErrorBuckets {
			w := x.errs[b.ErrorCode]
			if w == nil || seen[b.ErrorCode] || b.Size != len(w.list) {
				vsched.Failf("%s: error bucket %+v, want %+v", n, b, w)
			}
			seen[b.ErrorCode] = true
			allErr = append(allErr, w.list...)
			if g := ids(st.ReportSpansByError(n, b.ErrorCode)); g != mids(w.list) {
				vsched.Failf("%s: errors with code %d: %s, want %s", n, b.ErrorCode, g, mids(w.list))
			}
		}
		if g := ids(st.ReportSpansByError(n, 0)); g != mids(allErr) {
			vsched.Failf("%s: all errors: %s, want %s", n, g, mids(allErr))
		}
		if g := st.ReportSpansByError(n, 77); len(g) != 0 {
			vsched.Failf("%s: errors of an unused code: %s", n, ids(g))
		}
		var act []string
		for id := range x.active {
			act = append(act, id.String()[12:])
		}
		sort.Strings(act)
		if g := ids(st.ReportActiveSpans(n)); g != strings.Join(act, ",") {
			vsched.Failf("%s: active spans %s, want %v", n, g, act)
		}
		for _, r := range ranges {
			var w []msample
			for _, y := range all {
				if y.lat >= r[0] && (r[1] == 0 || y.lat <= r[1]) {
					w = append(w, y)
				}
			}
			l := st.ReportSpansByLatency(n, r[0], r[1])
			if g := ids(l); g != mids(w) {
				vsched.Failf("%s: latency in [%v,%v]: %s, want %s", n, r[0], r[1], g, mids(w))
			}
			for _, d := range l {
				for _, y := range w {
					if y.id == d.SpanID && (d.EndTime.Sub(d.StartTime) != y.lat || d.Code != 0) {
						vsched.Failf("%s: sample %s has latency %v and code %d, want %v", n, d.SpanID, d.EndTime.Sub(d.StartTime), d.Code, y.lat)
					}
				}
			}
		}
		out += fmt.Sprintf("%s a%d l%d e%d ", n, len(x.active), len(all), len(allErr))
	}
	if len(st.ReportActiveSpans("?")) != 0 || len(st.ReportSpansByError("?", 0)) != 0 || len(st.ReportSpansByLatency("?", 0, 0)) != 0 {
		vsched.Failf("reports for an unknown name")
	}
	return out
}

func fstore() fullStore {
	st, ok := internal.Trace.(fullStore)
	if !ok {
		vsched.Failf("no local span store")
	}
	return st
}

func storeSetup() fullStore {
	vsched.Reinit()
	internal.LocalSpanStoreEnabled = true
	trace.ApplyConfig(trace.Config{DefaultSampler: trace.NeverSample(), IDGenerator: &numIDs{}})
	return fstore()
}

func init() {
	type act struct {
		sp    *trace.Span
		name  string
		start int64
	}
	someRanges := [][2]time.Duration{{0, 0}, {0, 5 * time.Microsecond}, {5 * time.Microsecond, 0}, {time.Millisecond, time.Second}, {time.Second, 2 * time.Second}, {90 * time.Second, 0}}
	names := []string{"start a", "start b sampled", "end oldest", "end newest", "end newest code 1", "end oldest code 5", "wait 5us", "wait 1ms", "wait 1s", "wait 1s-1ns", "size a 1/1", "size a 3/2", "size a 0/-1", "size b 2/1", "rename newest"}
	vh.Add(&vh.Task{Prop: "C18", Name: "histories", Shards: [2]int{8, 8}, Weight: 3, Seq: func(s *vh.S) {
		depth := s.Pick(5, 6)
		pre := [][]int{{}, {0, 8, 2, 0, 8, 2, 0}, {10, 0, 4, 8, 0, 4, 0, 0, 1}, {0, 2, 8, 0, 2, 8, 0, 2, 8, 0}} // reached before
		for pi, pr := range pre {
			d := depth
			if pi > 0 {
				d--
			}
			s.Seqs(len(names), d, func(seq []int) {
				if len(seq) == 5 && (seq[0] > 1 && seq[0] < 10 || seq[0] == 14) && pi == 0 {
					return // nothing happens before the first start
				}
				full := append(append([]int(nil), pr...), seq...)
				cas := ""
				for _, l := range full {
					cas += names[l] + ", "
				}
				s.Exec(cas, func() {
					st := storeSetup()
					m := &mstore{names: map[string]*mname{}}
					var live []act
					end := func(i int, code int32) {
						if len(live) == 0 {
							return
						}
						if i < 0 {
							i = len(live) - 1
						}
						x := live[i]
						live = append(live[:i:i], live[i+1:]...)
						if code != 0 {
							x.sp.SetStatus(trace.Status{Code: code})
						}
						m.end(x.name, msample{x.sp.SpanContext().SpanID, time.Duration(vsched.Now() - x.start), code})
						x.sp.End()
						x.sp.End()
					}
					out := ""
					var kept []keptSpans
					for i, l := range full {
						if i == len(full)-2 || i == len(pr)-1 {
							for _, n := range []string{"a", "b"} {
								for _, ds := range [][]*trace.SpanData{st.ReportActiveSpans(n), st.ReportSpansByError(n, 0), st.ReportSpansByError(n, 1), st.ReportSpansByLatency(n, 0, 0)} {
									kept = append(kept, keptSpans{ds, spansStr(ds)})
								}
							}
						}
						switch l {
						case 0, 1:
							n := []string{"a", "b"}[l]
							var o []trace.StartOption
							if l == 1 {
								o = append(o, trace.WithSampler(trace.AlwaysSample()))
							}
							_, sp := trace.StartSpan(bg, n, o...)
							m.name(n, 10, 10).active[sp.SpanContext().SpanID] = true
							live = append(live, act{sp, n, vsched.Now()})
						case 2:
							end(0, 0)
						case 3:
							end(-1, 0)
						case 4:
							end(-1, 1)
						case 5:
							end(0, 5)
						case 6:
							vsched.AdvanceQuiet(int64(5 * time.Microsecond))
						case 7:
							vsched.AdvanceQuiet(int64(time.Millisecond))
						case 8:
							vsched.AdvanceQuiet(int64(time.Second))
						case 9:
							vsched.AdvanceQuiet(int64(time.Second) - 1)
						case 10, 11, 12, 13:
							c := []internal.BucketConfiguration{{Name: "a", MaxRequestsSucceeded: 1, MaxRequestsErrors: 1}, {Name: "a", MaxRequestsSucceeded: 3, MaxRequestsErrors: 2}, {Name: "a", MaxRequestsSucceeded: 0, MaxRequestsErrors: -1}, {Name: "b", MaxRequestsSucceeded: 2, MaxRequestsErrors: 1}}[l-10]
							st.ConfigureBucketSizes([]internal.BucketConfiguration{c})
							m.size(c.Name, c.MaxRequestsSucceeded, c.MaxRequestsErrors)
						case 14:
							if len(live) > 0 {
								live[len(live)-1].sp.SetName("renamed")
							}
						}
						if i == len(full)-1 {
							out = m.compare(st, someRanges)
							for _, k := range kept {
								if got := spansStr(k.ds); got != k.s {
									vsched.Failf("what an earlier call gave has become %s, it was %s", got, k.s)
								}
							}
						}
					}
					s.Outcome("%s", out)
				})
				s.Case(len(full))
				s.Sample("%s", cas)
			})
		}
	}})
	// filling a bucket, resizing it and filling on, for all sizes
	vh.Add(&vh.Task{Prop: "C18", Name: "resize", Shards: [2]int{8, 8}, Weight: 2, Seq: func(s *vh.S) {
		max := s.Pick(6, 10)
		for kind := 0; kind < 2; kind++ {
			// the buckets of the other kind have another size
			other := [2]int{}
			other[1-kind] = 3
			for size := -1; size <= max; size++ { // -1: never configured
				for n1 := 0; n1 <= s.Pick(13, 22); n1++ {
					for size2 := 0; size2 <= max; size2++ {
						for n2 := 0; n2 <= max+1; n2++ {
							if !s.Mine() || s.Stop() {
								continue
							}
							cas := fmt.Sprintf("kind %d size %d spans %d size %d spans %d", kind, size, n1, size2, n2)
							s.Exec(cas, func() {
								st := storeSetup()
								m := &mstore{names: map[string]*mname{}}
								fill := func(n int) {
									for i := 0; i < n; i++ {
										_, sp := trace.StartSpan(bg, "a")
										m.name("a", 10, 10).active[sp.SpanContext().SpanID] = true
										c := int32(0)
										if kind == 1 {
											c = 3
											sp.SetStatus(trace.Status{Code: 3})
										}
										m.end("a", msample{sp.SpanContext().SpanID, 0, c})
										sp.End()
										vsched.AdvanceQuiet(int64(time.Second))
									}
								}
								if size >= 0 {
									st.ConfigureBucketSizes([]internal.BucketConfiguration{{Name: "z", MaxRequestsSucceeded: 1, MaxRequestsErrors: 1}, {Name: "a", MaxRequestsSucceeded: size + other[0], MaxRequestsErrors: size + other[1]}})
									m.size("z", 1, 1)
									m.size("a", size+other[0], size+other[1])
								}
								fill(n1)
								m.compare(st, someRanges[:1])
								st.ConfigureBucketSizes([]internal.BucketConfiguration{{Name: "a", MaxRequestsSucceeded: size2 + other[0], MaxRequestsErrors: size2 + other[1]}})
								m.size("a", size2+other[0], size2+other[1])
								m.compare(st, someRanges[:1])
								fill(n2)
								o := m.compare(st, someRanges[:2])
								// and back again
								st.ConfigureBucketSizes([]internal.BucketConfiguration{{Name: "a", MaxRequestsSucceeded: 4 + other[0], MaxRequestsErrors: 4 + other[1]}})
								m.size("a", 4+other[0], 4+other[1])
								m.compare(st, someRanges[:1])
								fill(2)
								m.compare(st, someRanges[:1])
								s.Outcome("%s", o)
							})
							s.Case(n1 + n2 + 4)
							s.Sample("%s", cas)
						}
					}
				}
			}
		}
		for _, size := range []int{99999, 100000, 100001, 1 << 40, -1, -1 << 40} {
			if !s.Mine() || s.Stop() {
				continue
			}
			s.Exec(fmt.Sprint("extreme size ", size), func() {
				st := storeSetup()
				m := &mstore{names: map[string]*mname{}}
				st.ConfigureBucketSizes([]internal.BucketConfiguration{{Name: "a", MaxRequestsSucceeded: size, MaxRequestsErrors: size}})
				m.size("a", size, size)
				for i := 0; i < 3; i++ {
					_, sp := trace.StartSpan(bg, "a")
					m.name("a", 10, 10).active[sp.SpanContext().SpanID] = true
					m.end("a", msample{sp.SpanContext().SpanID, 0, 0})
					sp.End()
					vsched.AdvanceQuiet(int64(time.Second))
				}
				m.compare(st, someRanges[:1])
			})
			s.Case(4)
		}
	}})
	// every latency around every bound, retrieved with every range
	vh.Add(&vh.Task{Prop: "C18", Name: "latency-ranges", Shards: [2]int{4, 8}, Seq: func(s *vh.S) {
		var ls []time.Duration
		for _, b := range latB[:9] {
			for d := time.Duration(-1); d <= 1; d++ {
				if b+d >= 0 {
					ls = append(ls, b+d)
				}
			}
			ls = append(ls, b*3)
		}
		var rs [][2]time.Duration
		for _, a := range ls {
			for _, b := range ls {
				rs = append(rs, [2]time.Duration{a, b})
			}
			rs = append(rs, [2]time.Duration{a, 0}, [2]time.Duration{a, 1<<63 - 1})
		}
		for i := range ls {
			for j := range ls {
				if !s.Mine() || s.Stop() {
					continue
				}
				if !s.Thorough && (i*31+j)%4 != 0 {
					continue
				}
				s.Exec(fmt.Sprint(ls[i], ls[j]), func() {
					st := storeSetup()
					m := &mstore{names: map[string]*mname{}}
					for _, l := range []time.Duration{ls[i], ls[j]} {
						t0 := vsched.Now()
						_, sp := trace.StartSpan(bg, "a")
						m.name("a", 10, 10).active[sp.SpanContext().SpanID] = true
						vsched.AdvanceQuiet(int64(l))
						m.end("a", msample{sp.SpanContext().SpanID, time.Duration(vsched.Now() - t0), 0})
						sp.End()
						vsched.AdvanceQuiet(int64(time.Second))
					}
					s.Outcome("%d %d %s", i, j, m.compare(st, rs))
				})
				s.Case(len(rs))
			}
		}
	}})
	// spans start and end on several goroutines while the store is read and resized
	vh.Add(&vh.Task{Prop: "C18", Name: "concurrent", Race: true, Bound: [2]int{2, 4}, Shards: [2]int{8, 8}, Body: func() {
		vsched.Reinit()
		internal.LocalSpanStoreEnabled = true
		trace.ApplyConfig(trace.Config{DefaultSampler: trace.NeverSample(), IDGenerator: &lockedIDs{}})
		st := fstore()
		_, keep := trace.StartSpan(bg, "a")
		vsched.Explore(true)
		ended := make([]bool, 3)
		var starts [3]int64
		gs := []*vsched.G{
			vsched.Thread("ok", func() {
				_, sp := trace.StartSpan(bg, "a")
				starts[0] = vsched.Stamp()
				sp.End()
				ended[0] = true
			}),
			vsched.Thread("error", func() {
				_, sp := trace.StartSpan(bg, "b")
				sp.SetStatus(trace.Status{Code: 2})
				starts[1] = vsched.Stamp()
				sp.End()
				ended[1] = true
			}),
			vsched.Thread("reader", func() {
				for k := 0; k < 2; k++ {
					p := st.ReportSpansPerMethod()
					a := p["a"]
					n := 0
					for _, b := range a.LatencyBuckets {
						n += b.Size
					}
					if a.Active < 1 || a.Active+n > 2 || len(a.ErrorBuckets) > 0 {
						vsched.Failf("summary of a: %+v", a)
					}
					as := st.ReportActiveSpans("a")
					found := false
					for _, d := range as {
						found = found || d.SpanID == keep.SpanContext().SpanID
					}
					if !found || len(as) > 2 {
						vsched.Failf("active spans %s", ids(as))
					}
					if n > 0 && len(st.ReportSpansByLatency("a", 0, 0)) < 1 {
						vsched.Failf("a counted sample cannot be retrieved")
					}
				}
			}),
			vsched.Thread("sizes", func() {
				st.ConfigureBucketSizes([]internal.BucketConfiguration{{Name: "b", MaxRequestsSucceeded: 2, MaxRequestsErrors: 2}})
				for _, d := range st.ReportSpansByError("b", 0) {
					if d.Code != 2 {
						vsched.Failf("error span with code %d", d.Code)
					}
				}
			}),
		}
		vsched.Join(gs...)
		vsched.Explore(false)
		p := st.ReportSpansPerMethod()
		n := 0
		for _, b := range p["a"].LatencyBuckets {
			n += b.Size
		}
		if p["a"].Active != 1 || n != 1 || p["b"].Active != 0 || len(p["b"].ErrorBuckets) != 1 || p["b"].ErrorBuckets[0].Size != 1 {
			vsched.Failf("summary %+v", p)
		}
		vsched.Outcome("%d", len(st.ReportSpansByError("b", 2)))
	}})
	// the first spans of a name, before anything else knows the name
	vh.Add(&vh.Task{Prop: "C18", Name: "first-spans", Race: true, Bound: [2]int{3, 6}, Shards: [2]int{8, 8}, Body: func() {
		vsched.Reinit()
		internal.LocalSpanStoreEnabled = true
		trace.ApplyConfig(trace.Config{DefaultSampler: trace.NeverSample(), IDGenerator: &lockedIDs{}})
		st := fstore()
		how := vsched.Choose(2, "third thread")
		vsched.Explore(true)
		gs := []*vsched.G{
			vsched.Thread("1", func() {
				_, sp := trace.StartSpan(bg, "n")
				if l := st.ReportActiveSpans("n"); len(l) < 1 {
					vsched.Failf("own active span is missing")
				}
				_ = sp
			}),
			vsched.Thread("2", func() {
				_, sp := trace.StartSpan(bg, "n")
				sp.SetStatus(trace.Status{Code: 3})
				sp.End()
				if l := st.ReportSpansByError("n", 3); len(l) != 1 {
					vsched.Failf("own error span listed %d times", len(l))
				}
			}),
			vsched.Thread("3", func() {
				if how == 0 {
					trace.StartSpan(bg, "n")
				} else {
					st.ConfigureBucketSizes([]internal.BucketConfiguration{{Name: "n", MaxRequestsSucceeded: 1, MaxRequestsErrors: 1}})
				}
			}),
		}
		vsched.Join(gs...)
		vsched.Explore(false)
		want := 2 - how
		p := st.ReportSpansPerMethod()["n"]
		if p.Active != want || len(st.ReportActiveSpans("n")) != want || len(st.ReportSpansByError("n", 0)) != 1 {
			vsched.Failf("%d and %d active spans, want %d, %d errors", p.Active, len(st.ReportActiveSpans("n")), want, len(st.ReportSpansByError("n", 0)))
		}
		if how == 1 {
			// the configured sizes hold
			for i := 0; i < 3; i++ {
				vsched.AdvanceQuiet(2e9)
				_, sp := trace.StartSpan(bg, "n")
				sp.SetStatus(trace.Status{Code: 3})
				sp.End()
			}
			if l := st.ReportSpansByError("n", 3); len(l) != 1 {
				vsched.Failf("%d error spans kept, 1 configured", len(l))
			}
		}
		vsched.Outcome("%d %d", how, p.Active)
	}})
}

// keptSpans is an answer of the store the caller holds on to.
type keptSpans struct {
	ds []*trace.SpanData
	s  string
}

func spansStr(ds []*trace.SpanData) string {
	s := ""
	for _, d := range ds {
		if d == nil {
			s += "nil "
			continue
		}
		s += fmt.Sprintf("%v %s %d;", d.SpanID, d.Name, d.Code)
	}
	return s
}
