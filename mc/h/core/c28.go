package main

import (
	"fmt"
	stdruntime "runtime"
	"sort"
	"strings"

	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	vruntime "go.opencensus.io/internal/vsched/vruntime"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/plugin/runmetrics"
)

type runMetric struct {
	name string
	unit metricdata.Unit
	cum  bool // a cumulative when derived cumulatives are used
	get  func(m *stdruntime.MemStats) float64
}

const (
	uB = metricdata.UnitBytes
	u1 = metricdata.UnitDimensionless
	uM = metricdata.UnitMilliseconds
)

var runMem = []runMetric{
	{"process/memory_alloc", uB, false, func(m *stdruntime.MemStats) float64 { return float64(m.Alloc) }},
	{"process/total_memory_alloc", uB, true, func(m *stdruntime.MemStats) float64 { return float64(m.TotalAlloc) }},
	{"process/sys_memory_alloc", uB, false, func(m *stdruntime.MemStats) float64 { return float64(m.Sys) }},
	{"process/memory_lookups", u1, true, func(m *stdruntime.MemStats) float64 { return float64(m.Lookups) }},
	{"process/memory_malloc", u1, true, func(m *stdruntime.MemStats) float64 { return float64(m.Mallocs) }},
	{"process/memory_frees", u1, true, func(m *stdruntime.MemStats) float64 { return float64(m.Frees) }},
	{"process/heap_alloc", uB, false, func(m *stdruntime.MemStats) float64 { return float64(m.HeapAlloc) }},
	{"process/sys_heap", uB, false, func(m *stdruntime.MemStats) float64 { return float64(m.HeapSys) }},
	{"process/heap_idle", uB, false, func(m *stdruntime.MemStats) float64 { return float64(m.HeapIdle) }},
	{"process/heap_inuse", uB, false, func(m *stdruntime.MemStats) float64 { return float64(m.HeapInuse) }},
	{"process/heap_objects", u1, false, func(m *stdruntime.MemStats) float64 { return float64(m.HeapObjects) }},
	{"process/heap_release", uB, true, func(m *stdruntime.MemStats) float64 { return float64(m.HeapReleased) }},
	{"process/stack_inuse", uB, false, func(m *stdruntime.MemStats) float64 { return float64(m.StackInuse) }},
	{"process/sys_stack", uB, false, func(m *stdruntime.MemStats) float64 { return float64(m.StackSys) }},
	{"process/stack_mspan_inuse", uB, false, func(m *stdruntime.MemStats) float64 { return float64(m.MSpanInuse) }},
	{"process/sys_stack_mspan", uB, false, func(m *stdruntime.MemStats) float64 { return float64(m.MSpanSys) }},
	{"process/stack_mcache_inuse", uB, false, func(m *stdruntime.MemStats) float64 { return float64(m.MCacheInuse) }},
	{"process/sys_stack_mcache", uB, false, func(m *stdruntime.MemStats) float64 { return float64(m.MCacheSys) }},
	{"process/gc_sys", uB, false, func(m *stdruntime.MemStats) float64 { return float64(m.GCSys) }},
	{"process/other_sys", uB, false, func(m *stdruntime.MemStats) float64 { return float64(m.OtherSys) }},
	{"process/num_gc", u1, true, func(m *stdruntime.MemStats) float64 { return float64(m.NumGC) }},
	{"process/num_forced_gc", u1, true, func(m *stdruntime.MemStats) float64 { return float64(m.NumForcedGC) }},
	{"process/next_gc_heap_size", uB, false, func(m *stdruntime.MemStats) float64 { return float64(m.NextGC) }},
	{"process/last_gc_finished_timestamp", uM, false, func(m *stdruntime.MemStats) float64 { return float64(m.LastGC / 1000000) }},
	{"process/pause_total", uM, true, func(m *stdruntime.MemStats) float64 { return float64(m.PauseTotalNs / 1000000) }},
	{"process/gc_cpu_fraction", u1, false, func(m *stdruntime.MemStats) float64 { return m.GCCPUFraction }},
}

// fakeMem is statistics number n: every field is different, and different in every snapshot.
func fakeMem(n int) (m stdruntime.MemStats) {
	v := uint64(n*1000 + 1)
	nx := func() uint64 { v++; return v }
	m.Alloc, m.TotalAlloc, m.Sys, m.Lookups, m.Mallocs, m.Frees = nx(), nx(), nx(), nx(), nx(), nx()
	m.HeapAlloc, m.HeapSys, m.HeapIdle, m.HeapInuse, m.HeapReleased, m.HeapObjects = nx(), nx(), nx(), nx(), nx(), nx()
	m.StackInuse, m.StackSys, m.MSpanInuse, m.MSpanSys, m.MCacheInuse, m.MCacheSys = nx(), nx(), nx(), nx(), nx(), nx()
	m.BuckHashSys, m.GCSys, m.OtherSys, m.NextGC = nx(), nx(), nx(), nx()
	m.LastGC, m.PauseTotalNs = nx()*1000000+7, nx()*1000000+999999
	m.NumGC, m.NumForcedGC = uint32(nx()), uint32(nx())
	m.GCCPUFraction = float64(nx()) / 1024
	return
}

// wantRun renders the metrics an enabled producer gives for a snapshot.
func wantRun(o runmetrics.RunMetricOptions, n int) string {
	var out []string
	m := fakeMem(n)
	if o.EnableMemory {
		for _, r := range runMem {
			t, v := metricdata.TypeGaugeInt64, fmt.Sprintf("int %d", int64(r.get(&m)))
			if r.name == "process/gc_cpu_fraction" {
				t, v = metricdata.TypeGaugeFloat64, fmt.Sprintf("float %v", r.get(&m))
			}
			if r.cum && o.UseDerivedCumulative {
				t = metricdata.TypeCumulativeInt64
			}
			out = append(out, fmt.Sprintf("%s%s %v %q %s", o.Prefix, r.name, t, r.unit, v))
		}
	}
	if o.EnableCPU {
		out = append(out, fmt.Sprintf("%sprocess/cpu_goroutines %v %q int %d", o.Prefix, metricdata.TypeGaugeInt64, u1, 70000+n), fmt.Sprintf("%sprocess/cpu_cgo_calls %v %q int %d", o.Prefix, metricdata.TypeGaugeInt64, u1, 80000+n))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func runStr(ms []*metricdata.Metric) string {
	var out []string
	for _, m := range ms {
		x := fmt.Sprintf("%s %v %q", m.Descriptor.Name, m.Descriptor.Type, m.Descriptor.Unit)
		if m.Descriptor.Description == "" || len(m.Descriptor.LabelKeys) != 0 {
			x += " bad descriptor"
		}
		for _, t := range m.TimeSeries {
			if len(t.LabelValues) != 0 {
				x += " labels"
			}
			for _, p := range t.Points {
				x += " " + ptStr(p)
				if p.Time.UnixNano() != vsched.Now() {
					x += " at another time"
				}
			}
		}
		out = append(out, x)
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func setFakes(n func() int) {
	vruntime.FakeMem = func() stdruntime.MemStats { return fakeMem(n()) }
	vruntime.FakeGoroutines = func() int { return 70000 + n() }
	vruntime.FakeCgo = func() int64 { return int64(80000 + n()) }
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			w := "nothing"
			if i < len(y) {
				w = y[i]
			}
			return fmt.Sprintf("%s, want %s (%d and %d metrics)", x[i], w, len(x), len(y))
		}
	}
	return fmt.Sprintf("%d metrics, want %d", len(x), len(y))
}

func runOpts() (out []runmetrics.RunMetricOptions) {
	for i := 0; i < 16; i++ {
		o := runmetrics.RunMetricOptions{EnableCPU: i&1 != 0, EnableMemory: i&2 != 0, UseDerivedCumulative: i&4 != 0}
		if i&8 != 0 {
			o.Prefix = "my/prefix_"
		}
		out = append(out, o)
	}
	return
}

func init() {
	vh.Add(&vh.Task{Prop: "C28", Name: "histories", Shards: [2]int{8, 8}, Weight: 3, Seq: func(s *vh.S) {
		opts := runOpts()
		// operations: enable with each option set, disable, read, keep a producer and read it again
		n := len(opts) + 3
		s.Seqs(n, s.Pick(4, 5), func(seq []int) {
			cas := ""
			for _, l := range seq {
				if l < len(opts) {
					cas += fmt.Sprintf("enable %+v; ", opts[l])
				} else {
					cas += []string{"disable; ", "next; ", "read; "}[l-len(opts)]
				}
			}
			s.Exec(cas, func() {
				vsched.ReinitOnly("metric/metricproducer", "plugin/runmetrics")
				cur := 1
				setFakes(func() int { return cur })
				mgr := metricproducer.GlobalManager()
				on := -1
				var last metricproducer.Producer
				for i, l := range seq {
					switch {
					case l < len(opts):
						if err := runmetrics.Enable(opts[l]); err != nil {
							s.Failf(cas, "step %d: %v", i, err)
						}
						on = l
					case l == len(opts):
						runmetrics.Disable()
						on = -1
					case l == len(opts)+1:
						cur++
						vsched.AdvanceQuiet(1000)
					}
					ps := mgr.GetAll()
					if on < 0 && len(ps) != 0 || on >= 0 && len(ps) != 1 {
						s.Failf(cas, "step %d: %d producers registered", i, len(ps))
						return
					}
					if on >= 0 && (l >= len(opts) || i == len(seq)-1) {
						if l < len(opts) && ps[0] == last {
							s.Failf(cas, "step %d: the same producer as before", i)
						}
						last = ps[0]
						if got, want := runStr(ps[0].Read()), wantRun(opts[on], cur); got != want {
							s.Failf(cas, "step %d: %s", i, firstDiff(got, want))
						}
					}
				}
				s.Outcome("%d", on)
			})
			s.Case(len(seq))
			s.Sample("%s", cas)
		})
	}})
	vh.Add(&vh.Task{Prop: "C28", Name: "real", Seq: func(s *vh.S) {
		// the statistics really come from the runtime
		for i, o := range runOpts() {
			cas := fmt.Sprintf("%+v", o)
			s.Exec(cas, func() {
				vsched.ReinitOnly("metric/metricproducer", "plugin/runmetrics")
				vruntime.FakeMem, vruntime.FakeGoroutines, vruntime.FakeCgo = nil, nil, nil
				if err := runmetrics.Enable(o); err != nil {
					s.Failf(cas, "%v", err)
				}
				var a, b stdruntime.MemStats
				stdruntime.ReadMemStats(&a)
				ms := metricproducer.GlobalManager().GetAll()[0].Read()
				stdruntime.ReadMemStats(&b)
				for _, m := range ms {
					for _, r := range runMem {
						if m.Descriptor.Name == o.Prefix+r.name {
							var v float64
							switch x := m.TimeSeries[0].Points[0].Value.(type) {
							case int64:
								v = float64(x)
							case float64:
								v = x
							}
							lo, hi := r.get(&a), r.get(&b)
							if lo == hi && v != lo || r.cum && r.name != "process/heap_release" && (v < lo || v > hi) || v < 0 {
								s.Failf(cas, "%s is %v, the runtime had %v and then %v", r.name, v, lo, hi)
							}
						}
					}
				}
			})
			s.Outcome("%d", i)
			s.Case(1)
		}
	}})
	// reads at once: each sees one consistent snapshot taken while it ran
	vh.Add(&vh.Task{Prop: "C28", Name: "reads", Race: true, Bound: [2]int{99, 99}, Shards: [2]int{8, 8}, MaxSteps: 4000, Body: func() {
		vsched.ReinitOnly("metric/metricproducer", "plugin/runmetrics")
		o := []runmetrics.RunMetricOptions{{EnableMemory: true}, {EnableMemory: true, UseDerivedCumulative: true}, {EnableCPU: true, Prefix: "p"}}[vsched.Choose(3, "options")]
		taken := 0
		var at []int64
		setFakes(func() int { return taken + 1 })
		mem := vruntime.FakeMem
		vruntime.FakeMem = func() stdruntime.MemStats {
			taken++
			at = append(at, vsched.Stamp())
			return mem()
		}
		if err := runmetrics.Enable(o); err != nil {
			vsched.Failf("%v", err)
		}
		p := metricproducer.GlobalManager().GetAll()[0]
		vsched.Explore(true)
		type res struct {
			from, to int64
			got      string
		}
		rs := make([][]res, 2)
		var gs []*vsched.G
		for t := range rs {
			t := t
			gs = append(gs, vsched.Thread(fmt.Sprint("read", t), func() {
				r := res{from: vsched.Stamp()}
				ms := p.Read()
				r.to = vsched.Stamp()
				r.got = runStr(ms)
				rs[t] = append(rs[t], r)
			}))
		}
		vsched.Join(gs...)
		vsched.Explore(false)
		out := ""
		for t := range rs {
			for _, r := range rs[t] {
				ok := false
				for n := 0; n <= taken; n++ {
					if o.EnableMemory && (n == 0 || at[n-1] < r.from || at[n-1] > r.to) {
						continue
					}
					if r.got == wantRun(o, n+1) {
						ok = true
						out += fmt.Sprint(n)
					}
				}
				if !ok {
					vsched.Failf("%+v: read gave no snapshot of its time: %s", o, firstDiff(r.got, wantRun(o, taken)))
				}
			}
		}
		vsched.Outcome("%s", out)
	}})
	vh.Add(&vh.Task{Prop: "C28", Name: "concurrent", Race: true, Bound: [2]int{2, 4}, Shards: [2]int{8, 8}, MaxSteps: 4000, Body: func() {
		vsched.ReinitOnly("metric/metricproducer", "plugin/runmetrics")
		setFakes(func() int { return 1 })
		opts := []runmetrics.RunMetricOptions{{EnableCPU: true, Prefix: "a"}, {EnableCPU: true, Prefix: "b"}, {Prefix: "none"}}
		progs := [][]int{{0, -1}, {-1, 1}, {1, 0}, {2, 1}} // enable with an option set, -1: disable
		before := vsched.Choose(2, "enabled before") == 1
		i := vsched.Choose(len(progs), "program 1")
		j := i + vsched.Choose(len(progs)-i, "program 2")
		cur := "-"
		if before {
			if err := runmetrics.Enable(opts[0]); err != nil {
				vsched.Failf("%v", err)
			}
			cur = wantRun(opts[0], 1)
		}
		hs := []*vh.Hist[*string]{{Thread: 0}, {Thread: 1}}
		look := func() string {
			ps := metricproducer.GlobalManager().GetAll()
			if len(ps) > 1 {
				vsched.Failf("%d producers registered at once", len(ps))
			}
			if len(ps) == 0 {
				return "-"
			}
			return runStr(ps[0].Read())
		}
		vsched.Explore(true)
		var gs []*vsched.G
		for t, p := range [][]int{progs[i], progs[j]} {
			t, p := t, p
			gs = append(gs, vsched.Thread(fmt.Sprint("t", t), func() {
				for _, o := range p {
					o := o
					hs[t].Do(fmt.Sprint(o), func() (string, func(*string) bool) {
						if o < 0 {
							runmetrics.Disable()
							return "", func(m *string) bool { *m = "-"; return true }
						}
						err := runmetrics.Enable(opts[o])
						return "", func(m *string) bool { *m = wantRun(opts[o], 1); return err == nil }
					})
				}
			}))
		}
		gs = append(gs, vsched.Thread("read", func() { look() }))
		vsched.Join(gs...)
		vsched.Explore(false)
		end := look()
		if !vh.Linearizable(&cur, func(m *string) *string { c := *m; return &c }, func(m *string) bool { return *m == end }, hs...) {
			vsched.Failf("%s registered finally after %s", end, vh.HistString(hs...))
		}
		vsched.Outcome("%d %d %v %s", i, j, before, end)
	}})
}
