package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"go.opencensus.io/internal"
	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/metric/metricdata"
	"go.opencensus.io/metric/metricexport"
	"go.opencensus.io/metric/metricproducer"
	"go.opencensus.io/trace"
)

// mprod is a producer of named metrics.
type mprod struct {
	name string
	n    int
	same bool // all metrics of all such producers have the same name
	_    byte
}

func (p *mprod) metric(i int) *metricdata.Metric {
	m := &metricdata.Metric{Descriptor: metricdata.Descriptor{Name: fmt.Sprint(p.name, i), Description: p.name, Unit: metricdata.UnitBytes, Type: metricdata.TypeGaugeInt64}}
	if p.same {
		m.Descriptor.Name = "same"
	}
	if i%2 == 1 {
		m.TimeSeries = []*metricdata.TimeSeries{{Points: []metricdata.Point{metricdata.NewInt64Point(time.Unix(7, 0), int64(i))}}}
	}
	return m
}

func prodMetricStr(m *metricdata.Metric) string {
	x := fmt.Sprint(m.Descriptor, m.Resource)
	for _, t := range m.TimeSeries {
		x += fmt.Sprint(*t)
	}
	return x
}

func (p *mprod) Read() []*metricdata.Metric {
	vsched.Log(readCall{p, vsched.Stamp()})
	var out []*metricdata.Metric
	for i := 0; i < p.n; i++ {
		out = append(out, p.metric(i))
	}
	return out
}

type readCall struct {
	p  *mprod
	at int64
}

// prodSet renders the set of test producers in a listing; others (the default meter's) are counted.
func prodSet(l []metricproducer.Producer) string {
	var n []string
	for _, p := range l {
		if m, ok := p.(*mprod); ok {
			n = append(n, m.name)
		} else if p == nil {
			n = append(n, "nil")
		}
	}
	sort.Strings(n)
	return strings.Join(n, ",")
}

type pset map[string]bool

func (s pset) String() string {
	var n []string
	for k, on := range s {
		if on {
			n = append(n, k)
		}
	}
	sort.Strings(n)
	return strings.Join(n, ",")
}

func (s pset) clone() pset {
	c := pset{}
	for k, v := range s {
		c[k] = v
	}
	return c
}

func init() {
	vh.Add(&vh.Task{Prop: "C26", Name: "histories", Shards: [2]int{8, 8}, Weight: 2, Seq: func(s *vh.S) {
		// operations: add/delete of three producers and nil, list and scribble over an earlier list
		n := 10
		s.Seqs(n, s.Pick(6, 7), func(seq []int) {
			cas := fmt.Sprint(seq)
			s.Exec(cas, func() {
				vsched.ReinitOnly("metric/metricproducer")
				ps := []*mprod{{name: "a"}, {name: "b"}, {name: "c"}}
				want := pset{}
				mgr := metricproducer.GlobalManager()
				var lists [][]metricproducer.Producer
				var texts []string
				for i, l := range seq {
					if metricproducer.GlobalManager() != mgr {
						s.Failf(cas, "step %d: another global manager", i)
					}
					switch {
					case l < 3:
						mgr.AddProducer(ps[l])
						want[ps[l].name] = true
					case l < 6:
						mgr.DeleteProducer(ps[l-3])
						delete(want, ps[l-3].name)
					case l == 6:
						mgr.AddProducer(nil)
					case l == 7:
						mgr.DeleteProducer(nil)
					case l == 8:
						vsched.MapReverse(true)
					case l == 9:
						for j := range lists {
							for k := range lists[j] {
								lists[j][k] = nil
							}
							texts[j] = prodSet(lists[j])
						}
					}
					got := mgr.GetAll()
					if len(got) != len(want) || prodSet(got) != want.String() {
						s.Failf(cas, "step %d: listed %s (%d), want %s", i, prodSet(got), len(got), want)
					}
					lists, texts = append(lists, got), append(texts, prodSet(got))
					for j := range lists {
						if prodSet(lists[j]) != texts[j] {
							s.Failf(cas, "step %d: an earlier listing changed from %s to %s", i, texts[j], prodSet(lists[j]))
						}
					}
				}
				s.Outcome("%s", want)
			})
			s.Case(n)
			s.Sample("%s", cas)
		})
	}})
	vh.Add(&vh.Task{Prop: "C26", Name: "concurrent", Race: true, Bound: [2]int{4, 99}, Shards: [2]int{8, 8}, Body: func() {
		vsched.ReinitOnly("metric/metricproducer")
		ps := []*mprod{{name: "a"}, {name: "b"}, {name: "c"}}
		progs := [][]int{{0, 1}, {0, 3}, {1, 4}, {3, 0}, {2, 6}, {6, 5}, {6, 6}} // i: add i, 3+i: delete i, 6: list
		i := vsched.Choose(len(progs), "program 1")
		j := i + vsched.Choose(len(progs)-i, "program 2")
		vsched.Explore(true)
		hs := []*vh.Hist[pset]{{Thread: 0}, {Thread: 1}, {Thread: 2}}
		run := func(h *vh.Hist[pset], o int) {
			h.Do(fmt.Sprint([]string{"add ", "delete ", "list"}[o/3], o%3), func() (string, func(pset) bool) {
				switch o / 3 {
				case 0:
					metricproducer.GlobalManager().AddProducer(ps[o])
					return "", func(m pset) bool { m[ps[o].name] = true; return true }
				case 1:
					metricproducer.GlobalManager().DeleteProducer(ps[o-3])
					return "", func(m pset) bool { delete(m, ps[o-3].name); return true }
				}
				l := metricproducer.GlobalManager().GetAll()
				g := prodSet(l)
				for k := range l {
					l[k] = nil
				}
				return " " + g, func(m pset) bool { return m.String() == g }
			})
		}
		var gs []*vsched.G
		for t, p := range [][]int{progs[i], progs[j], {6, 2, 6}} {
			t, p := t, p
			gs = append(gs, vsched.Thread(fmt.Sprint("t", t), func() {
				for _, o := range p {
					run(hs[t], o)
				}
			}))
		}
		vsched.Join(gs...)
		vsched.Explore(false)
		end := &vh.Hist[pset]{Thread: 3}
		run(end, 6)
		if !vh.Linearizable(pset{}, pset.clone, nil, hs[0], hs[1], hs[2], end) {
			vsched.Failf("not linearizable: %s", vh.HistString(append(hs, end)...))
		}
		vsched.Outcome("%d %d %s", i, j, end.Ops[0].Name)
	}})
	initC27()
}

// mexp is a metrics exporter.
type mexp struct {
	err   error
	yield bool
	dur   int64
	_     byte
}

type expCall struct {
	e       *mexp
	from    int64
	to      int64
	names   string
	full    string
	n       int
	spanned bool
	at      int64
	data    []*metricdata.Metric // as given: an exporter may work on it later
	was     []*metricdata.Metric // its elements at that time
}

// render is what the batch looks like.
func render(data []*metricdata.Metric) (names, full string) {
	var ns, fs []string
	for _, d := range data {
		if !strings.HasPrefix(d.Descriptor.Name, "opencensus.io") {
			ns = append(ns, d.Descriptor.Name)
			fs = append(fs, prodMetricStr(d))
		}
	}
	sort.Strings(ns)
	sort.Strings(fs)
	return strings.Join(ns, ","), strings.Join(fs, "\n")
}

func (e *mexp) ExportMetrics(ctx context.Context, data []*metricdata.Metric) error {
	c := expCall{e: e, from: vsched.Stamp(), n: len(data), spanned: trace.FromContext(ctx) != nil, at: vsched.Now()}
	c.names, c.full = render(data)
	c.data, c.was = data, append([]*metricdata.Metric(nil), data...)
	if e.yield {
		vsched.Yield()
	}
	if e.dur > 0 {
		vsched.Sleep(e.dur)
	}
	c.to = vsched.Stamp()
	vsched.Log(c)
	return e.err
}

func expCalls() (cs []expCall, rs []readCall) {
	for _, v := range vsched.Logs() {
		switch c := v.(type) {
		case expCall:
			for i, m := range c.data {
				if m != c.was[i] {
					vsched.Failf("element %d of a batch was replaced after the pass", i)
				}
			}
			if n, f := render(c.data); n != c.names || f != c.full {
				vsched.Failf("a batch of %s has become %s", c.full, f)
			}
			cs = append(cs, c)
		case readCall:
			rs = append(rs, c)
		}
	}
	return
}

func initC27() {
	// the reader: every set of producers, exporter outcome and span name
	vh.Add(&vh.Task{Prop: "C27", Name: "reader", Seq: func(s *vh.S) {
		for mask := 0; mask < 128; mask++ { // the top bit: all metrics have the same name
			for _, fail := range []bool{false, true} {
				for _, name := range []string{"", "my span"} {
					for _, rev := range []bool{false, true} {
						for passes := 1; passes <= 3; passes++ {
							cas := fmt.Sprintf("producers %07b exporter fails %v span %q reversed %v passes %d", mask, fail, name, rev, passes)
							s.Exec(cas, func() {
								vsched.Reinit()
								internal.LocalSpanStoreEnabled = false
								vsched.MapReverse(rev)
								trace.ApplyConfig(trace.Config{IDGenerator: &numIDs{}})
								var sl spanLog
								trace.RegisterExporter(&sl)
								var want, full []string
								total := 0
								for i := 0; i < 3; i++ {
									n := mask >> uint(2*i) & 3
									if n == 3 { // not registered
										continue
									}
									p := &mprod{name: string(rune('a' + i)), n: n, same: mask>>6 == 1}
									metricproducer.GlobalManager().AddProducer(p)
									total++
									for k := 0; k < n; k++ {
										want = append(want, p.metric(k).Descriptor.Name)
										full = append(full, prodMetricStr(p.metric(k)))
									}
								}
								sort.Strings(want)
								sort.Strings(full)
								var o []metricexport.ReaderOption
								wantName := "ExportMetrics"
								if name != "" {
									o = append(o, metricexport.WithSpanName(name))
									wantName = name
								}
								r := metricexport.NewReader(o...)
								e := &mexp{}
								if fail {
									e.err = errors.New("refused")
								}
								for i := 0; i < passes; i++ {
									r.ReadAndExport(e)
									cs, rs := expCalls()
									if len(cs) != i+1 || len(rs) != total*(i+1) {
										s.Failf(cas, "pass %d: %d exports and %d reads", i, len(cs), len(rs))
										return
									}
									seen := map[*mprod]bool{}
									for _, c := range rs[total*i:] {
										if seen[c.p] {
											s.Failf(cas, "pass %d: producer %s read twice", i, c.p.name)
										}
										seen[c.p] = true
									}
									c := cs[i]
									if c.full != strings.Join(full, "\n") {
										s.Failf(cas, "pass %d: exported %s, want %s", i, c.full, strings.Join(full, "\n"))
									}
									if c.names != strings.Join(want, ",") || c.n != len(want) || !c.spanned {
										s.Failf(cas, "pass %d: exported %s (%d, span %v), want %v", i, c.names, c.n, c.spanned, want)
									}
									// the identifiers drawn are all below the sampling fraction
									if len(sl.got) != i+1 || sl.got[i].Name != wantName {
										s.Failf(cas, "pass %d: spans %v, want one %q more", i, len(sl.got), wantName)
									}
								}
								s.Outcome("%s", strings.Join(want, ","))
							})
							s.Case(passes)
							s.Sample("%s", cas)
						}
					}
				}
			}
		}
	}})
	// exporters that make passes of another reader themselves
	vh.Add(&vh.Task{Prop: "C27", Name: "passes-in-passes", Seq: func(s *vh.S) {
		for way := 0; way < 4; way++ {
			for n := 0; n < 3; n++ {
				cas := fmt.Sprintf("way %d, %d metrics", way, n)
				s.Exec(cas, func() {
					vsched.Reinit()
					internal.LocalSpanStoreEnabled = false
					metricproducer.GlobalManager().AddProducer(&mprod{name: "p", n: n})
					e := &mexp{}
					r2 := metricexport.NewReader(metricexport.WithSpanName("second"))
					ir, err := metricexport.NewIntervalReader(r2, e)
					if err != nil {
						vsched.Failf("%v", err)
					}
					outer := &fnMetricExporter{}
					depth, calls := 0, 0
					outer.f = func(ctx context.Context, ms []*metricdata.Metric) error {
						calls++
						depth++
						defer func() { depth-- }()
						if depth > 1 {
							return nil
						}
						switch way {
						case 0:
							r2.ReadAndExport(e)
						case 1:
							ir.Flush()
						case 2: // through its own exporter again
							r2.ReadAndExport(outer)
							r2.ReadAndExport(e)
						case 3: // while a pass is made, another reader makes its own
							ir.ReportingInterval = time.Second
							if err := ir.Start(); err != nil {
								vsched.Failf("%v", err)
							}
							vsched.Advance(int64(time.Second))
							vsched.Idle()
							ir.Stop()
						}
						return nil
					}
					r1 := metricexport.NewReader(metricexport.WithSpanName("first"))
					r1.ReadAndExport(outer)
					cs, _ := expCalls()
					if wantCalls := map[bool]int{true: 2, false: 1}[way == 2]; len(cs) != 1 || cs[0].n != n || calls != wantCalls {
						s.Failf(cas, "%d passes of the inner reader, %d of the outer one: %v", len(cs), calls, cs)
					}
					s.Outcome("%d", calls)
				})
				s.Case(1)
				s.Sample("%s", cas)
			}
		}
	}})
	// an interval reader's life: all histories against a model
	vh.Add(&vh.Task{Prop: "C27", Name: "histories", Shards: [2]int{8, 8}, Weight: 3, Seq: func(s *vh.S) {
		ops := []string{"start", "stop", "flush", "tick", "half", "add", "delete", "interval 2s", "interval 0", "interval 999ms", "slow", "long"}
		s.Seqs(len(ops), s.Pick(4, 5), func(seq []int) {
			cas := ""
			for _, l := range seq {
				cas += ops[l] + "; "
			}
			s.Exec(cas, func() {
				vsched.Reinit()
				internal.LocalSpanStoreEnabled = false
				e := &mexp{}
				ir, err := metricexport.NewIntervalReader(metricexport.NewReader(), e)
				if err != nil || ir == nil {
					s.Failf(cas, "%v", err)
					return
				}
				p, q := &mprod{name: "p", n: 1}, &mprod{name: "q", n: 2}
				metricproducer.GlobalManager().AddProducer(p)
				running := false
				var period, next int64 // of the running loop
				prods := "p0"
				var want []string // at which time, what
				iv := int64(60 * time.Second)
				pass := func(at int64) { want = append(want, fmt.Sprintf("%d:%s", at, prods)) }
				adv := func(d int64) {
					end := vsched.Now() + d
					for running && next <= end {
						// not a moment before
						vsched.Advance(next - vsched.Now() - 1)
						vsched.Idle()
						if cs, _ := expCalls(); len(cs) != len(want) {
							s.Failf(cas, "%d passes before %d: %d", len(cs), next, len(want))
						}
						pass(next)
						vsched.Advance(next - vsched.Now())
						vsched.Idle()
						next += period
					}
					vsched.Advance(end - vsched.Now())
					vsched.Idle()
				}
				for i, l := range seq {
					switch ops[l] {
					case "start":
						err := ir.Start()
						if (err != nil) != (running || iv < int64(time.Second)) {
							s.Failf(cas, "step %d: start gives %v", i, err)
						}
						if err == nil {
							running, period = true, iv
							next = vsched.Now() + iv
						}
					case "stop":
						ir.Stop()
						running = false
					case "flush":
						if !running {
							pass(vsched.Now())
						}
						ir.Flush()
					case "tick":
						p := period
						if !running {
							p = int64(2 * time.Second)
						}
						adv(p)
					case "half":
						adv(int64(time.Second))
					case "add":
						metricproducer.GlobalManager().AddProducer(q)
						prods = "p0,q0,q1"
					case "delete":
						metricproducer.GlobalManager().DeleteProducer(q)
						prods = "p0"
					case "interval 2s":
						ir.ReportingInterval = 2 * time.Second
						iv = int64(2 * time.Second)
					case "interval 0":
						ir.ReportingInterval = 0
						iv = int64(60 * time.Second)
					case "interval 999ms":
						ir.ReportingInterval = 999 * time.Millisecond
						iv = int64(999 * time.Millisecond)
					case "slow":
						e.err = errors.New("refused")
					case "long":
						adv(int64(120 * time.Second))
					}
					vsched.Idle()
					cs, _ := expCalls()
					var got []string
					for _, c := range cs {
						got = append(got, fmt.Sprintf("%d:%s", c.at, c.names))
						if !c.spanned {
							s.Failf(cas, "step %d: no span in the context", i)
						}
					}
					if fmt.Sprint(got) != fmt.Sprint(want) {
						s.Failf(cas, "step %d: passes %v, want %v", i, got, want)
					}
				}
				ir.Stop()
				running = false
				adv(int64(200 * time.Second))
				if cs, _ := expCalls(); len(cs) != len(want) {
					// adv counted passes only while running; none may have come after stopping
					s.Failf(cas, "passes after stopping")
				}
				s.Outcome("%v", want)
			})
			s.Case(len(seq))
			s.Sample("%s", cas)
		})
		s.Guard("bad arguments", func() {
			var nilIR *metricexport.IntervalReader
			if nilIR.Start() == nil {
				s.Failf("bad arguments", "a nil reader starts")
			}
			nilIR.Stop()
			if r, err := metricexport.NewIntervalReader(nil, &mexp{}); r != nil || err == nil {
				s.Failf("bad arguments", "no reader: %v %v", r, err)
			}
			if r, err := metricexport.NewIntervalReader(metricexport.NewReader(), nil); r != nil || err == nil {
				s.Failf("bad arguments", "no exporter: %v %v", r, err)
			}
		})
	}})
	// racing calls
	races := func(name string, progs [][]string, tier int) {
		vh.Add(&vh.Task{Prop: "C27", Name: name, Tier: tier, Race: true, Bound: [2]int{2, 4}, Shards: [2]int{8, 8}, MaxSteps: 2000, Body: func() {
			vsched.Reinit()
			internal.LocalSpanStoreEnabled = false
			e := &mexp{yield: true}
			ir, _ := metricexport.NewIntervalReader(metricexport.NewReader(), e)
			ir.ReportingInterval = 2 * time.Second
			p := &mprod{name: "p", n: 1}
			metricproducer.GlobalManager().AddProducer(p)
			started := vsched.Choose(2, "started before") == 1
			i := vsched.Choose(len(progs), "program 1")
			j := i + vsched.Choose(len(progs)-i, "program 2")
			if started {
				if err := ir.Start(); err != nil {
					vsched.Failf("%v", err)
				}
			}
			vsched.Explore(true)
			type call struct {
				op       string
				from, to int64
				err      error
			}
			cs := make([][]call, 2)
			var gs []*vsched.G
			for t, pr := range [][]string{progs[i], progs[j]} {
				t, pr := t, pr
				gs = append(gs, vsched.Thread(fmt.Sprint("t", t), func() {
					for _, op := range pr {
						c := call{op: op, from: vsched.Stamp()}
						switch op {
						case "start":
							c.err = ir.Start()
						case "stop":
							ir.Stop()
						case "flush":
							ir.Flush()
						case "tick":
							vsched.Advance(int64(2 * time.Second))
						}
						c.to = vsched.Stamp()
						cs[t] = append(cs[t], c)
					}
				}))
			}
			vsched.Join(gs...)
			vsched.Explore(false)
			ir.Stop()
			stopped := vsched.Stamp()
			vsched.Advance(int64(4 * time.Second))
			vsched.Idle()
			ps, rs := expCalls()
			if len(ps) != len(rs) {
				vsched.Failf("%d exports, %d reads", len(ps), len(rs))
			}
			for k, c := range ps {
				if c.names != "p0" || !c.spanned {
					vsched.Failf("exported %q", c.names)
				}
				if c.to > stopped {
					vsched.Failf("a pass after Stop returned")
				}
				if k > 0 && c.from < ps[k-1].to {
					vsched.Failf("two passes at once")
				}
			}
			// the calls must fit some order in which at most one start succeeds between stops
			hs := []*vh.Hist[*bool]{{Thread: 0}, {Thread: 1}}
			flushes := 0
			for t := range cs {
				for _, c := range cs[t] {
					c := c
					ap := func(m *bool) bool { return true }
					switch c.op {
					case "start":
						ap = func(m *bool) bool {
							if *m != (c.err != nil) {
								return false
							}
							*m = true
							return true
						}
					case "stop":
						ap = func(m *bool) bool { *m = false; return true }
					case "flush", "tick":
						flushes++
					}
					hs[t].Ops = append(hs[t].Ops, vh.LinOp[*bool]{Thread: t, Inv: c.from, Res: c.to, Name: fmt.Sprint(c.op, c.err), Apply: ap})
				}
			}
			if !vh.Linearizable(&started, func(b *bool) *bool { c := *b; return &c }, nil, hs...) {
				vsched.Failf("no order explains %s", vh.HistString(hs...))
			}
			if len(ps) > flushes {
				vsched.Failf("%d passes for %d ticks and flushes", len(ps), flushes)
			}
			vsched.Outcome("%v %d %d: %d passes", started, i, j, len(ps))
		}})
	}
	progs := [][]string{{"start", "stop"}, {"tick", "stop"}, {"flush", "tick"}, {"stop", "start"}, {"tick", "flush"}, {"start", "tick"}}
	races("races", progs[:3], 0)
	races("more-races", progs, 1)
}

type fnMetricExporter struct {
	f func(ctx context.Context, ms []*metricdata.Metric) error
}

func (e *fnMetricExporter) ExportMetrics(ctx context.Context, ms []*metricdata.Metric) error {
	return e.f(ctx, ms)
}
