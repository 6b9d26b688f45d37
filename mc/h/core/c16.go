package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"

	"go.opencensus.io/internal"
	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/trace"
)

// stream serves randomness from a list of words, then a counter.
func stream(words []uint64) func(b []byte) {
	pos := 0
	return func(b []byte) {
		for i := range b {
			w := uint64(0x0123456789abcdef) * uint64(pos/8)
			if pos/8 < len(words) {
				w = words[pos/8]
			}
			b[i] = byte(w >> uint(8*(pos%8)))
			pos++
		}
	}
}

func checkIDs(scs []trace.SpanContext, roots int) {
	sp, tr := map[trace.SpanID]bool{}, map[trace.TraceID]bool{}
	for _, c := range scs {
		if c.SpanID == (trace.SpanID{}) || c.TraceID == (trace.TraceID{}) {
			vsched.Failf("zero identifier in %s/%s", c.TraceID, c.SpanID)
		}
		if sp[c.SpanID] {
			vsched.Failf("span id %s given twice", c.SpanID)
		}
		sp[c.SpanID] = true
		tr[c.TraceID] = true
	}
	if len(tr) != roots {
		vsched.Failf("%d trace ids for %d root spans", len(tr), roots)
	}
}

func init() {
	words := []uint64{0, 1, 2, 3, 1 << 63, 1<<63 + 1, math.MaxUint64, math.MaxUint64 - 1, 0x5555555555555555}
	vh.Add(&vh.Task{Prop: "C16", Name: "seeds", Shards: [2]int{8, 8}, Weight: 2, Seq: func(s *vh.S) {
		one := func(ws []uint64, n int) {
			cas := fmt.Sprintf("%x", ws)
			s.Exec(cas, func() {
				vsched.Reinit()
				internal.LocalSpanStoreEnabled = false
				vsched.SetRand(stream(ws))
				var scs []trace.SpanContext
				roots := 0
				for i := 0; i < n; i++ {
					ctx, a := trace.StartSpan(bg, "r")
					_, b := trace.StartSpan(ctx, "c")
					_, c := trace.StartSpanWithRemoteParent(bg, "c", a.SpanContext())
					scs = append(scs, a.SpanContext(), b.SpanContext(), c.SpanContext())
					roots++
				}
				checkIDs(scs, roots)
				s.Outcome("%s/%s", scs[0].TraceID, scs[0].SpanID)
			})
			s.Case(3 * n)
			s.Sample("%s", cas)
		}
		s.Seqs(len(words), 5, func(seq []int) {
			ws := make([]uint64, 5)
			for i, l := range seq {
				ws[i] = words[l]
			}
			one(ws, s.Pick(3, 8))
		})
		// span sequences that wrap past zero after k steps, and trace ids that come out as zero
		for _, seed := range words {
			for k := 1; k <= 8; k++ {
				for _, inc := range words {
					i := inc | 1
					for _, z := range []uint64{0, 1, 2} {
						r := rand.New(rand.NewSource(int64(seed)))
						var a, b uint64
						for j := uint64(0); j <= z; j++ {
							a, b = r.Uint64(), r.Uint64()
						}
						if s.Mine() && !s.Stop() {
							one([]uint64{seed, -a, -b, -(i * uint64(k)), inc}, 8)
							one([]uint64{seed, -a, 5, -(i * uint64(k)), inc}, 8)
						}
					}
				}
			}
		}
	}})
	vh.Add(&vh.Task{Prop: "C16", Name: "long-runs", Seq: func(s *vh.S) {
		for _, ws := range [][]uint64{{0, 0, 0, 0, 0}, {1, 2, 3, math.MaxUint64 - 100, 1}, {7, 0, 0, 0, math.MaxUint64}, {7, 0, 0, 1 << 63, 1<<63 + 1}, {9, 9, 9, 255, 0x0101010101010101}} {
			s.Exec(fmt.Sprint(ws), func() {
				vsched.Reinit()
				internal.LocalSpanStoreEnabled = false
				vsched.SetRand(stream(ws))
				var scs []trace.SpanContext
				n := s.Pick(20000, 400000)
				for i := 0; i < n; i++ {
					_, a := trace.StartSpan(bg, "r")
					scs = append(scs, a.SpanContext())
				}
				checkIDs(scs, n)
			})
			s.Case(1)
			s.Outcome("%v", ws)
		}
	}})
	// first use from several goroutines at once
	vh.Add(&vh.Task{Prop: "C16", Name: "concurrent-starts", Race: true, Bound: [2]int{4, 99}, Shards: [2]int{8, 8}, Body: func() {
		vsched.Reinit()
		internal.LocalSpanStoreEnabled = false
		vsched.SetRand(stream([]uint64{3, 5, 9, math.MaxUint64 - 3, 1}))
		vsched.Explore(true)
		scs := make([][]trace.SpanContext, 3)
		var gs []*vsched.G
		for i := range scs {
			i := i
			gs = append(gs, vsched.Thread(fmt.Sprint("t", i), func() {
				ctx, a := trace.StartSpan(bg, "r")
				_, b := trace.StartSpan(ctx, "c")
				scs[i] = append(scs[i], a.SpanContext(), b.SpanContext())
			}))
		}
		vsched.Join(gs...)
		vsched.Explore(false)
		var all []trace.SpanContext
		for _, x := range scs {
			all = append(all, x...)
		}
		checkIDs(all, 3)
		vsched.Outcome("%x", scs[0][0].SpanID[0])
	}})
	// a configured generator takes over while spans are being started
	vh.Add(&vh.Task{Prop: "C16", Name: "generator-change", Race: true, Bound: [2]int{99, 99}, Shards: [2]int{8, 8}, Body: func() {
		vsched.Reinit()
		internal.LocalSpanStoreEnabled = false
		vsched.SetRand(stream([]uint64{3, 5, 9, 1 << 40, 2}))
		vsched.Explore(true)
		own := func(c trace.SpanContext) (bool, bool) {
			return binary.BigEndian.Uint64(c.TraceID[:8]) == 0, binary.BigEndian.Uint32(c.SpanID[:4]) == 0
		}
		var t1 int64 = 1 << 60
		type st struct {
			sc trace.SpanContext
			t0 int64
		}
		var got [2][]st
		gs := []*vsched.G{vsched.Thread("config", func() {
			trace.ApplyConfig(trace.Config{IDGenerator: &lockedIDs{}})
			trace.ApplyConfig(trace.Config{DefaultSampler: trace.AlwaysSample()})
			t1 = vsched.Stamp()
		})}
		for i := range got {
			i := i
			gs = append(gs, vsched.Thread(fmt.Sprint("t", i), func() {
				for k := 0; k < 2; k++ {
					t0 := vsched.Stamp()
					_, a := trace.StartSpan(bg, "r")
					got[i] = append(got[i], st{a.SpanContext(), t0})
				}
			}))
		}
		vsched.Join(gs...)
		vsched.Explore(false)
		n := 0
		var all []trace.SpanContext
		for _, g := range got {
			was := false
			for _, x := range g {
				a, b := own(x.sc)
				if a != b {
					vsched.Failf("a root span with ids %s/%s of two generators", x.sc.TraceID, x.sc.SpanID)
				}
				if x.t0 > t1 && !a || was && !a {
					vsched.Failf("span %s/%s started after the generator was configured does not use it", x.sc.TraceID, x.sc.SpanID)
				}
				was = a
				if a {
					n++
				}
				all = append(all, x.sc)
			}
		}
		checkIDs(all, 4)
		vsched.Outcome("%d", n)
	}})
	// histories of configuration changes and spans of every lineage: new
	// identifiers come from the generator configured last
	vh.Add(&vh.Task{Prop: "C16", Name: "generator-histories", Shards: [2]int{8, 8}, Seq: func(s *vh.S) {
		names := []string{"use A", "use B", "other setting", "root", "child", "remote child", "remote child of a stranger", "no remote parent", "sampled root", "end"}
		s.Seqs(len(names), s.Pick(5, 6), func(seq []int) {
			cas := ""
			for _, l := range seq {
				cas += names[l] + ", "
			}
			s.Exec(cas, func() {
				vsched.Reinit()
				internal.LocalSpanStoreEnabled = len(seq)%2 == 0
				vsched.SetRand(stream([]uint64{3, 5, 9, 1 << 40, 2}))
				gens := []*issuer{{mark: 0xa0}, {mark: 0xb0}}
				cur := -1
				var all []trace.SpanContext
				roots := 0
				ctx := bg
				var last *trace.Span
				for i, l := range seq {
					for _, g := range gens {
						g.traces, g.spans = nil, nil
					}
					start := func(newTrace bool, c context.Context, sp *trace.Span) {
						ctx, last = c, sp
						sc := sp.SpanContext()
						for k, g := range gens {
							okT, okS := false, false
							for _, x := range g.traces {
								okT = okT || x == sc.TraceID
							}
							for _, x := range g.spans {
								okS = okS || x == sc.SpanID
							}
							if okS != (cur == k) || newTrace && okT != (cur == k) {
								s.Failf(fmt.Sprint(cas, i), "span %s/%s, generator %d in force", sc.TraceID, sc.SpanID, cur)
							}
						}
						all = append(all, sc)
						if newTrace {
							roots++
						} else {
							all[len(all)-1].TraceID = trace.TraceID{0xcc, byte(i)}
						}
					}
					var prev trace.SpanContext
					if last != nil {
						prev = last.SpanContext()
					}
					switch l {
					case 0, 1:
						trace.ApplyConfig(trace.Config{IDGenerator: gens[l]})
						cur = l
					case 2:
						trace.ApplyConfig(trace.Config{DefaultSampler: trace.AlwaysSample(), MaxLinksPerSpan: 3})
					case 3:
						c, sp := trace.StartSpan(bg, "r")
						start(true, c, sp)
					case 4:
						c, sp := trace.StartSpan(ctx, "c")
						start(last == nil, c, sp)
					case 5:
						c, sp := trace.StartSpanWithRemoteParent(bg, "x", prev)
						start(last == nil, c, sp)
					case 6:
						c, sp := trace.StartSpanWithRemoteParent(ctx, "x", trace.SpanContext{TraceID: trace.TraceID{0xdd}, SpanID: trace.SpanID{0xdd}, TraceOptions: 1})
						start(false, c, sp)
					case 7:
						c, sp := trace.StartSpanWithRemoteParent(ctx, "x", trace.SpanContext{})
						start(true, c, sp)
					case 8:
						c, sp := trace.StartSpan(bg, "r", trace.WithSampler(trace.AlwaysSample()), trace.WithSpanKind(trace.SpanKindServer))
						start(true, c, sp)
					case 9:
						last.End()
					}
				}
				seenS := []trace.SpanID{}
				for _, x := range all {
					if x.SpanID == (trace.SpanID{}) || x.TraceID == (trace.TraceID{}) {
						s.Failf(cas, "zero identifier")
					}
					for _, y := range seenS {
						if y == x.SpanID {
							s.Failf(cas, "span id %s twice", y)
						}
					}
					seenS = append(seenS, x.SpanID)
				}
				s.Outcome("%d spans, %d traces, generator %d", len(all), roots, cur)
			})
			s.Case(1)
		})
	}})
}

// issuer is an identifier generator that remembers what it issued.
type issuer struct {
	mark, n byte
	traces  []trace.TraceID
	spans   []trace.SpanID
}

func (g *issuer) NewTraceID() [16]byte {
	g.n++
	t := trace.TraceID{g.mark, 15: g.n}
	g.traces = append(g.traces, t)
	return t
}

func (g *issuer) NewSpanID() [8]byte {
	g.n++
	t := trace.SpanID{g.mark, 7: g.n}
	g.spans = append(g.spans, t)
	return t
}
