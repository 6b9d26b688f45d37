package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"sort"

	"go.opencensus.io/internal"
	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/trace"
)

// threshold is the documented bound: floor(fraction * 2^63).
func threshold(f float64) uint64 {
	if !(f > 0) {
		return 0
	}
	if f >= 1 {
		return 1 << 63
	}
	b := new(big.Float).SetPrec(200).SetFloat64(f)
	b.SetMantExp(b, 63)
	u, _ := b.Uint64()
	return u
}

func tidOf(x uint64, low bool, rest byte) (t trace.TraceID) {
	x <<= 1
	if low {
		x |= 1
	}
	binary.BigEndian.PutUint64(t[:8], x)
	t[8], t[15] = rest, rest
	return
}

func init() {
	fracs := []float64{math.NaN(), math.Inf(-1), -1, -1e-300, math.Copysign(0, -1), 0, math.SmallestNonzeroFloat64, 1e-300, 1e-20, math.Ldexp(1, -64), math.Ldexp(1, -63), math.Ldexp(1.5, -63), math.Ldexp(1, -62), 1e-18, 1e-10, 1e-4, 0.001, 0.1, 0.25, 1.0 / 3,
		math.Nextafter(0.5, 0), 0.5, math.Nextafter(0.5, 1), 0.7, 0.75, 0.99, math.Nextafter(1, 0), 1, math.Nextafter(1, 2), 1.5, 2, 1e300, math.Inf(1)}
	vh.Add(&vh.Task{Prop: "C17", Name: "decisions", Shards: [2]int{2, 8}, Seq: func(s *vh.S) {
		for i := 0; i < s.Pick(64, 1000); i++ {
			fracs = append(fracs, float64(i)/float64(s.Pick(64, 1000)))
		}
		for e := 2; e <= 70; e++ {
			fracs = append(fracs, math.Ldexp(1, -e), math.Ldexp(1.25, -e), 1-math.Ldexp(1, -e))
		}
		xs := map[uint64]bool{0: true, 1: true, 2: true, 1<<63 - 1: true, 1<<63 - 2: true, 1 << 62: true, 1<<62 - 1: true, 0x00ff00ff00ff00ff: true}
		for _, f := range fracs {
			t := threshold(f)
			for d := uint64(0); d < 4; d++ {
				if t+d < 1<<63 {
					xs[t+d] = true
				}
				if t >= d {
					xs[t-d] = true
				}
			}
		}
		for i := 0; i < 63; i++ {
			xs[1<<uint(i)] = true
		}
		delete(xs, 1<<63)
		var list []uint64
		for x := range xs {
			list = append(list, x)
		}
		sort.Slice(list, func(i, j int) bool { return list[i] < list[j] })
		for _, f := range fracs {
			smp := trace.ProbabilitySampler(f)
			if !s.Mine() || s.Stop() {
				continue
			}
			th := threshold(f)
			for _, x := range list {
				want := x < th
				for v := 0; v < 4; v++ {
					p := trace.SamplingParameters{TraceID: tidOf(x, v&1 == 1, byte(v*85))}
					switch v {
					case 1:
						p.SpanID, p.Name, p.HasRemoteParent = trace.SpanID{255, 7: 255}, "x", true
					case 2:
						p.ParentContext = trace.SpanContext{TraceID: p.TraceID, SpanID: trace.SpanID{1}, TraceOptions: 6, Tracestate: nil}
					case 3:
						p.ParentContext = trace.SpanContext{TraceID: trace.TraceID{1}, SpanID: trace.SpanID{1}}
						p.HasRemoteParent = true
					}
					cas := fmt.Sprintf("fraction %v trace id %s variant %d", f, p.TraceID, v)
					for k := 0; k < 2; k++ {
						if got := smp(p).Sample; got != want {
							s.Failf(cas, "sampled %v, want %v (threshold %d)", got, want, th)
						}
					}
					for _, o := range []trace.TraceOptions{1, 7} {
						p.ParentContext.TraceOptions = o
						if !smp(p).Sample {
							s.Failf(cas, "sampled parent, not sampled")
						}
					}
					if !trace.AlwaysSample()(p).Sample || trace.NeverSample()(p).Sample {
						s.Failf(cas, "always/never")
					}
				}
				s.Case(8)
			}
			s.Outcome("threshold %d", th)
			s.Sample("fraction %v: threshold %d over %d trace ids", f, th, len(list))
		}
		// a larger fraction samples everything a smaller one does
		sort.Float64s(fracs)
		for _, x := range list {
			if !s.Mine() || s.Stop() {
				continue
			}
			was := false
			for i, f := range fracs {
				got := trace.ProbabilitySampler(f)(trace.SamplingParameters{TraceID: tidOf(x, false, 0)}).Sample
				if was && !got {
					s.Failf(fmt.Sprint(x), "sampled at %v but not at %v", fracs[i-1], f)
				}
				was = got
			}
			s.Case(len(fracs))
		}
	}})
	// the sampler decides through real spans, and the default is the documented probability
	vh.Add(&vh.Task{Prop: "C17", Name: "spans", Seq: func(s *vh.S) {
		for _, f := range append([]float64{-2}, fracs...) {
			t := threshold(f)
			if f == -2 {
				t = threshold(1e-4)
			}
			for d := -2; d <= 2; d++ {
				x := t + uint64(d)
				if x >= 1<<63 {
					continue
				}
				for v := 0; v < 4; v++ {
					cas := fmt.Sprint(f, " ", x, " ", v)
					s.Exec(cas, func() {
						vsched.Reinit()
						internal.LocalSpanStoreEnabled = false
						cfg := trace.Config{IDGenerator: fixedID(tidOf(x, v == 1, 1))}
						if f != -2 {
							cfg.DefaultSampler = trace.ProbabilitySampler(f)
						}
						trace.ApplyConfig(cfg)
						parent := trace.SpanContext{TraceID: tidOf(x, v == 1, 1), SpanID: trace.SpanID{9}}
						want := x < t
						var sp *trace.Span
						switch v {
						case 0, 1:
							_, sp = trace.StartSpan(bg, "x")
						case 2:
							_, sp = trace.StartSpanWithRemoteParent(bg, "x", parent)
						case 3:
							parent.TraceOptions = 1
							want = true
							_, sp = trace.StartSpanWithRemoteParent(bg, "x", parent)
						}
						if f == -2 && cfg.DefaultSampler != nil {
							vsched.Harnessf("setup")
						}
						if sp.SpanContext().IsSampled() != want {
							vsched.Failf("sampled %v, want %v", sp.SpanContext().IsSampled(), want)
						}
					})
					s.Case(1)
					s.Outcome(cas)
				}
			}
		}
	}})
}

type fixedID trace.TraceID

func (f fixedID) NewTraceID() [16]byte { return f }
func (f fixedID) NewSpanID() [8]byte   { return [8]byte{1} }
