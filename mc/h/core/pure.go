package main

import (
	"bytes"
	"fmt"
	"net/http"
	"sort"
	"strings"

	sdprop "go.opencensus.io/exporter/stackdriver/propagation"
	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/plugin/ochttp/propagation/b3"
	"go.opencensus.io/plugin/ochttp/propagation/tracecontext"
	"go.opencensus.io/resource"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	hprop "go.opencensus.io/trace/propagation"
	"go.opencensus.io/trace/tracestate"
)

// Encoders and decoders are functions of their arguments: whatever was called before or is called
// at the same time, and whatever callers do to results and arguments afterwards, a call gives its
// result and results already given stay.

// pcall is a call. run makes it and returns functions that show the result now, and that overwrite
// the result's and the arguments' memory (nil: nothing can be overwritten).
type pcall struct {
	name, want string
	run        func() (show func() string, spoil func())
}

func pureTasks(prop string, calls func() []pcall, depth int) {
	vh.Add(&vh.Task{Prop: prop, Name: "any-order", Shards: [2]int{4, 8}, Seq: func(s *vh.S) {
		n := len(calls())
		// every sequence of calls; each result overwritten or kept
		s.Seqs(2*n, depth, func(seq []int) {
			cs := calls()
			cas := ""
			for _, l := range seq {
				cas += cs[l/2].name
				if l%2 == 1 {
					cas += " (then overwritten)"
				}
				cas += "; "
			}
			s.Exec(cas, func() {
				vsched.Reinit()
				type kept struct {
					show func() string
					c    pcall
				}
				var ks []kept
				for i, l := range seq {
					c := cs[l/2]
					show, spoil := c.run()
					if g := show(); g != c.want {
						vsched.Failf("call %d, %s: %s, want %s", i, c.name, g, c.want)
					}
					if l%2 == 1 && spoil != nil {
						spoil()
					} else {
						ks = append(ks, kept{show, c})
					}
					for _, k := range ks {
						if g := k.show(); g != k.c.want {
							vsched.Failf("after call %d the result of %s is %s, was %s", i, k.c.name, g, k.c.want)
						}
					}
				}
			})
			s.Case(len(seq))
			s.Outcome("%s", cs[seq[len(seq)-1]/2].want)
			s.Sample("%s", cas)
		})
	}})
	vh.Add(&vh.Task{Prop: prop, Name: "at-once", Race: true, Bound: [2]int{99, 99}, Shards: [2]int{4, 8}, Body: func() {
		vsched.Reinit()
		cs := calls()
		a, b, c := vsched.Choose(len(cs), "a"), vsched.Choose(len(cs), "b"), vsched.Choose(len(cs), "before")
		do := func(i int, s *func() string) {
			show, _ := cs[i].run()
			*s = show
			if g := show(); g != cs[i].want {
				vsched.Failf("%s: %s, want %s", cs[i].name, g, cs[i].want)
			}
		}
		var r [5]func() string
		do(c, &r[0])
		vsched.Explore(true)
		g := vsched.Thread("a", func() { do(a, &r[1]); do(b, &r[2]) })
		h := vsched.Thread("b", func() { do(b, &r[3]); do(a, &r[4]) })
		vsched.Join(g, h)
		vsched.Explore(false)
		for i, l := range []int{c, a, b, b, a} {
			if g := r[i](); g != cs[l].want {
				vsched.Failf("finally %s is %s, want %s", cs[l].name, g, cs[l].want)
			}
		}
		vsched.Outcome("%s %s", cs[a].want, cs[b].want)
	}})
}

func scramble(b []byte) func() {
	return func() {
		for i := range b {
			b[i] ^= 0x55
		}
	}
}

func scOK(sc trace.SpanContext, ok bool) string { return fmt.Sprint(scStr(sc), " ", ok) }

func hdrCalls(put func(trace.SpanContext, *http.Request), get func(*http.Request) (trace.SpanContext, bool), names []string, scs []trace.SpanContext, write func(trace.SpanContext) []string, read [][]string, refs []string) []pcall {
	var cs []pcall
	for i, sc := range scs {
		i, sc := i, sc
		cs = append(cs, pcall{fmt.Sprint("write ", i), strings.Join(write(sc), "|"), func() (func() string, func()) {
			r := &http.Request{Header: http.Header{"X": {"y"}}}
			put(sc, r)
			return func() string {
					var l []string
					for _, n := range names {
						l = append(l, strings.Join(r.Header[n], "&"))
					}
					return strings.Join(l, "|")
				}, func() {
					for _, v := range r.Header {
						for j := range v {
							v[j] = "overwritten"
						}
					}
				}
		}})
	}
	for i, h := range read {
		h := h
		cs = append(cs, pcall{fmt.Sprintf("read %q", h), refs[i], func() (func() string, func()) {
			r := &http.Request{Header: http.Header{}}
			for j, v := range h {
				if v != "" {
					r.Header[names[j]] = []string{v}
				}
			}
			sc, ok := get(r)
			return func() string { return scOK(sc, ok) }, func() {
				for _, v := range r.Header {
					v[0] = "overwritten"
				}
			}
		}})
	}
	return cs
}

func init() {
	labels := func(m map[string]string) string {
		var l []string
		for k, v := range m {
			l = append(l, k+"="+v)
		}
		sort.Strings(l)
		return strings.Join(l, ",")
	}
	scs := func() []trace.SpanContext {
		return []trace.SpanContext{
			{TraceID: trace.TraceID{1, 2, 15: 3}, SpanID: trace.SpanID{4, 7: 5}, TraceOptions: 1},
			{TraceID: trace.TraceID{0xff, 15: 0xee}, SpanID: trace.SpanID{0xdd, 7: 0xcc}},
		}
	}

	pureTasks("C11", func() []pcall {
		var cs []pcall
		for _, kv := range [][2]string{{"a", "1"}, {"a", "22"}, {"bb", "1"}, {"a1", ""}} {
			kv := kv
			enc := "\x00\x00" + string(rune(len(kv[0]))) + kv[0] + string(rune(len(kv[1]))) + kv[1]
			cs = append(cs, pcall{"encode " + kv[0] + "=" + kv[1], fmt.Sprintf("%x", enc), func() (func() string, func()) {
				ctx, err := tag.New(bg, tag.Upsert(key(kv[0]), kv[1]), tag.Upsert(key("local"), "x", tag.WithTTL(tag.TTLNoPropagation)))
				if err != nil {
					vsched.Failf("%v", err)
				}
				b := tag.Encode(tag.FromContext(ctx))
				return func() string { return fmt.Sprintf("%x", b) }, scramble(b)
			}})
			for _, cut := range []int{0, 1} {
				in := enc[:len(enc)-cut]
				want := "error"
				if cut == 0 {
					want = kv[0] + "=" + kv[1] + ";"
				}
				cs = append(cs, pcall{fmt.Sprintf("decode %x", in), want, func() (func() string, func()) {
					b := []byte(in)
					m, err := tag.Decode(b)
					show := func() string {
						if err != nil {
							return "error"
						}
						x := ""
						for _, k := range []string{"a", "bb", "a1", "local"} {
							if v, ok := m.Value(key(k)); ok {
								x += k + "=" + v + ";"
							}
						}
						return x
					}
					if g := show(); g != want {
						vsched.Failf("decoded %s, want %s", g, want)
					}
					scramble(b)() // the map does not depend on the bytes any more
					return show, nil
				}})
			}
		}
		return cs
	}, 3)

	pureTasks("C19", func() []pcall {
		var cs []pcall
		for _, sc := range append(scs(), trace.SpanContext{}) {
			sc := sc
			var enc []byte
			if sc != (trace.SpanContext{}) {
				enc = append([]byte{0, 0}, sc.TraceID[:]...)
				enc = append(append(append(enc, 1), sc.SpanID[:]...), 2, byte(sc.TraceOptions))
			}
			cs = append(cs, pcall{"encode " + scStr(sc), fmt.Sprintf("%x", enc), func() (func() string, func()) {
				b := hprop.Binary(sc)
				return func() string { return fmt.Sprintf("%x", b) }, scramble(b)
			}})
			for _, n := range []int{29, 27, 18, 17} {
				if n > len(enc) {
					continue
				}
				in := enc[:n]
				w, wok := refBinary(in)
				cs = append(cs, pcall{fmt.Sprintf("decode %x", in), scOK(w, wok), func() (func() string, func()) {
					b := append([]byte(nil), in...)
					g, ok := hprop.FromBinary(b)
					if !bytes.Equal(b, in) {
						vsched.Failf("the input was changed")
					}
					return func() string { return scOK(g, ok) }, scramble(b)
				}})
			}
		}
		return cs
	}, 3)

	pureTasks("C20", func() []pcall {
		f := &b3.HTTPFormat{}
		ss := scs()
		return hdrCalls(f.SpanContextToRequest, f.SpanContextFromRequest, []string{"X-B3-Traceid", "X-B3-Spanid", "X-B3-Sampled"}, ss,
			func(sc trace.SpanContext) []string {
				return []string{fmt.Sprintf("%x", sc.TraceID[:]), fmt.Sprintf("%x", sc.SpanID[:]), fmt.Sprint(sc.TraceOptions & 1)}
			},
			[][]string{{"ab", "cd", "1"}, {"ab", "cd", ""}, {"abc", "cd", "1"}, {"ab", "", "true"}, {"abcd", "cd", "true"}},
			[]string{
				scOK(trace.SpanContext{TraceID: trace.TraceID{15: 0xab}, SpanID: trace.SpanID{7: 0xcd}, TraceOptions: 1}, true),
				scOK(trace.SpanContext{TraceID: trace.TraceID{15: 0xab}, SpanID: trace.SpanID{7: 0xcd}}, true),
				scOK(trace.SpanContext{}, false),
				scOK(trace.SpanContext{}, false),
				scOK(trace.SpanContext{TraceID: trace.TraceID{14: 0xab, 15: 0xcd}, SpanID: trace.SpanID{7: 0xcd}, TraceOptions: 1}, true),
			})
	}, 3)

	pureTasks("C21", func() []pcall {
		f := &tracecontext.HTTPFormat{}
		ss := scs()
		ss[0].Tracestate = mkTS("k", "v", "l", "w")
		ss = append(ss, ss[1])
		ss[2].Tracestate = mkTS("m", "u")
		p := "00-0102000000000000000000000000000f-0400000000000005-01"
		sc := trace.SpanContext{TraceID: trace.TraceID{1, 2, 15: 15}, SpanID: trace.SpanID{4, 7: 5}, TraceOptions: 1}
		with := func(ts *tracestate.Tracestate) string {
			x := sc
			x.Tracestate = ts
			return scOK(x, true)
		}
		return hdrCalls(f.SpanContextToRequest, f.SpanContextFromRequest, []string{"Traceparent", "Tracestate"}, ss,
			func(sc trace.SpanContext) []string {
				var ts []string
				for _, e := range sc.Tracestate.Entries() {
					ts = append(ts, e.Key+"="+e.Value)
				}
				return []string{fmt.Sprintf("00-%x-%x-0%d", sc.TraceID[:], sc.SpanID[:], sc.TraceOptions&1), strings.Join(ts, ",")}
			},
			[][]string{{p, ""}, {p, "a=1"}, {p, "a=1,b=2"}, {p, "a=1,a=2"}, {p[:50], "a=1"}, {p, "b=2"}},
			[]string{with(nil), with(mkTS("a", "1")), with(mkTS("a", "1", "b", "2")), with(nil), scOK(trace.SpanContext{}, false), with(mkTS("b", "2"))})
	}, 3)

	pureTasks("C23", func() []pcall {
		f := &sdprop.HTTPFormat{}
		ss := scs()
		id := "0102000000000000000000000000000f"
		sc := trace.SpanContext{TraceID: trace.TraceID{1, 2, 15: 15}, SpanID: trace.SpanID{7: 10}}
		on := sc
		on.TraceOptions = 1
		return hdrCalls(f.SpanContextToRequest, f.SpanContextFromRequest, []string{"X-Cloud-Trace-Context"}, ss,
			func(sc trace.SpanContext) []string {
				n := uint64(0)
				for _, b := range sc.SpanID {
					n = n<<8 | uint64(b)
				}
				return []string{fmt.Sprintf("%x/%d;o=%d", sc.TraceID[:], n, sc.TraceOptions)}
			},
			[][]string{{id + "/10;o=1"}, {id + "/10"}, {id + "/010;o=1"}, {id + "/;o=1"}, {id}},
			[]string{scOK(on, true), scOK(sc, true), scOK(on, true), scOK(trace.SpanContext{}, false), scOK(trace.SpanContext{}, false)})
	}, 3)

	pureTasks("C22", func() []pcall {
		show := func(ts *tracestate.Tracestate, err error) string {
			if err != nil || ts == nil {
				return fmt.Sprint(err != nil, ts != nil)
			}
			return fmt.Sprint(ts.Entries())
		}
		mk := func(name string, parent []tracestate.Entry, es ...tracestate.Entry) pcall {
			want := "true false"
			ok := true
			var all []tracestate.Entry
			seen := map[string]bool{}
			for _, e := range es {
				ok = ok && tsKeyOK(e.Key) && tsValOK(e.Value) && !seen[e.Key]
				seen[e.Key] = true
				all = append(all, e)
			}
			for _, e := range parent {
				if !seen[e.Key] {
					all = append(all, e)
				}
			}
			if ok {
				want = fmt.Sprint(all)
			}
			return pcall{name, want, func() (func() string, func()) {
				var p *tracestate.Tracestate
				if parent != nil {
					var err error
					if p, err = tracestate.New(nil, append([]tracestate.Entry(nil), parent...)...); err != nil {
						vsched.Failf("parent: %v", err)
					}
				}
				in := append(make([]tracestate.Entry, 0, 8), es...)
				ts, err := tracestate.New(p, in...)
				if p != nil && fmt.Sprint(p.Entries()) != fmt.Sprint(parent) {
					vsched.Failf("the parent was changed to %v", p.Entries())
				}
				return func() string { return show(ts, err) }, func() {
					for i := range in {
						in[i] = tracestate.Entry{Key: "q", Value: "q"}
					}
				}
			}}
		}
		type e = tracestate.Entry
		return []pcall{
			// entries that read alike when key and value are joined, in one way or another
			mk("a|1A", nil, e{Key: "a", Value: "1A"}),
			mk("a1|A", nil, e{Key: "a1", Value: "A"}),
			mk("a1A|x", nil, e{Key: "a1A", Value: "x"}),
			mk("a1|Ax", nil, e{Key: "a1", Value: "Ax"}),
			mk("a|b=c", nil, e{Key: "a", Value: "b=c"}),
			mk("a=b|c", nil, e{Key: "a=b", Value: "c"}),
			mk("a|bad,", nil, e{Key: "a", Value: "bad,"}),
			mk("|a", nil, e{Key: "", Value: "a"}),
			mk("a1,b2", nil, e{Key: "a", Value: "1"}, e{Key: "b", Value: "2"}),
			mk("a1,a2", nil, e{Key: "a", Value: "1"}, e{Key: "a", Value: "2"}),
			mk("a1,b2+a3", []e{{Key: "a", Value: "1"}, {Key: "b", Value: "2"}}, e{Key: "a", Value: "3"}),
			mk("a1,b2+c3", []e{{Key: "a", Value: "1"}, {Key: "b", Value: "2"}}, e{Key: "c", Value: "3"}),
			mk("a1,b2+C", []e{{Key: "a", Value: "1"}, {Key: "b", Value: "2"}}, e{Key: "C", Value: "3"}),
		}
	}, 3)

	pureTasks("C33", func() []pcall {
		var cs []pcall
		for _, m := range []map[string]string{{"a": "1"}, {"a": "2", "b": `"`}, {}} {
			m := m
			var ks []string
			for k := range m {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for i, k := range ks {
				ks[i] = fmt.Sprintf("%s=%q", k, m[k])
			}
			enc := strings.Join(ks, ",")
			cs = append(cs, pcall{"encode " + enc, enc, func() (func() string, func()) {
				c := map[string]string{}
				for k, v := range m {
					c[k] = v
				}
				x := resource.EncodeLabels(c)
				return func() string { return x }, func() { c["a"] = "overwritten" }
			}})
			for _, in := range []string{enc, enc + " ,", " " + enc, enc + `,"`} {
				in := in
				w, ok, _ := refLabels(in)
				want := "error"
				if ok {
					want = labels(w)
				}
				cs = append(cs, pcall{"decode " + in, want, func() (func() string, func()) {
					g, err := resource.DecodeLabels(in)
					return func() string {
							if err != nil {
								return "error"
							}
							return labels(g)
						}, func() {
							if g != nil {
								g["a"] = "overwritten"
								g["x"] = "added"
							}
						}
				}})
			}
		}
		return cs
	}, 3)

	// samplers are shared by all spans; decisions depend on nothing but trace ID and parent
	pureTasks("C17", func() []pcall {
		var cs []pcall
		for _, f := range []float64{0.25, 0.75} {
			smp := trace.ProbabilitySampler(f)
			for _, x := range []uint64{threshold(0.25) - 1, threshold(0.25), threshold(0.75)} {
				for _, o := range []trace.TraceOptions{0, 1} {
					f, x, o := f, x, o
					cs = append(cs, pcall{fmt.Sprintf("fraction %v of %x, parent %d", f, x, o), fmt.Sprint(o == 1 || x < threshold(f)), func() (func() string, func()) {
						p := trace.SamplingParameters{TraceID: tidOf(x, false, 1), SpanID: trace.SpanID{1}, Name: "n"}
						if o == 1 {
							p.ParentContext = trace.SpanContext{TraceID: p.TraceID, SpanID: trace.SpanID{2}, TraceOptions: 1}
						}
						d := smp(p)
						e := trace.ProbabilitySampler(f)(p)
						return func() string {
							if d != e {
								return "unlike another sampler of this fraction"
							}
							return fmt.Sprint(d.Sample)
						}, nil
					}})
				}
			}
		}
		return cs
	}, 3)
}
