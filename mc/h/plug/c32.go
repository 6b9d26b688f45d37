package main

import (
	"context"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/plugin/ocgrpc"
	"go.opencensus.io/tag"
	"go.opencensus.io/trace"
	"go.opencensus.io/trace/propagation"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/stats"
)

// tagsOf renders the tags of a context, looked up by key.
func tagsOf(ctx context.Context, keys ...string) string {
	m := tag.FromContext(ctx)
	if m == nil {
		return ""
	}
	kv := map[string]string{}
	for _, k := range keys {
		if v, ok := m.Value(tag.MustNewKey(k)); ok {
			kv[k] = "=" + v
		}
	}
	s := tagStr(kv)
	if n := strings.Count(s, "="); n/2 != len(kv) {
		vsched.Failf("rendering %q", s)
	}
	// and nothing else
	x := m.String()
	c, depth := 0, 0
	for _, r := range x {
		switch r {
		case '{':
			if depth++; depth == 2 {
				c++
			}
		case '}':
			depth--
		}
	}
	if c != len(kv) {
		vsched.Failf("tags %s, expected only %v among %v", x, kv, keys)
	}
	return s
}

// carry turns the outgoing side of a context into the incoming side of a fresh one, like the transport.
func carry(ctx context.Context) context.Context {
	in := context.WithValue(bg, ctxKey{}, "server")
	if md, ok := metadata.FromOutgoingContext(ctx); ok {
		m := metadata.MD{}
		for k, v := range md {
			m[strings.ToLower(k)] = append([]string(nil), v...)
		}
		in = metadata.NewIncomingContext(in, m)
	}
	if b := stats.OutgoingTags(ctx); b != nil {
		in = stats.SetIncomingTags(in, append([]byte(nil), b...))
	}
	return in
}

func init() {
	ks := []string{"a", "b", "grpc_server_method", "grpc_client_method"}
	setup := func(def trace.Sampler) *spanLog {
		vsched.Reinit()
		trace.ApplyConfig(trace.Config{DefaultSampler: def, IDGenerator: stampIDs{}})
		l := &spanLog{}
		trace.RegisterExporter(l)
		return l
	}
	type tg struct {
		k, v string
		no   bool
	}
	tagSets := [][]tg{nil, {}, {{"a", "1", false}}, {{"a", "1", true}}, {{"a", "1", false}, {"b", "", true}}, {{"a", "", false}, {"b", "2", false}},
		{{"grpc_server_method", "other", false}, {"a", "x", false}}, {{"grpc_client_method", "c", true}, {"b", strings.Repeat("v", 255), false}}}
	mds := []metadata.MD{nil, {}, {"k": {"v1", "v2"}}, {"k": {"v"}, "grpc-trace-other": {"x"}, "x-bin": {"\x00\xff"}}}
	vh.Add(&vh.Task{Prop: "C32", Name: "roundtrip", Shards: [2]int{8, 8}, Weight: 3, Seq: func(s *vh.S) {
		for ti, ts := range tagSets {
			for mi, md := range mds {
				for par := 0; par < 3; par++ { // no local span, sampled, unsampled
					for copt := 0; copt < 3; copt++ {
						for sopt := 0; sopt < 3; sopt++ {
							for _, public := range []bool{false, true} {
								for def := 0; def < 2; def++ {
									for hop := 0; hop < 2; hop++ { // 1: the client runs in a server's context
										if !s.Mine() {
											continue
										}
										if s.Stop() {
											return
										}
										name := fmt.Sprintf("tags %d metadata %d parent %d client sampler %d server sampler %d public %v default %d hop %d", ti, mi, par, copt, sopt, public, def, hop)
										s.Exec(name, func() {
											defS := trace.ProbabilitySampler(0)
											if def == 1 {
												defS = trace.ProbabilitySampler(1)
											}
											l := setup(defS)
											samplers := []trace.Sampler{nil, trace.AlwaysSample(), trace.NeverSample()}
											ch := &ocgrpc.ClientHandler{StartOptions: trace.StartOptions{Sampler: samplers[copt], SpanKind: trace.SpanKindServer}}
											sh := &ocgrpc.ServerHandler{IsPublicEndpoint: public, StartOptions: trace.StartOptions{Sampler: samplers[sopt], SpanKind: trace.SpanKindClient}}
											want := map[string]string{}
											ctx := context.WithValue(bg, ctxKey{}, "client")
											if hop == 1 { // incoming data of the earlier hop must not leak into the next
												ctx = metadata.NewIncomingContext(ctx, metadata.Pairs("grpc-trace-bin", string(propagation.Binary(trace.SpanContext{TraceID: trace.TraceID{9}, SpanID: trace.SpanID{9}, TraceOptions: 1}))))
												ctx = stats.SetIncomingTags(ctx, []byte{0, 0, 1, 'b', 1, 'z'})
											}
											if ts != nil {
												var muts []tag.Mutator
												for _, t := range ts {
													ttl := tag.WithTTL(tag.TTLUnlimitedPropagation)
													if t.no {
														ttl = tag.WithTTL(tag.TTLNoPropagation)
													} else {
														want[t.k] = "=" + t.v
													}
													muts = append(muts, tag.Insert(tag.MustNewKey(t.k), t.v, ttl))
												}
												ctx, _ = tag.New(ctx, muts...)
											}
											if md != nil {
												ctx = metadata.NewOutgoingContext(ctx, md.Copy())
											}
											var parent *trace.Span
											sampled := def == 1
											switch par {
											case 1:
												ctx, parent = trace.StartSpan(ctx, "p", trace.WithSampler(trace.AlwaysSample()))
												sampled = true
											case 2:
												ctx, parent = trace.StartSpan(ctx, "p", trace.WithSampler(trace.NeverSample()))
												sampled = false
											}
											if copt > 0 {
												sampled = copt == 1
											}
											cctx := ch.TagRPC(ctx, &stats.RPCTagInfo{FullMethodName: "/s/m"})
											csp := trace.FromContext(cctx).SpanContext()
											if parent != nil && csp.TraceID != parent.SpanContext().TraceID || csp.IsSampled() != sampled {
												vsched.Failf("client span %v", csp)
											}
											if cctx.Value(ctxKey{}) != "client" {
												vsched.Failf("context values lost")
											}
											// the caller's tags and metadata are still there
											if tag.FromContext(cctx) != tag.FromContext(ctx) {
												vsched.Failf("the client context's tags changed")
											}
											omd, _ := metadata.FromOutgoingContext(cctx)
											for k, v := range md {
												if !reflect.DeepEqual(omd[k], v) {
													vsched.Failf("metadata %s is %q, was %q", k, omd[k], v)
												}
											}
											if len(omd) != len(md)+1 || len(omd["grpc-trace-bin"]) != 1 {
												vsched.Failf("outgoing metadata %v", omd)
											}
											if amd, _ := metadata.FromOutgoingContext(ctx); len(amd) != len(md) {
												vsched.Failf("the caller's context was changed: %v", amd)
											}
											in := carry(cctx)
											sctx := sh.TagRPC(in, &stats.RPCTagInfo{FullMethodName: "/s/m"})
											ssp := trace.FromContext(sctx)
											if ssp == nil {
												vsched.Failf("no server span")
											}
											sc := ssp.SpanContext()
											ssampled := sampled || def == 1
											if public {
												ssampled = def == 1
											}
											if sopt > 0 {
												ssampled = sopt == 1
											}
											if sc.IsSampled() != ssampled {
												vsched.Failf("server span sampled %v, want %v", sc.IsSampled(), ssampled)
											}
											if (sc.TraceID == csp.TraceID) == public {
												vsched.Failf("server span %v, client span %v, public %v", sc, csp, public)
											}
											if sctx.Value(ctxKey{}) != "server" {
												vsched.Failf("context values lost")
											}
											want["grpc_server_method"] = "=s/m"
											if g, w := tagsOf(sctx, ks...), tagStr(want); g != w {
												vsched.Failf("server tags %s, want %s", g, w)
											}
											// end both: the exported spans tell the relation
											sh.HandleRPC(sctx, &stats.End{})
											ch.HandleRPC(cctx, &stats.End{Client: true})
											n := 0
											if sampled {
												n++
											}
											if ssampled {
												n++
											}
											if len(l.got) != n {
												vsched.Failf("%d spans exported, want %d", len(l.got), n)
											}
											for _, d := range l.got {
												ln := ""
												for _, k := range d.Links {
													ln += fmt.Sprintf("%d:%s/%s ", k.Type, k.TraceID, k.SpanID)
												}
												if d.SpanContext.SpanID == sc.SpanID {
													wp, wl := csp.SpanID, ""
													if public {
														wp, wl = trace.SpanID{}, fmt.Sprintf("%d:%s/%s ", trace.LinkTypeParent, csp.TraceID, csp.SpanID)
													}
													if d.ParentSpanID != wp || d.HasRemoteParent == public || ln != wl || d.SpanKind != trace.SpanKindServer || d.Name != "s.m" {
														vsched.Failf("server span %s, want parent %s links %s", spanOf(d), wp, wl)
													}
												} else if d.SpanKind != trace.SpanKindClient || d.HasRemoteParent || ln != "" || parent != nil && d.ParentSpanID != parent.SpanContext().SpanID || parent == nil && d.ParentSpanID != (trace.SpanID{}) {
													vsched.Failf("client span %s", spanOf(d))
												}
											}
											s.Outcome("%v %v %d tags", sampled, ssampled, len(want))
										})
										s.Case(1)
									}
								}
							}
						}
					}
				}
			}
		}
	}})

	// whatever arrives on the wire
	type wire struct {
		tr   []string // values of grpc-trace-bin; nil: none
		tags []byte
		name string
	}
	run := func(s *vh.S, w wire) {
		s.Exec(w.name, func() {
			l := setup(trace.AlwaysSample())
			ctx := context.Context(context.WithValue(bg, ctxKey{}, "v"))
			ctx, _ = tag.New(ctx, tag.Insert(tag.MustNewKey("ambient"), "x"))
			if w.tr != nil {
				ctx = metadata.NewIncomingContext(ctx, metadata.MD{"grpc-trace-bin": w.tr, "other": {"y"}})
			}
			if w.tags != nil {
				ctx = stats.SetIncomingTags(ctx, w.tags)
			}
			for _, public := range []bool{false, true} {
				h := &ocgrpc.ServerHandler{IsPublicEndpoint: public}
				l.got = nil
				sctx := h.TagRPC(ctx, &stats.RPCTagInfo{FullMethodName: "/s/m"})
				h.HandleRPC(sctx, &stats.Begin{})
				h.HandleRPC(sctx, &stats.End{})
				if len(l.got) != 1 {
					vsched.Failf("%d spans", len(l.got))
				}
				d := l.got[0]
				var parent trace.SpanContext
				ok := false
				if len(w.tr) > 0 {
					parent, ok = propagation.FromBinary([]byte(w.tr[0]))
				}
				root := d.ParentSpanID == (trace.SpanID{}) && !d.HasRemoteParent
				if ok && parent == (trace.SpanContext{}) {
					// no span has this context; the library reads it as "no parent"
				} else if ok && !public {
					if d.ParentSpanID != parent.SpanID || d.TraceID != parent.TraceID || !d.HasRemoteParent || len(d.Links) != 0 {
						vsched.Failf("span %s, want child of %v", spanOf(d), parent)
					}
				} else {
					if !root || (len(d.Links) == 1) != ok {
						vsched.Failf("span %s, want a fresh root", spanOf(d))
					}
					if ok && (d.Links[0].TraceID != parent.TraceID || d.Links[0].SpanID != parent.SpanID) {
						vsched.Failf("span %s, want a link to %v", spanOf(d), parent)
					}
				}
				got := tag.FromContext(sctx)
				if v, _ := got.Value(ocgrpc.KeyServerMethod); v != "s/m" {
					vsched.Failf("server method tag %q", v)
				}
				ref := bg
				if w.tags != nil {
					if m, err := tag.Decode(w.tags); err == nil {
						ref = tag.NewContext(ref, m)
					}
				}
				ref, err := tag.New(ref, tag.Upsert(ocgrpc.KeyServerMethod, "s/m"))
				if err != nil {
					vsched.Failf("%v", err)
				}
				if g, r := got.String(), tag.FromContext(ref).String(); g != r {
					vsched.Failf("server tags %s, want %s", g, r)
				}
				s.Outcome("parent %v tags %s", ok, got)
			}
		})
		s.Case(2)
	}
	vh.Add(&vh.Task{Prop: "C32", Name: "wire", Shards: [2]int{8, 8}, Seq: func(s *vh.S) {
		sc := trace.SpanContext{TraceID: trace.TraceID{1, 15: 2}, SpanID: trace.SpanID{3, 7: 4}, TraceOptions: 1}
		bin := string(propagation.Binary(sc))
		tags := []byte{0, 0, 1, 'a', 2, 'x', 'y', 0, 1, 'b', 0}
		var ws []wire
		trs := [][]string{nil, {}, {""}, {bin}, {bin, "junk"}, {"junk", bin}, {bin + "extra"}, {strings.Repeat("\x00", 29)}, {string(propagation.Binary(trace.SpanContext{}))}}
		tgs := [][]byte{nil, {}, {0}, {1}, tags, {0, 0, 1, 'a'}, {0, 0, 5, 'a'}, {0, 7}, []byte("garbage"), {0, 0, 0, 0}, {0, 0, 1, 'a', 1, 7}, {0, 0, 1, 'a', 0xff, 0xff, 0xff, 0xff, 0x0f}}
		for i, t := range trs {
			for j, g := range tgs {
				ws = append(ws, wire{t, g, fmt.Sprintf("trace %d tags %d", i, j)})
			}
		}
		for n := 0; n <= len(bin); n++ {
			ws = append(ws, wire{[]string{bin[:n]}, nil, fmt.Sprintf("trace cut at %d", n)})
		}
		for n := 0; n <= len(tags); n++ {
			ws = append(ws, wire{nil, tags[:n:n], fmt.Sprintf("tags cut at %d", n)})
		}
		for i := range bin {
			for c := 0; c < 256; c++ {
				b := []byte(bin)
				b[i] = byte(c)
				ws = append(ws, wire{[]string{string(b)}, nil, fmt.Sprintf("trace byte %d = %d", i, c)})
			}
		}
		for i := range tags {
			for c := 0; c < 256; c++ {
				b := append([]byte(nil), tags...)
				b[i] = byte(c)
				ws = append(ws, wire{nil, b, fmt.Sprintf("tags byte %d = %d", i, c)})
			}
		}
		if s.Thorough {
			for i := range tags {
				for j := 0; j < i; j++ {
					for _, c := range []byte{0, 1, 2, 5, 9, 11, 'a', 127, 128, 255} {
						for _, e := range []byte{0, 1, 2, 5, 9, 11, 'a', 127, 128, 255} {
							b := append([]byte(nil), tags...)
							b[i], b[j] = c, e
							ws = append(ws, wire{nil, b, fmt.Sprintf("tags bytes %d,%d = %d,%d", i, j, c, e)})
						}
					}
				}
			}
		}
		sort.SliceStable(ws, func(i, j int) bool { return len(ws[i].name) < len(ws[j].name) })
		for _, w := range ws {
			if !s.Mine() {
				continue
			}
			if s.Stop() {
				return
			}
			run(s, w)
		}
	}})

	// concurrent RPCs derived from one context
	vh.Add(&vh.Task{Prop: "C32", Name: "concurrent", Race: true, Bound: [2]int{99, 99}, Shards: [2]int{8, 8}, Body: func() {
		l := setup(trace.AlwaysSample())
		trace.UnregisterExporter(l)
		trace.RegisterExporter(freeLog{})
		ctx, err := tag.New(bg, tag.Insert(tag.MustNewKey("a"), "1"), tag.Insert(tag.MustNewKey("b"), "2", tag.WithTTL(tag.TTLNoPropagation)))
		if err != nil {
			vsched.Failf("%v", err)
		}
		ctx = metadata.NewOutgoingContext(ctx, metadata.Pairs("k", "v"))
		ctx, _ = trace.StartSpan(ctx, "p")
		ch, sh := &ocgrpc.ClientHandler{}, &ocgrpc.ServerHandler{}
		vsched.Explore(true)
		var gs []*vsched.G
		for i := 0; i < 2; i++ {
			i := i
			gs = append(gs, vsched.Thread(fmt.Sprint("rpc", i), func() {
				m := fmt.Sprint("/s/", i)
				c := ch.TagRPC(ctx, &stats.RPCTagInfo{FullMethodName: m})
				ch.HandleRPC(c, &stats.Begin{Client: true})
				sc := sh.TagRPC(carry(c), &stats.RPCTagInfo{FullMethodName: m})
				sh.HandleRPC(sc, &stats.Begin{})
				if g, w := tagsOf(sc, ks...), tagStr(map[string]string{"a": "=1", "grpc_server_method": "=" + m[1:]}); g != w {
					vsched.Failf("tags %s, want %s", g, w)
				}
				a, b := trace.FromContext(c).SpanContext(), trace.FromContext(sc).SpanContext()
				if a.TraceID != b.TraceID || a.SpanID == b.SpanID {
					vsched.Failf("spans %v %v", a, b)
				}
				if md, _ := metadata.FromOutgoingContext(c); len(md) != 2 || len(md["grpc-trace-bin"]) != 1 {
					vsched.Failf("metadata %v", md)
				}
				sh.HandleRPC(sc, &stats.End{})
				ch.HandleRPC(c, &stats.End{Client: true})
			}))
		}
		vsched.Join(gs...)
	}})
}
