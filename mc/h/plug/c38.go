package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/http/httptest"
	"sort"
	"strconv"
	"strings"

	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/plugin/ocgrpc"
	"go.opencensus.io/plugin/ochttp"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/trace"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/stats"
	"google.golang.org/grpc/status"
)

// pview is what a predefined view shows: which quantity, by which tags, how aggregated.
type pview struct {
	v    *view.View
	name string
	of   string
	keys string
	agg  string // count, or the name of the bounds
}

var pbounds = map[string][]float64{
	"bytes": {1024, 2048, 4096, 16384, 65536, 262144, 1048576, 4194304, 16777216, 67108864, 268435456, 1073741824, 4294967296},
	"http ms": {1, 2, 3, 4, 5, 6, 8, 10, 13, 16, 20, 25, 30, 40, 50, 65, 80, 100, 130, 160, 200, 250, 300, 400, 500, 650, 800,
		1000, 2000, 5000, 10000, 20000, 50000, 100000},
	"rpc ms": {0.01, 0.05, 0.1, 0.3, 0.6, 0.8, 1, 2, 3, 4, 5, 6, 8, 10, 13, 16, 20, 25, 30, 40, 50, 65, 80, 100, 130, 160, 200, 250, 300,
		400, 500, 650, 800, 1000, 2000, 5000, 10000, 20000, 50000, 100000},
	"messages": {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536},
}

func predefined() []pview {
	const hc, hs, gc, gs = "opencensus.io/http/client/", "opencensus.io/http/server/", "grpc.io/client/", "grpc.io/server/"
	const ms = "http_client_method http_client_status"
	return []pview{
		{ochttp.ClientSentBytesDistribution, hc + "sent_bytes", "hc sent", ms, "bytes"},
		{ochttp.ClientReceivedBytesDistribution, hc + "received_bytes", "hc received", ms, "bytes"},
		{ochttp.ClientRoundtripLatencyDistribution, hc + "roundtrip_latency", "hc latency", ms, "http ms"},
		{ochttp.ClientCompletedCount, hc + "completed_count", "hc latency", ms, "count"},
		{ochttp.ClientRequestCountView, hc + "request_count", "hc started", "", "count"},
		{ochttp.ClientRequestBytesView, hc + "request_bytes", "hc sent", "", "bytes"},
		{ochttp.ClientResponseBytesView, hc + "response_bytes", "hc received", "", "bytes"},
		{ochttp.ClientLatencyView, hc + "latency", "hc latency", "", "http ms"},
		{ochttp.ClientRequestCountByMethod, hc + "request_count_by_method", "hc sent", "http.method", "count"},
		{ochttp.ClientResponseCountByStatusCode, hc + "response_count_by_status_code", "hc latency", "http.status", "count"},
		{ochttp.ServerRequestCountView, hs + "request_count", "hs started", "", "count"},
		{ochttp.ServerRequestBytesView, hs + "request_bytes", "hs received", "", "bytes"},
		{ochttp.ServerResponseBytesView, hs + "response_bytes", "hs sent", "", "bytes"},
		{ochttp.ServerLatencyView, hs + "latency", "hs latency", "", "http ms"},
		{ochttp.ServerRequestCountByMethod, hs + "request_count_by_method", "hs started", "http.method", "count"},
		{ochttp.ServerResponseCountByStatusCode, hs + "response_count_by_status_code", "hs latency", "http.status", "count"},
		{ocgrpc.ClientSentBytesPerRPCView, gc + "sent_bytes_per_rpc", "gc sent", "grpc_client_method", "bytes"},
		{ocgrpc.ClientReceivedBytesPerRPCView, gc + "received_bytes_per_rpc", "gc received", "grpc_client_method", "bytes"},
		{ocgrpc.ClientRoundtripLatencyView, gc + "roundtrip_latency", "gc latency", "grpc_client_method", "rpc ms"},
		{ocgrpc.ClientCompletedRPCsView, gc + "completed_rpcs", "gc latency", "grpc_client_method grpc_client_status", "count"},
		{ocgrpc.ClientStartedRPCsView, gc + "started_rpcs", "gc started", "grpc_client_method", "count"},
		{ocgrpc.ClientSentMessagesPerRPCView, gc + "sent_messages_per_rpc", "gc sent messages", "grpc_client_method", "messages"},
		{ocgrpc.ClientReceivedMessagesPerRPCView, gc + "received_messages_per_rpc", "gc received messages", "grpc_client_method", "messages"},
		{ocgrpc.ServerReceivedBytesPerRPCView, gs + "received_bytes_per_rpc", "gs received", "grpc_server_method", "bytes"},
		{ocgrpc.ServerSentBytesPerRPCView, gs + "sent_bytes_per_rpc", "gs sent", "grpc_server_method", "bytes"},
		{ocgrpc.ServerLatencyView, gs + "server_latency", "gs latency", "grpc_server_method", "rpc ms"},
		{ocgrpc.ServerCompletedRPCsView, gs + "completed_rpcs", "gs latency", "grpc_server_method grpc_server_status", "count"},
		{ocgrpc.ServerStartedRPCsView, gs + "started_rpcs", "gs started", "grpc_server_method", "count"},
		{ocgrpc.ServerReceivedMessagesPerRPCView, gs + "received_messages_per_rpc", "gs received messages", "grpc_server_method", "messages"},
		{ocgrpc.ServerSentMessagesPerRPCView, gs + "sent_messages_per_rpc", "gs sent messages", "grpc_server_method", "messages"},
	}
}

// plists are the lists of views that programs register.
var plists = []struct {
	what  string
	of    func() []*view.View
	names string
}{
	{"ochttp.DefaultClientViews", func() []*view.View { return ochttp.DefaultClientViews }, "opencensus.io/http/client/: request_count request_bytes response_bytes latency request_count_by_method response_count_by_status_code"},
	{"ochttp.DefaultServerViews", func() []*view.View { return ochttp.DefaultServerViews }, "opencensus.io/http/server/: request_count request_bytes response_bytes latency request_count_by_method response_count_by_status_code"},
	{"ocgrpc.DefaultClientViews", func() []*view.View { return ocgrpc.DefaultClientViews }, "grpc.io/client/: sent_bytes_per_rpc received_bytes_per_rpc roundtrip_latency completed_rpcs"},
	{"ocgrpc.DefaultServerViews", func() []*view.View { return ocgrpc.DefaultServerViews }, "grpc.io/server/: received_bytes_per_rpc sent_bytes_per_rpc server_latency completed_rpcs"},
}

// pmodel is what the views registered should show.
type pmodel struct {
	vs   []pview
	rows map[string]map[string][]float64 // view -> tags -> values
}

// pregister registers the predefined views with the given names (all if nil).
func pregister(list []*view.View, names map[string]bool) *pmodel {
	m := &pmodel{rows: map[string]map[string][]float64{}}
	var all []*view.View
	for _, p := range predefined() {
		if names == nil || names[p.name] {
			m.vs = append(m.vs, p)
			all = append(all, p.v)
		}
	}
	if list == nil {
		list = all
	}
	if err := view.Register(list...); err != nil {
		vsched.Failf("register: %v", err)
	}
	return m
}

// add notes that a quantity was seen.
func (m *pmodel) add(of string, tags map[string]string, v float64) {
	for _, p := range m.vs {
		if p.of != of {
			continue
		}
		kv := map[string]string{}
		for _, k := range strings.Fields(p.keys) {
			kv[k] = tags[k]
		}
		if m.rows[p.name] == nil {
			m.rows[p.name] = map[string][]float64{}
		}
		t := tagStr(kv)
		m.rows[p.name][t] = append(m.rows[p.name][t], v)
	}
}

func prow(tags, agg string, vs []float64) string {
	if agg == "count" {
		return fmt.Sprintf("{%s} count %d", tags, len(vs))
	}
	b := pbounds[agg]
	n := make([]int64, len(b)+1)
	mn, mx, sum := math.Inf(1), math.Inf(-1), 0.0
	for _, v := range vs {
		i := 0
		for i < len(b) && v >= b[i] {
			i++
		}
		n[i]++
		mn, mx, sum = math.Min(mn, v), math.Max(mx, v), sum+v
	}
	return rowStr(tags, int64(len(vs)), mn, mx, sum) + fmt.Sprint(n)
}

func (m *pmodel) check() string {
	out := ""
	for _, p := range m.vs {
		var want, got []string
		for t, vs := range m.rows[p.name] {
			want = append(want, prow(t, p.agg, vs))
		}
		rs, err := view.RetrieveData(p.name)
		if err != nil {
			vsched.Failf("%s: %v", p.name, err)
		}
		for _, r := range rs {
			kv := map[string]string{}
			for _, t := range r.Tags {
				kv[t.Key.Name()] = t.Value
			}
			switch d := r.Data.(type) {
			case *view.CountData:
				got = append(got, fmt.Sprintf("{%s} count %d", tagStr(kv), d.Value))
			case *view.DistributionData:
				got = append(got, rowStr(tagStr(kv), d.Count, d.Min, d.Max, d.Sum())+fmt.Sprint(d.CountPerBucket))
			default:
				vsched.Failf("%s: a %T", p.name, d)
			}
		}
		sort.Strings(want)
		sort.Strings(got)
		g, w := strings.Join(got, "; "), strings.Join(want, "; ")
		if g != w {
			vsched.Failf("%s:\ngot  %s\nwant %s", p.name, g, w)
		}
		out += fmt.Sprint(len(want))
	}
	return out
}

// httpOut is a request through a Transport: the sizes are those that the messages declare.
func (m *pmodel) httpOut(method string, sent int64, code int, received, lat int64) {
	rt := &ochttp.Transport{Base: rtFunc(func(r *http.Request) (*http.Response, error) {
		vsched.AdvanceQuiet(lat)
		if code == 0 {
			return nil, errRT
		}
		return &http.Response{StatusCode: code, ContentLength: received, Body: io.NopCloser(strings.NewReader("")), Header: http.Header{}, Request: r}, nil
	})}
	var body io.Reader
	if sent > 0 {
		body = strings.NewReader("x")
	}
	req := mustReq(method, "http://h/p", body)
	req.ContentLength = sent
	resp, err := rt.RoundTrip(req)
	if err == nil {
		resp.Body.Close()
	}
	st, rec := code, received
	if code == 0 {
		st, rec = 500, 0
	}
	kv := map[string]string{"http_client_method": method, "http.method": method, "http_client_status": strconv.Itoa(st), "http.status": strconv.Itoa(st)}
	m.add("hc started", kv, 1)
	m.add("hc sent", kv, float64(sent))
	m.add("hc received", kv, float64(rec))
	m.add("hc latency", kv, float64(lat)/float64(ms1))
}

var filler = bytes.Repeat([]byte("x"), 1<<16)

// sink is a writer for responses of any length.
type sink struct{ hdr http.Header }

func (s *sink) Header() http.Header         { return s.hdr }
func (s *sink) Write(p []byte) (int, error) { return len(p), nil }
func (s *sink) WriteHeader(int)             {}

// httpIn is a request to a Handler.
func (m *pmodel) httpIn(method string, received int64, code int, sent, lat int64) {
	h := &ochttp.Handler{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		vsched.AdvanceQuiet(lat)
		if code != 0 {
			w.WriteHeader(code)
		}
		for n := sent; n > 0; {
			p := filler
			if n < int64(len(p)) {
				p = p[:n]
			}
			w.Write(p)
			n -= int64(len(p))
		}
	})}
	var body io.Reader
	if received > 0 {
		body = strings.NewReader("x")
	}
	req := httptest.NewRequest(method, "http://h/p", body)
	req.ContentLength = received
	if received == 0 {
		req.Body = http.NoBody
	}
	h.ServeHTTP(&sink{http.Header{}}, req)
	st := code
	if st == 0 {
		st = 200
	}
	kv := map[string]string{"http.method": method, "http.status": strconv.Itoa(st)}
	m.add("hs started", kv, 1)
	if received > 0 {
		m.add("hs received", kv, float64(received))
	}
	m.add("hs sent", kv, float64(sent))
	m.add("hs latency", kv, float64(lat)/float64(ms1))
}

// rpc is an RPC with the given lengths of messages, as client or as server.
func (m *pmodel) rpc(client bool, method string, sent, received []int, lat int64, err error) {
	var h stats.Handler = &ocgrpc.ServerHandler{}
	of, side := "gs ", "server"
	if client {
		h, of, side = &ocgrpc.ClientHandler{}, "gc ", "client"
	}
	ctx := h.TagRPC(context.Background(), &stats.RPCTagInfo{FullMethodName: "/" + method})
	h.HandleRPC(ctx, &stats.Begin{Client: client})
	sum := [2]int{}
	for i, ls := range [][]int{sent, received} {
		for _, l := range ls {
			sum[i] += l
			if i == 0 {
				h.HandleRPC(ctx, &stats.OutPayload{Client: client, Length: l})
			} else {
				h.HandleRPC(ctx, &stats.InPayload{Client: client, Length: l})
			}
		}
	}
	vsched.AdvanceQuiet(lat)
	h.HandleRPC(ctx, &stats.End{Client: client, Error: err})
	st := "OK"
	if err != nil {
		st = refGRPC(err)
	}
	kv := map[string]string{"grpc_" + side + "_method": method}
	m.add(of+"started", kv, 1)
	kv["grpc_"+side+"_status"] = st
	m.add(of+"sent", kv, float64(sum[0]))
	m.add(of+"received", kv, float64(sum[1]))
	m.add(of+"sent messages", kv, float64(len(sent)))
	m.add(of+"received messages", kv, float64(len(received)))
	m.add(of+"latency", kv, float64(lat)/float64(ms1))
}

func init() {
	setup := func() {
		vsched.Reinit()
		trace.ApplyConfig(trace.Config{DefaultSampler: trace.NeverSample(), IDGenerator: stampIDs{}})
	}
	us := ms1 / 1000
	type op struct {
		name string
		f    func(m *pmodel)
	}
	nf := status.Error(codes.NotFound, "no")
	ops := []op{
		{"out GET 200", func(m *pmodel) { m.httpOut("GET", 0, 200, 3000, 7*ms1) }},
		{"out GET 404", func(m *pmodel) { m.httpOut("GET", 0, 404, 10, ms1/2) }},
		{"out POST 200", func(m *pmodel) { m.httpOut("POST", 5000, 200, 0, 90*ms1) }},
		{"out POST failed", func(m *pmodel) { m.httpOut("POST", 1<<20, 0, 0, 120000*ms1) }},
		{"in GET 200", func(m *pmodel) { m.httpIn("GET", 0, 0, 5, 3*ms1) }},
		{"in GET 500", func(m *pmodel) { m.httpIn("GET", 0, 500, 100000, 0) }},
		{"in PUT 200", func(m *pmodel) { m.httpIn("PUT", 2048, 200, 0, 45*ms1) }},
		{"in PUT 201", func(m *pmodel) { m.httpIn("PUT", 70000, 201, 1500, 650*ms1) }},
		{"sent s/a", func(m *pmodel) { m.rpc(true, "s/a", []int{10}, []int{3000}, 7*ms1, nil) }},
		{"sent s/a failed", func(m *pmodel) { m.rpc(true, "s/a", []int{0, 5}, nil, 20*us, nf) }},
		{"sent s/b", func(m *pmodel) { m.rpc(true, "s/b", []int{1000, 1000, 48}, []int{1 << 30}, 300*us, nil) }},
		{"received s/a", func(m *pmodel) { m.rpc(false, "s/a", []int{1, 2, 3, 4, 5}, []int{9}, ms1, nil) }},
		{"received s/a failed", func(m *pmodel) { m.rpc(false, "s/a", nil, []int{4000, 96}, 99*ms1, nf) }},
		{"received s/b broken", func(m *pmodel) { m.rpc(false, "s/b", nil, nil, 0, errors.New("x")) }},
	}
	vh.Add(&vh.Task{Prop: "C38", Name: "histories", Shards: [2]int{8, 8}, Weight: 3, Seq: func(s *vh.S) {
		for d := 0; d <= s.Pick(3, 4); d++ {
			s.Seqs(len(ops), d, func(seq []int) {
				name := ""
				for _, i := range seq {
					name += ops[i].name + "; "
				}
				s.Exec(name, func() {
					setup()
					m := pregister(nil, nil)
					for _, i := range seq {
						ops[i].f(m)
					}
					s.Outcome("%s", m.check())
					s.Sample("%s", name)
				})
				s.Case(len(seq))
			})
		}
	}})
	// each list and each view registered on its own, and in pairs: the same rows
	vh.Add(&vh.Task{Prop: "C38", Name: "registered", Shards: [2]int{4, 8}, Seq: func(s *vh.S) {
		all := predefined()
		for i := -len(plists); i < len(all); i++ {
			for j := i; j < len(all); j++ {
				if j < 0 && j != i || !s.Mine() {
					continue
				}
				for split := 0; split <= 2; split++ { // requests before the registration are not shown
					name := fmt.Sprint(i, " ", j, " ", split)
					s.Exec(name, func() {
						setup()
						names := map[string]bool{}
						var list []*view.View
						take := func(i int) {
							if i >= 0 {
								names[all[i].name] = true
								list = append(list, all[i].v)
								return
							}
							l := plists[-i-1]
							p := strings.Split(l.names, ": ")
							for _, n := range strings.Fields(p[1]) {
								names[p[0]+n] = true
							}
							list = append(list, l.of()...)
						}
						take(i)
						if i != j {
							take(j)
						}
						none := &pmodel{}
						for k, o := range ops {
							if k%3 < split {
								o.f(none)
							}
						}
						m := pregister(list, names)
						for k, o := range ops {
							if k%3 >= split {
								o.f(m)
							}
						}
						s.Outcome("%d %s", len(names), m.check())
						// and no other view was registered
						for _, p := range all {
							if (view.Find(p.name) != nil) != names[p.name] {
								vsched.Failf("%s registered: %v", p.name, !names[p.name])
							}
						}
						for _, v := range list {
							view.Unregister(v)
						}
						for _, p := range all {
							if view.Find(p.name) != nil {
								vsched.Failf("%s stays registered", p.name)
							}
						}
					})
					s.Case(len(ops))
				}
			}
		}
	}})
	// values on both sides of every bound
	vh.Add(&vh.Task{Prop: "C38", Name: "bounds", Shards: [2]int{8, 8}, Weight: 2, Seq: func(s *vh.S) {
		one := func(name string, f func(m *pmodel)) {
			if !s.Mine() || s.Stop() {
				return
			}
			s.Exec(name, func() {
				setup()
				m := pregister(nil, nil)
				f(m)
				s.Outcome("%s %s", m.check(), name)
			})
			s.Case(1)
		}
		around := func(bs []float64) []int64 { // in units of a millionth
			out := []int64{0}
			for _, b := range bs {
				n := int64(math.Round(b * 1e6))
				out = append(out, n-1, n, n+1)
			}
			return out
		}
		for _, b := range append([]float64{0, 1}, pbounds["bytes"]...) {
			for d := -1; d <= 1; d++ {
				n := int64(b) + int64(d)
				if n < 0 {
					continue
				}
				one(fmt.Sprint("out ", n), func(m *pmodel) { m.httpOut("POST", n, 200, n, 0) })
				if n <= 1<<22+1 {
					one(fmt.Sprint("in ", n), func(m *pmodel) { m.httpIn("POST", n, 200, n, 0) })
				} else {
					one(fmt.Sprint("in ", n), func(m *pmodel) { m.httpIn("POST", n, 200, 7, 0) })
				}
				for _, client := range []bool{false, true} {
					client := client
					one(fmt.Sprint("rpc ", client, n), func(m *pmodel) { m.rpc(client, "s/a", []int{int(n)}, nil, 0, nil) })
					one(fmt.Sprint("rpc ", client, n, " back"), func(m *pmodel) { m.rpc(client, "s/a", []int{1}, []int{int(n) / 2, int(n) - int(n)/2}, 0, nil) })
				}
			}
		}
		for _, ns := range around(pbounds["http ms"]) {
			ns := ns
			one(fmt.Sprint("out latency ", ns), func(m *pmodel) { m.httpOut("GET", 0, 200, 0, ns) })
			one(fmt.Sprint("in latency ", ns), func(m *pmodel) { m.httpIn("GET", 0, 200, 0, ns) })
		}
		for _, ns := range around(pbounds["rpc ms"]) {
			ns := ns
			one(fmt.Sprint("sent latency ", ns), func(m *pmodel) { m.rpc(true, "s/a", nil, nil, ns, nil) })
			one(fmt.Sprint("received latency ", ns), func(m *pmodel) { m.rpc(false, "s/a", nil, nil, ns, nil) })
		}
		for _, b := range pbounds["messages"] {
			if b > 4096 && !s.Thorough {
				break
			}
			for d := -1; d <= 1; d++ {
				n := int(b) + d
				for k := 0; k < 4; k++ {
					k := k
					one(fmt.Sprint("messages ", n, k), func(m *pmodel) {
						l := make([]int, n)
						if k%2 == 0 {
							m.rpc(k < 2, "s/a", l, nil, 0, nil)
						} else {
							m.rpc(k < 2, "s/a", []int{1}, l, 0, nil)
						}
					})
				}
			}
		}
	}})
	// views are registered and read while requests of both kinds run
	vh.Add(&vh.Task{Prop: "C38", Name: "concurrent", Race: true, Bound: [2]int{1, 2}, Shards: [2]int{8, 8}, Body: func() {
		setup()
		names := map[string]bool{"opencensus.io/http/client/completed_count": true, "grpc.io/server/completed_rpcs": true}
		m := &pmodel{rows: map[string]map[string][]float64{}}
		var list []*view.View
		for _, p := range predefined() {
			if names[p.name] {
				m.vs, list = append(m.vs, p), append(list, p.v)
			}
		}
		none := &pmodel{}
		seen := [2]int64{}
		count := func(i int) int64 {
			rs, err := view.RetrieveData(list[i].Name)
			if err != nil {
				vsched.Failf("%v", err)
			}
			n := int64(0)
			for _, r := range rs {
				n += r.Data.(*view.CountData).Value
			}
			return n
		}
		vsched.Explore(true)
		t1 := vsched.Thread("http", func() { none.httpOut("GET", 0, 200, 0, 0) })
		t2 := vsched.Thread("rpc", func() { none.rpc(false, "s/a", nil, nil, 0, nil) })
		t3 := vsched.Thread("reader", func() {
			if err := view.Register(list...); err != nil {
				vsched.Failf("%v", err)
			}
			seen[0], seen[1] = count(0), count(1)
		})
		vsched.Join(t1, t2, t3)
		vsched.Explore(false)
		a, b := count(0), count(1)
		if a > 1 || b > 1 || seen[0] > a || seen[1] > b {
			vsched.Failf("counts %v, then %d %d", seen, a, b)
		}
		none.httpOut("GET", 0, 200, 0, 0)
		none.rpc(false, "s/a", nil, nil, 0, nil)
		if c, d := count(0), count(1); c != a+1 || d != b+1 {
			vsched.Failf("counts %d %d, then %d %d", a, b, c, d)
		}
		vsched.Outcome("%v %d %d", seen, a, b)
	}})
}
