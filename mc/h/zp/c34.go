package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"time"

	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/plugin/ocgrpc"
	"go.opencensus.io/trace"
	"go.opencensus.io/zpages"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/stats"
	"google.golang.org/grpc/status"
)

func setup() {
	vsched.Reinit()
	trace.ApplyConfig(trace.Config{DefaultSampler: trace.NeverSample(), IDGenerator: stampIDs{}})
}

// rkey and rtot model the RPC page.
type rkey struct {
	recv   bool
	method string
}

type rtot struct {
	n, errs  int
	in, out  int64
	lat, msg int64
}

type rpcs map[rkey]*rtot

func (m rpcs) do(client bool, method string, lat int64, in, out []int, err error) {
	var h stats.Handler = &ocgrpc.ServerHandler{}
	if client {
		h = &ocgrpc.ClientHandler{}
	}
	ctx := h.TagRPC(bg, &stats.RPCTagInfo{FullMethodName: "/" + method})
	h.HandleRPC(ctx, &stats.Begin{Client: client})
	k := rkey{!client, method}
	t := m[k]
	if t == nil {
		t = &rtot{}
		m[k] = t
	}
	for _, n := range in {
		h.HandleRPC(ctx, &stats.InPayload{Client: client, Length: n, WireLength: n + 5})
		t.in += int64(n)
	}
	for _, n := range out {
		h.HandleRPC(ctx, &stats.OutPayload{Client: client, Length: n, WireLength: n + 5})
		t.out += int64(n)
	}
	vsched.AdvanceQuiet(lat)
	h.HandleRPC(ctx, &stats.End{Client: client, Error: err})
	t.n++
	t.lat += lat
	if err != nil {
		t.errs++
	}
}

// page renders the model; age is the uptime at the latest export.
func (m rpcs) page(age float64) string {
	s := ""
	for _, recv := range []bool{false, true} {
		if recv {
			s += "\nReceived:\n"
		} else {
			s += "Sent:\n"
		}
		s += "Method Count AvgLat Rate In (KiB/s) Out (KiB/s) Errors\n" + strings.TrimSpace(strings.Repeat("Min Hr Tot ", 6)) + "\n"
		var ks []string
		for k := range m {
			if k.recv == recv {
				ks = append(ks, k.method)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			t := m[rkey{recv, k}]
			// the hour and minute columns are documented as not filled in
			s += fmt.Sprintf("%s # # %d # # %v # # %.2f # # %.2f # # %.2f # # %d\n", k, t.n, time.Duration(float64(t.lat)/float64(t.n)).Round(time.Microsecond), float64(t.n)/age, float64(t.in)/1024/age, float64(t.out)/1024/age, t.errs)
		}
	}
	return s
}

func (m rpcs) copy() rpcs {
	c := rpcs{}
	for k, v := range m {
		t := *v
		c[k] = &t
	}
	return c
}

// mask hides the columns that are documented as not filled in.
func mask(page string) string {
	ls := strings.Split(page, "\n")
	for i, l := range ls {
		f := strings.Fields(l)
		if len(f) == 19 && f[0] != "Min" {
			for j := range f {
				if j%3 != 0 {
					f[j] = "#"
				}
			}
			if d, err := time.ParseDuration(f[6]); err == nil { // computed in floating point
				f[6] = d.Round(time.Microsecond).String()
			}
		}
		ls[i] = strings.Join(f, " ")
	}
	return strings.Join(ls, "\n")
}

func rpczText() string {
	var b bytes.Buffer
	zpages.WriteTextRpczPage(&b)
	return mask(b.String())
}

func init() {
	type op struct {
		name string
		f    func(p *mpage)
	}
	us, ms, sec := int64(time.Microsecond), int64(time.Millisecond), int64(time.Second)
	var ops []op
	span := func(n string, lat int64, code int32) {
		ops = append(ops, op{fmt.Sprintf("%s %v code %d", n, time.Duration(lat), code), func(p *mpage) {
			x := p.start(n)
			vsched.AdvanceQuiet(lat)
			p.end(x, code, "")
		}})
	}
	for _, l := range []int64{0, 10*us - 1, 10 * us, 100 * us, ms, 10*ms - 1, 10 * ms, 100 * ms, sec - 1, sec, 10 * sec, 60*sec - 1, 60 * sec, 100*sec - 1, 100 * sec, 7200 * sec} {
		span("a", l, 0)
	}
	for _, c := range []int32{1, 5, 16, 17, -3} {
		span("a", 2*ms, c)
	}
	span("b", 3*us, 0)
	span("b", 3*us, 5)
	for _, n := range []string{"a", "b"} {
		n := n
		ops = append(ops, op{n + " start", func(p *mpage) { p.start(n) }})
		ops = append(ops, op{n + " end", func(p *mpage) {
			if x := p.names[n]; x != nil && len(x.active) > 0 {
				p.end(x.active[0], 0, "")
			}
		}})
	}
	ops = append(ops, op{"wait", func(p *mpage) { vsched.AdvanceQuiet(sec) }})
	vh.Add(&vh.Task{Prop: "C34", Name: "tracez", Shards: [2]int{8, 8}, Weight: 3, Seq: func(s *vh.S) {
		for d := 0; d <= s.Pick(3, 4); d++ {
			s.Seqs(len(ops), d, func(seq []int) {
				name := ""
				for _, i := range seq {
					name += ops[i].name + "; "
				}
				s.Exec(name, func() {
					setup()
					p := newPage()
					for _, i := range seq {
						ops[i].f(p)
					}
					o := p.check()
					vsched.MapReverse(true) // the other order of map iteration
					p.check()
					s.Outcome("%s", o)
					s.Sample("%s", name)
				})
				s.Case(len(seq))
			})
		}
	}})

	// buckets over their capacity
	vh.Add(&vh.Task{Prop: "C34", Name: "full-buckets", Seq: func(s *vh.S) {
		for n := 0; n <= 23; n++ {
			for kind := 0; kind < 5; kind++ {
				for _, gap := range []int64{0, sec / 2, sec - 1, sec} {
					if !s.Mine() {
						continue
					}
					name := fmt.Sprintf("%d spans of kind %d every %v", n, kind, time.Duration(gap))
					s.Exec(name, func() {
						setup()
						p := newPage()
						for i := 0; i < n; i++ {
							x := p.start("a")
							switch kind {
							case 1:
								p.end(x, 0, "")
							case 2:
								p.end(x, 3, fmt.Sprint("e", i))
							case 3:
								p.end(x, int32(i%3), "")
							case 4:
								p.end(x, int32(i%20)-1, "")
							}
							vsched.AdvanceQuiet(gap)
						}
						s.Outcome("%s", p.check())
					})
					s.Case(n)
				}
			}
		}
	}})

	// the details of one span, at every moment of its life
	type step struct {
		name string
		f    func(x *mspan)
	}
	ev := func(x *mspan, text string) { x.events = append(x.events, mevent{vsched.Now(), text}) }
	// the same day of a later month or year
	later := func(years, months int) {
		now := time.Unix(0, vsched.Now())
		vsched.AdvanceQuiet(int64(now.AddDate(years, months, 0).Sub(now)))
	}
	steps := []step{
		{"annotate", func(x *mspan) { x.sp.Annotate(nil, "note"); ev(x, "note") }},
		{"annotate with attributes", func(x *mspan) {
			x.sp.Annotate([]trace.Attribute{trace.Int64Attribute("z", 1), trace.StringAttribute("b", "q\"")}, "more")
			ev(x, "more Attributes:{b=\"q\\\"\", z=1}")
		}},
		{"send", func(x *mspan) {
			x.sp.AddMessageSendEvent(1, 200, 100)
			ev(x, "sent message [200 bytes, 100 compressed bytes]")
		}},
		{"receive", func(x *mspan) {
			x.sp.AddMessageReceiveEvent(1, 7, 0)
			ev(x, "received message [7 bytes, 0 compressed bytes]")
		}},
		{"long", func(x *mspan) {
			x.sp.Annotate(nil, strings.Repeat("x", 2000))
			ev(x, strings.Repeat("x", 1024))
		}},
		{"long with attributes", func(x *mspan) {
			x.sp.Annotate([]trace.Attribute{trace.BoolAttribute("k", true), trace.Int64Attribute("a", 3)}, strings.Repeat("y", 600))
			ev(x, strings.Repeat("y", 600)+" Attributes:{a=3, k=true}")
		}},
		{"attributes", func(x *mspan) {
			x.sp.AddAttributes(trace.StringAttribute("s", "v w"), trace.Int64Attribute("i", -1), trace.BoolAttribute("b", true), trace.Float64Attribute("f", 1.5))
			x.attrs = "b=true, f=1.5, i=-1, s=\"v w\""
		}},
		{"1us", func(x *mspan) { vsched.AdvanceQuiet(us) }},
		{"1.5s", func(x *mspan) { vsched.AdvanceQuiet(1500 * ms) }},
		{"1 day", func(x *mspan) { vsched.AdvanceQuiet(86400 * sec) }},
		{"1 month", func(x *mspan) { later(0, 1) }},
		{"1 year", func(x *mspan) { later(1, 0) }},
	}
	// annotations before messages of the same moment
	order := func(x *mspan) {
		sort.SliceStable(x.events, func(i, j int) bool {
			a, b := x.events[i], x.events[j]
			msg := func(e mevent) bool { return strings.Contains(e.text, " message [") }
			return a.at < b.at || a.at == b.at && !msg(a) && msg(b)
		})
	}
	vh.Add(&vh.Task{Prop: "C34", Name: "span-details", Shards: [2]int{8, 8}, Seq: func(s *vh.S) {
		for d := 0; d <= s.Pick(3, 5); d++ {
			for end := 0; end < 3; end++ {
				for child := 0; child < 3; child++ {
					s.Seqs(len(steps), d, func(seq []int) {
						name := fmt.Sprintf("end %d child %d: ", end, child)
						for _, i := range seq {
							name += steps[i].name + "; "
						}
						s.Exec(name, func() {
							setup()
							p := newPage()
							ctx, par := context.Context(bg), trace.SpanID{}
							sp := trace.AlwaysSample()
							switch child {
							case 1:
								c, ps := trace.StartSpan(bg, "p", trace.WithSampler(sp))
								p.names["p"] = &mname{errs: map[int32]*sampler{}, active: []*mspan{{sp: ps, sc: ps.SpanContext(), name: "p", start: vsched.Now(), end: -1}}}
								ctx, par = c, ps.SpanContext().SpanID
							case 2: // unsampled spans are kept as well
								sp = trace.NeverSample()
							}
							x := p.startIn(ctx, par, "a", trace.WithSampler(sp))
							for _, i := range seq {
								steps[i].f(x)
							}
							order(x)
							switch end {
							case 1:
								p.end(x, 0, "")
							case 2:
								p.end(x, 4, "too \"late\"")
							}
							p.check()
							s.Outcome("%d", len(x.events))
						})
						s.Case(len(seq))
					})
				}
			}
		}
		// many events of one moment stay in order
		for n := 0; n <= 32; n++ {
			for every := 1; every <= 9; every++ { // events of one moment
				for msgs := 0; msgs < 3; msgs++ { // none, after every annotation, after every third
					s.Exec(fmt.Sprint(n, " annotations, ", every, " of one moment, messages ", msgs), func() {
						setup()
						p := newPage()
						x := p.start("a")
						for i := 0; i < n; i++ {
							if i%every == 0 {
								vsched.AdvanceQuiet(us)
							}
							x.sp.Annotate(nil, fmt.Sprint("note", i))
							ev(x, fmt.Sprint("note", i))
							if msgs == 1 || msgs == 2 && i%3 == 0 {
								x.sp.AddMessageSendEvent(int64(i), int64(i), 0)
								ev(x, fmt.Sprintf("sent message [%d bytes, 0 compressed bytes]", i))
							}
						}
						order(x)
						p.check()
					})
					s.Case(n)
				}
			}
		}
	}})

	// RPC page
	fail := status.Error(codes.NotFound, "no")
	type rop struct {
		name string
		f    func(m rpcs)
	}
	rops := []rop{
		{"sent a", func(m rpcs) { m.do(true, "s/a", ms, []int{1000}, []int{3000, 3000}, nil) }},
		{"sent a failed", func(m rpcs) { m.do(true, "s/a", 5*ms, nil, []int{1 << 20}, fail) }},
		{"sent a cancelled", func(m rpcs) { m.do(true, "s/a", 0, nil, nil, context.Canceled) }},
		{"sent b", func(m rpcs) { m.do(true, "s/b", 0, []int{0, 0, 1 << 30}, nil, nil) }},
		{"received a", func(m rpcs) { m.do(false, "s/a", 2*ms, []int{5000, 5000, 5000}, []int{20000}, nil) }},
		{"received a failed", func(m rpcs) { m.do(false, "s/a", 3*sec, []int{50000}, nil, fail) }},
		{"received a broken", func(m rpcs) { m.do(false, "s/a", ms, nil, nil, errors.New("x")) }},
		{"received c failed", func(m rpcs) { m.do(false, "s/c", 7*ms, nil, []int{70000}, errors.New("x")) }},
		{"export", nil},
	}
	vh.Add(&vh.Task{Prop: "C34", Name: "rpcz", Shards: [2]int{8, 8}, Weight: 3, Seq: func(s *vh.S) {
		for d := 0; d <= s.Pick(4, 5); d++ {
			s.Seqs(len(rops), d, func(seq []int) {
				name := ""
				for _, i := range seq {
					name += rops[i].name + "; "
				}
				s.Exec(name, func() {
					setup()
					m := rpcs{}
					shown, age := rpcs{}, 1.0
					export := func() {
						t0 := vsched.Now() - vsched.Epoch
						vsched.Sleep(10*sec - t0%(10*sec))
						vsched.Sleep(1)
						shown, age = m.copy(), float64((vsched.Now()-vsched.Epoch)/(10*sec)*10)
					}
					for _, i := range seq {
						if rops[i].f == nil {
							export()
						} else {
							if (vsched.Now()-vsched.Epoch)%(10*sec) > 6*sec {
								export() // keep the RPCs away from the ticks
							}
							rops[i].f(m)
						}
						if g, w := rpczText(), shown.page(age); g != w {
							vsched.Failf("after %s:\ngot\n%s\nwant\n%s", rops[i].name, g, w)
						}
					}
					export()
					if g, w := rpczText(), shown.page(age); g != w {
						vsched.Failf("at the end:\ngot\n%s\nwant\n%s", g, w)
					}
					vsched.MapReverse(true) // the other order of map iteration
					if g, w := rpczText(), shown.page(age); g != w {
						vsched.Failf("at the end, other order of maps:\ngot\n%s\nwant\n%s", g, w)
					}
					var h bytes.Buffer
					zpages.WriteHTMLRpczPage(&h)
					sections := strings.Split(h.String(), "<p><table")
					if len(sections) != 3 || !strings.Contains(sections[1], ">Sent<") || !strings.Contains(sections[2], ">Received<") {
						vsched.Failf("HTML page %s", h.String())
					}
					rows := 0
					for i, sec := range sections[1:] {
						for _, r := range inner(sec, "<tr>", "</tr>") {
							var f []string
							for _, c := range strings.Split(r, "</td>") {
								if c = words(strings.Join(pageText(c), " ")); len(c) > 0 || strings.Contains(r, "<b>") {
									f = append(f, c)
								}
							}
							if len(f) == 0 {
								continue
							}
							t := shown[rkey{i == 1, f[0]}]
							if t == nil || len(f) < 25 {
								vsched.Failf("HTML row %q", f)
							}
							rows++
							// average latency in milliseconds
							lat, err := strconv.ParseFloat(f[8], 64)
							tol := 0.0011
							if t.lat/int64(t.n) >= 10*ms-1 {
								tol = 1.0011 // whole milliseconds
							}
							errs := fmt.Sprint(t.errs)
							if t.errs == 0 {
								errs = ""
							}
							if d := lat - float64(t.lat)/float64(t.n)/1e6; f[4] != fmt.Sprint(t.n) || f[24] != errs || f[12] != fmt.Sprintf("%.3f", float64(t.n)/age) || err != nil || d > tol || d < -tol {
								vsched.Failf("HTML row %q of %+v", f, *t)
							}
						}
					}
					if rows != len(shown) {
						vsched.Failf("%d rows on the HTML page, want %d", rows, len(shown))
					}
					s.Outcome("%d %v", len(shown), age)
					s.Sample("%s", name)
				})
				s.Case(len(seq))
			})
		}
	}})

	// any request gives a page
	vh.Add(&vh.Task{Prop: "C34", Name: "requests", Seq: func(s *vh.S) {
		names := []string{"", "a", "never", "<script>x</script>", "a&ztype=1", "%", "ä\x00\xff", strings.Repeat("n", 5000)}
		nums := []string{"", "0", "1", "2", "3", "8", "9", "10", "-1", "5", "77", "99999999999999999999", "-9223372036854775808", "9223372036854775807", "4294967301", "x", "1.5", " 1"}
		for _, nm := range names {
			for _, t := range nums {
				for _, st := range nums {
					if !s.Mine() {
						continue
					}
					s.Exec(fmt.Sprintf("name %.20q type %q subtype %q", nm, t, st), func() {
						setup()
						p := newPage()
						p.start("a")
						for _, n := range []string{"a", "<script>x</script>"} {
							x := p.start(n)
							x.sp.Annotate(nil, "<b>note</b>")
							p.end(x, 5, "<i>")
							p.end(p.start(n), 0, "")
						}
						mux := http.NewServeMux()
						zpages.Handle(mux, "/debug")
						q := url.Values{}
						for k, v := range map[string]string{"zspanname": nm, "ztype": t, "zsubtype": st} {
							if v != "" {
								q.Set(k, v)
							}
						}
						w := httptest.NewRecorder()
						mux.ServeHTTP(w, httptest.NewRequest("GET", "http://h/debug/tracez?"+q.Encode(), nil))
						b := w.Body.String()
						if w.Code != 200 || !strings.HasPrefix(w.Header().Get("Content-Type"), "text/html") || !strings.Contains(b, "Trace Spans") || !strings.HasSuffix(strings.TrimSpace(b), "</html>") {
							vsched.Failf("%d %v %q", w.Code, w.Header(), b)
						}
						for _, raw := range []string{"<script>x", "<b>note", "<i>"} {
							if strings.Contains(b, raw) {
								vsched.Failf("unescaped %q", raw)
							}
						}
						if strings.Contains(b, " Requests") != (nm != "") {
							vsched.Failf("listing of %q: %q", nm, b)
						}
						// the same spans as in the text listing
						num := func(x string) int {
							n := 0
							if _, err := fmt.Sscanf(x, "%d", &n); err != nil || fmt.Sprint(n) != x {
								return -1
							}
							return n
						}
						ti, si := num(t), num(st)
						if t == "" {
							ti = 0
						}
						if st == "" {
							si = 0
						}
						if nm == "a" && (ti == 0 || ti == 1 && 0 <= si && si <= 8 || ti == 2 && 0 <= si && si < 1<<31) {
							l := listing(nm, ti, si)
							if !strings.Contains(b, fmt.Sprintf("<p>%d Requests</p>", len(l))) || strings.Count(b, "trace_id: ") != len(l) {
								vsched.Failf("%d spans in the text listing, page %s", len(l), b)
							}
							s.Outcome("%d %d %d", ti, si, len(l))
						}
					})
					s.Case(1)
				}
			}
		}
	}})
	vh.Add(&vh.Task{Prop: "C34", Name: "routes", Seq: func(s *vh.S) {
		for _, prefix := range []string{"/", "/debug", "/debug/", "/a/b"} {
			for _, meth := range []string{"GET", "HEAD", "POST", "PUT"} {
				base := strings.TrimSuffix(prefix, "/")
				for _, path := range []string{"/rpcz", "/tracez", "/public/opencensus.css", "/public/", "/public/none", "/public/../templates/header.html", "/other"} {
					s.Exec(prefix+" "+meth+" "+path, func() {
						setup()
						mux := http.NewServeMux()
						zpages.Handle(mux, prefix)
						w := httptest.NewRecorder()
						mux.ServeHTTP(w, httptest.NewRequest(meth, "http://h"+base+path, strings.NewReader("zspanname=a")))
						want := map[string]int{"/rpcz": 200, "/tracez": 200, "/public/opencensus.css": 200}[path]
						if want != 0 && w.Code != want {
							vsched.Failf("%d for %s", w.Code, path)
						}
						if want == 200 && meth == "GET" && path != "/public/opencensus.css" && w.Body.Len() == 0 {
							vsched.Failf("empty %s", path)
						}
						if path == "/public/none" && w.Code != 404 {
							vsched.Failf("%d for %s", w.Code, path)
						}
						s.Outcome("%s %d", path, w.Code)
					})
					s.Case(1)
				}
			}
		}
		s.Exec("Handler", func() {
			setup()
			for _, p := range []string{"/rpcz", "/tracez", "/public/opencensus.css"} {
				w := httptest.NewRecorder()
				zpages.Handler.ServeHTTP(w, httptest.NewRequest("GET", "http://h"+p, nil))
				if w.Code != 200 {
					vsched.Failf("%d for %s", w.Code, p)
				}
			}
		})
		s.Case(1)
	}})

	// pages rendered while spans and RPCs come and go
	vh.Add(&vh.Task{Prop: "C34", Name: "tracez-concurrent", Race: true, Bound: [2]int{99, 99}, Shards: [2]int{8, 8}, Body: func() {
		setup()
		_, keep := trace.StartSpan(bg, "a")
		keep.Annotate(nil, "kept")
		vsched.Explore(true)
		g1 := vsched.Thread("spans", func() {
			_, sp := trace.StartSpan(bg, "a")
			sp.Annotate(nil, "note")
			sp.AddAttributes(trace.Int64Attribute("k", 1))
			sp.End()
		})
		g2 := vsched.Thread("page", func() {
			l := listing("a", 0, 0)
			if len(l) < 1 || len(l) > 2 {
				vsched.Failf("active %q", l)
			}
			var b bytes.Buffer
			zpages.WriteTextTracezSummary(&b)
			f := strings.Fields(b.String()[strings.LastIndex(b.String(), "\na "):])
			if f[1] != "1" && f[1] != "2" || f[1] == "2" && f[2] != "." {
				vsched.Failf("summary row %q", f)
			}
			l = listing("a", 1, 0)
			if len(l) > 1 || len(l) == 1 && !strings.Contains(l[0], "note") {
				vsched.Failf("finished %q", l)
			}
			vsched.Outcome("%v %d", f, len(l))
		})
		vsched.Join(g1, g2)
		if l := listing("a", 0, 0); len(l) != 1 || !strings.Contains(l[0], "kept") {
			vsched.Failf("active %q", l)
		}
		if l := listing("a", 1, 0); len(l) != 1 || !strings.Contains(l[0], "note") || !strings.Contains(l[0], "Attributes:{k=1}") {
			vsched.Failf("finished %q", l)
		}
	}})
	vh.Add(&vh.Task{Prop: "C34", Name: "rpcz-concurrent", Race: true, Bound: [2]int{1, 2}, Shards: [2]int{8, 8}, Body: func() {
		setup()
		m := rpcs{}
		m.do(true, "s/a", ms, []int{10240}, nil, fail)
		vsched.Explore(true)
		g1 := vsched.Thread("rpc", func() { m.do(true, "s/a", 0, []int{10240}, nil, nil) })
		g2 := vsched.Thread("page", func() {
			for i := 0; i < 2; i++ {
				var b bytes.Buffer
				zpages.WriteTextRpczPage(&b)
				for _, l := range strings.Split(b.String(), "\n") {
					if f := strings.Fields(l); len(f) == 19 && f[0] != "Min" && (f[0] != "s/a" || f[3] != "0" && f[3] != "1" && f[3] != "2" || f[18] != "0" && f[18] != "1") {
						vsched.Failf("row %q", f)
					}
				}
				vsched.Yield()
			}
			var h bytes.Buffer
			zpages.WriteHTMLRpczSummary(&h)
		})
		g3 := vsched.Thread("tick", func() { vsched.Advance(10*sec - ms) })
		vsched.Join(g1, g2, g3)
		vsched.Explore(false)
		vsched.Sleep(10 * sec)
		vsched.Sleep(1)
		lat := func(s string) string { // the elapsed time depends on the schedule
			ls := strings.Split(s, "\n")
			for i := range ls {
				if f := strings.Fields(ls[i]); len(f) == 19 && f[0] == "s/a" {
					f[6] = "#"
					ls[i] = strings.Join(f, " ")
				}
			}
			return strings.Join(ls, "\n")
		}
		if g, w := lat(rpczText()), lat(m.page(20)); g != w {
			vsched.Failf("at the end:\ngot\n%s\nwant\n%s", g, w)
		}
	}})
}
