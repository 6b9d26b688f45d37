package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"html"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"time"

	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/trace"
	"go.opencensus.io/zpages"
)

func main() { vh.Main() }

var bg = context.Background()

// stampIDs is a generator that is safe for concurrent use and does not synchronise its callers.
type stampIDs struct{}

func serial() uint64 {
	id, n := vsched.Serial()
	return uint64(id)<<32 | uint64(n)
}

func (stampIDs) NewTraceID() (t [16]byte) {
	binary.BigEndian.PutUint64(t[8:], serial())
	return
}
func (stampIDs) NewSpanID() (t [8]byte) {
	binary.BigEndian.PutUint64(t[:], serial())
	return
}

// bounds of the latency buckets
var latB = []time.Duration{0, 10 * time.Microsecond, 100 * time.Microsecond, time.Millisecond, 10 * time.Millisecond, 100 * time.Millisecond, time.Second, 10 * time.Second, time.Minute, 1<<63 - 1}

var codeNames = []string{"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED", "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"}

func codeName(c int32) string {
	if c >= 0 && int(c) < len(codeNames) {
		return codeNames[c]
	}
	return fmt.Sprintf("error code %d", c)
}

// mspan is the model of a span that the store may show.
type mspan struct {
	sp          *trace.Span
	sc          trace.SpanContext
	parent      trace.SpanID
	name        string
	start, end  int64
	code        int32
	msg         string
	attrs       string
	events      []mevent
	began       int64
	wasRecorded bool
}

type mevent struct {
	at   int64
	text string
}

// sampler decides which ended spans the store keeps: at most one per second and bucket, the ten latest.
type sampler struct {
	next int64
	list []*mspan
}

func (b *sampler) add(x *mspan) {
	if vsched.Now() < b.next {
		return
	}
	b.next = vsched.Now() + int64(time.Second)
	b.list = append(b.list, x)
	if len(b.list) > 10 {
		b.list = b.list[1:]
	}
}

type mname struct {
	active []*mspan
	lat    [9]sampler
	errs   map[int32]*sampler
}

type mpage struct{ names map[string]*mname }

func newPage() *mpage { return &mpage{names: map[string]*mname{}} }

func (p *mpage) start(name string, opts ...trace.StartOption) *mspan {
	return p.startIn(bg, trace.SpanID{}, name, opts...)
}

func (p *mpage) startIn(ctx context.Context, parent trace.SpanID, name string, opts ...trace.StartOption) *mspan {
	n := p.names[name]
	if n == nil {
		n = &mname{errs: map[int32]*sampler{}}
		p.names[name] = n
	}
	_, sp := trace.StartSpan(ctx, name, opts...)
	x := &mspan{sp: sp, sc: sp.SpanContext(), parent: parent, name: name, start: vsched.Now(), end: -1}
	n.active = append(n.active, x)
	return x
}

func (p *mpage) end(x *mspan, code int32, msg string) {
	if code != 0 || msg != "" {
		x.sp.SetStatus(trace.Status{Code: code, Message: msg})
	}
	x.code, x.msg, x.end = code, msg, vsched.Now()
	x.sp.End()
	n := p.names[x.name]
	var l []*mspan
	for _, a := range n.active {
		if a != x {
			l = append(l, a)
		}
	}
	n.active = l
	if code != 0 {
		if n.errs[code] == nil {
			n.errs[code] = &sampler{}
		}
		n.errs[code].add(x)
		return
	}
	i, d := 0, time.Duration(x.end-x.start)
	for i < 8 && d >= latB[i+1] {
		i++
	}
	n.lat[i].add(x)
}

// words joins the fields of a line with single blanks.
func words(s string) string { return strings.Join(strings.Fields(s), " ") }

func wall(ns int64) string {
	return time.Unix(0, ns).UTC().Format("2006/01/02-15:04:05.000000")
}

func elapsed(d int64) string {
	u := d / 1000
	if u < 1e6 {
		return fmt.Sprintf(".%6d", u)
	}
	if u > 99999999999 {
		return fmt.Sprintf("%ds", u/1e6)
	}
	return fmt.Sprintf("%d.%06d", u/1e6, u%1e6)
}

// lines is what a listing shows of a span.
func (x *mspan) lines() []string {
	id := fmt.Sprintf("trace_id: %s span_id: %s", x.sc.TraceID, x.sc.SpanID)
	if x.parent != (trace.SpanID{}) {
		id += fmt.Sprintf(" parent_span_id: %s", x.parent)
	}
	el := ""
	if x.end >= 0 {
		el = elapsed(x.end - x.start)
	}
	ls := []string{words(wall(x.start) + " " + el + " " + id)}
	if x.code != 0 || x.msg != "" {
		ls = append(ls, words(fmt.Sprintf("Status{canonicalCode=%s, description=%q}", codeName(x.code), x.msg)))
	}
	if x.attrs != "" {
		ls = append(ls, words("Attributes:{"+x.attrs+"}"))
	}
	last, day := x.start, wall(x.start)[:10]
	for _, e := range x.events {
		w := wall(e.at)
		if w[:10] == day {
			w = w[11:]
		} else {
			day = w[:10]
		}
		ls = append(ls, words(w+" "+elapsed(e.at-last)+" "+e.text))
		last = e.at
	}
	return ls
}

// pageText is the text that a part of an HTML page shows, as words of every line.
func pageText(h string) []string {
	var out []string
	for _, l := range strings.Split(h, "\n") {
		t := ""
		for l != "" {
			i := strings.IndexByte(l, '<')
			if i < 0 {
				t, l = t+l, ""
				break
			}
			j := strings.IndexByte(l[i:], '>')
			if j < 0 {
				vsched.Failf("open tag in %q", l)
			}
			t += l[:i]
			if l[i+1] == 't' || l[i+1] == '/' { // cells are words of their own
				t += " "
			}
			l = l[i+j+1:]
		}
		out = append(out, words(html.UnescapeString(t)))
	}
	return out
}

// inner returns the parts of s between open and end.
func inner(s, open, end string) []string {
	var out []string
	for {
		i := strings.Index(s, open)
		if i < 0 {
			return out
		}
		s = s[i+len(open):]
		j := strings.Index(s, end)
		if j < 0 {
			vsched.Failf("%q without %q", open, end)
		}
		out = append(out, s[:j])
		s = s[j+len(end):]
	}
}

// list compares a listing, as text and as HTML, with the spans that it should show.
func list(what, name string, typ, sub int, want []*mspan) {
	w := render(want)
	same(what, listing(name, typ, sub), w)
	var b bytes.Buffer
	zpages.WriteHTMLTracezSpans(&b, name, typ, sub)
	pre := inner(b.String(), "<pre>", "</pre>")
	if len(pre) != 1 {
		vsched.Failf("%s: HTML listing %q", what, b.String())
	}
	ls := pageText(strings.Trim(pre[0], "\n"))
	if len(ls) < 2 || ls[0] != "When Elapsed (sec)" {
		vsched.Failf("%s: HTML listing %q", what, ls)
	}
	same(what+" (HTML)", group(ls[2:]), w)
	sampled := 0
	for _, x := range want {
		if x.sc.IsSampled() {
			sampled++
		}
	}
	head := strings.Join(pageText(b.String()[:strings.Index(b.String(), "<pre>")]), "\n")
	if !strings.Contains(head, fmt.Sprintf("Span Name: %s\n%d Requests", name, len(want))) || strings.Count(pre[0], "color:blue") != sampled || strings.Count(pre[0], "color:black") != len(want)-sampled {
		vsched.Failf("%s: %d spans, %d sampled: HTML listing %s", what, len(want), sampled, b.String())
	}
}

func listing(name string, typ, sub int) []string {
	var b bytes.Buffer
	zpages.WriteTextTracezSpans(&b, name, typ, sub)
	ls := strings.Split(strings.TrimRight(b.String(), "\n"), "\n")
	if words(ls[0]) != "When Elapsed(s) Type" {
		vsched.Failf("heading %q", ls[0])
	}
	return group(ls[1:])
}

// group gives one entry per span: its line and those up to the next span's.
func group(ls []string) []string {
	var out []string
	for _, l := range ls {
		l = words(l)
		if strings.Contains(l, "trace_id: ") || len(out) == 0 {
			out = append(out, l)
		} else {
			out[len(out)-1] += "\n" + l
		}
	}
	sort.Strings(out)
	return out
}

func render(xs []*mspan) []string {
	var out []string
	for _, x := range xs {
		out = append(out, strings.Join(x.lines(), "\n"))
	}
	sort.Strings(out)
	return out
}

func same(what string, got, want []string) {
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		vsched.Failf("%s:\ngot  %q\nwant %q", what, got, want)
	}
}

// check compares the summary and every listing with the model.
func (p *mpage) check() string {
	var ns []string
	for n := range p.names {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	want := []string{"Locally sampled spans summary", ""}
	if len(ns) > 0 {
		h := "Name Active"
		for _, b := range latB[:9] {
			h += fmt.Sprintf(" >%v", b)
		}
		want = append(want, h+" Errors")
	}
	dot := func(n int) string {
		if n == 0 {
			return " ."
		}
		return fmt.Sprint(" ", n)
	}
	out := ""
	for _, nm := range ns {
		n := p.names[nm]
		list(nm+" active", nm, 0, 0, n.active)
		row := dot(len(n.active))
		for i := range n.lat {
			list(fmt.Sprintf("%s latency %d", nm, i), nm, 1, i, n.lat[i].list)
			row += dot(len(n.lat[i].list))
		}
		var all []*mspan
		for c, b := range n.errs {
			list(fmt.Sprintf("%s errors with code %d", nm, c), nm, 2, int(c), b.list)
			all = append(all, b.list...)
		}
		list(nm+" errors", nm, 2, 0, all)
		list(nm+" errors of an unused code", nm, 2, 77, nil)
		want = append(want, nm+row+dot(len(all)))
		out += row + dot(len(all)) + "|"
	}
	var b bytes.Buffer
	zpages.WriteTextTracezSummary(&b)
	var got []string
	for _, l := range strings.Split(strings.TrimSuffix(b.String(), "\n"), "\n") {
		got = append(got, words(l))
	}
	same("summary", got, want)
	// the same numbers on the HTML page, each linked to its listing
	b.Reset()
	zpages.WriteHTMLTracezSummary(&b)
	tab := inner(b.String(), "<table", "</table>")
	if len(tab) != 1 {
		vsched.Failf("HTML summary %s", b.String())
	}
	var rows []string
	for i, r := range inner(tab[0], "<tr", "</tr>") {
		if i < 2 {
			continue // headings
		}
		r = "<tr" + r
		rows = append(rows, strings.Replace(words(strings.Join(pageText(r), " ")), " |", "", -1))
		cells := inner(r, "<a ", "</")
		if len(cells) != 11 {
			vsched.Failf("%d links in %s", len(cells), r)
		}
		for _, c := range cells {
			n, tail := inner("<a "+c+"</", "href=\"", "\""), c[strings.LastIndexByte(c, '>')+1:]
			u, err := url.Parse(html.UnescapeString(n[0]))
			if err != nil || u.Path != "tracez" {
				vsched.Failf("link %s: %v", n[0], err)
			}
			q := u.Query()
			typ, err := strconv.Atoi(q.Get("ztype"))
			sub, _ := strconv.Atoi(q.Get("zsubtype"))
			if got := len(listing(q.Get("zspanname"), typ, sub)); err != nil || fmt.Sprint(got) != words(tail) {
				vsched.Failf("link %s of %s leads to %d spans", n[0], tail, got)
			}
		}
	}
	if len(want) > 2 {
		var ws []string
		for _, l := range want[3:] {
			ws = append(ws, strings.Replace(l+" ", " . ", " 0 ", -1))
		}
		for i := range ws {
			ws[i] = words(strings.Replace(ws[i], " . ", " 0 ", -1))
		}
		same("HTML summary", rows, ws)
	}
	for t := 0; t < 3; t++ {
		same("listing of an unknown name", listing("never", t, 0), nil)
	}
	return out
}
