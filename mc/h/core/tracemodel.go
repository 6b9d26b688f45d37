package main

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"

	"go.opencensus.io/internal"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/trace"
	"go.opencensus.io/trace/tracestate"
)

// spanLog is an exporter that keeps what it was given.
type spanLog struct {
	name string
	got  []*trace.SpanData
	on   func(*trace.SpanData)
}

func (l *spanLog) ExportSpan(s *trace.SpanData) {
	l.got = append(l.got, s)
	if l.on != nil {
		l.on(s)
	}
}

func (l *spanLog) count(id trace.SpanID) int {
	n := 0
	for _, s := range l.got {
		if s.SpanID == id {
			n++
		}
	}
	return n
}

// numIDs is an identifier generator counting up from a start value.
type numIDs struct {
	n, traces, spans uint64
	off              byte
}

func (g *numIDs) NewTraceID() (t [16]byte) {
	g.n++
	g.traces++
	binary.BigEndian.PutUint64(t[8:], g.n)
	t[0] = g.off
	return
}

func (g *numIDs) NewSpanID() (t [8]byte) {
	g.n++
	g.spans++
	binary.BigEndian.PutUint64(t[:], g.n)
	t[0] = g.off
	return
}

func mapStr(m map[string]interface{}) string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%s=%T:%v,", k, m[k], m[k])
	}
	return sb.String()
}

func linkStr(l trace.Link) string {
	return fmt.Sprintf("L%x/%x/%d{%s}", l.TraceID[14:], l.SpanID[6:], l.Type, mapStr(l.Attributes))
}

// spanStr renders everything in exported span data.
func spanStr(s *trace.SpanData) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s/%s opt=%d ts=%v parent=%s remote=%v kind=%d name=%q %s..%s status=%d:%q children=%d", s.TraceID, s.SpanID, s.TraceOptions, s.Tracestate.Entries(), s.ParentSpanID,
		s.HasRemoteParent, s.SpanKind, s.Name, tm(s.StartTime), tm(s.EndTime), s.Code, s.Message, s.ChildSpanCount)
	fmt.Fprintf(&sb, " attrs(-%d){%s}", s.DroppedAttributeCount, mapStr(s.Attributes))
	fmt.Fprintf(&sb, " annotations(-%d)[", s.DroppedAnnotationCount)
	for _, a := range s.Annotations {
		fmt.Fprintf(&sb, "%s %q{%s};", tm(a.Time), a.Message, mapStr(a.Attributes))
	}
	fmt.Fprintf(&sb, "] events(-%d)[", s.DroppedMessageEventCount)
	for _, e := range s.MessageEvents {
		fmt.Fprintf(&sb, "%s %d %d %d %d;", tm(e.Time), e.EventType, e.MessageID, e.UncompressedByteSize, e.CompressedByteSize)
	}
	fmt.Fprintf(&sb, "] links(-%d)[", s.DroppedLinkCount)
	for _, l := range s.Links {
		sb.WriteString(linkStr(l) + ";")
	}
	sb.WriteString("]")
	return sb.String()
}

type localStore interface {
	ReportActiveSpans(name string) []*trace.SpanData
	ReportSpansByError(name string, code int32) []*trace.SpanData
	ConfigureBucketSizes(bcs []internal.BucketConfiguration)
}

func store() localStore {
	st, ok := internal.Trace.(localStore)
	if !ok {
		vsched.Failf("no local span store")
	}
	return st
}

func mkTS(kv ...string) *tracestate.Tracestate {
	var es []tracestate.Entry
	for i := 0; i < len(kv); i += 2 {
		es = append(es, tracestate.Entry{Key: kv[i], Value: kv[i+1]})
	}
	t, err := tracestate.New(nil, es...)
	if err != nil {
		vsched.Failf("tracestate %v: %v", kv, err)
	}
	return t
}
