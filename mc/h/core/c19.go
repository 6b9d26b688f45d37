package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"net/http"
	"strings"

	sdprop "go.opencensus.io/exporter/stackdriver/propagation"
	"go.opencensus.io/internal/vh"
	"go.opencensus.io/plugin/ochttp/propagation/b3"
	"go.opencensus.io/plugin/ochttp/propagation/tracecontext"
	"go.opencensus.io/trace"
	"go.opencensus.io/trace/propagation"
	"go.opencensus.io/trace/tracestate"
)

func scStr(sc trace.SpanContext) string {
	return fmt.Sprintf("%s/%s/%d/%v", sc.TraceID, sc.SpanID, sc.TraceOptions, sc.Tracestate.Entries())
}

// hexv is the value of one hexadecimal digit, or -1.
func hexv(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// unhex decodes pairs of hexadecimal digits.
func unhex(s string) ([]byte, bool) {
	if len(s)%2 != 0 {
		return nil, false
	}
	var out []byte
	for i := 0; i < len(s); i += 2 {
		a, b := hexv(s[i]), hexv(s[i+1])
		if a < 0 || b < 0 {
			return nil, false
		}
		out = append(out, byte(a<<4|b))
	}
	return out, true
}

// contexts are span contexts with every interesting identifier and option.
func contexts(opts []trace.TraceOptions) []trace.SpanContext {
	var out []trace.SpanContext
	var ts []trace.TraceID
	var ss []trace.SpanID
	for i := 0; i < 16; i++ {
		for _, v := range []byte{1, 0x80, 0xff} {
			var t trace.TraceID
			t[i] = v
			ts = append(ts, t)
		}
	}
	for i := 0; i < 8; i++ {
		for _, v := range []byte{1, 0x80, 0xff} {
			var t trace.SpanID
			t[i] = v
			ss = append(ss, t)
		}
	}
	full := trace.TraceID{}
	fs := trace.SpanID{}
	for i := range full {
		full[i] = byte(0x10*i + 15 - i)
	}
	for i := range fs {
		fs[i] = byte(0xf0 - 0x11*i)
	}
	ts = append(ts, full, trace.TraceID{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff})
	ss = append(ss, fs, trace.SpanID{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff})
	for _, t := range ts {
		for _, s := range ss {
			for _, o := range opts {
				out = append(out, trace.SpanContext{TraceID: t, SpanID: s, TraceOptions: o})
			}
		}
	}
	return out
}

// refBinary parses the documented binary format.
func refBinary(b []byte) (sc trace.SpanContext, ok bool) {
	if len(b) < 18 || b[0] != 0 || b[1] != 0 {
		return
	}
	for i := 0; i < 16; i++ {
		sc.TraceID[i] = b[2+i]
	}
	p := 18
	if len(b) >= p+9 && b[p] == 1 {
		for i := 0; i < 8; i++ {
			sc.SpanID[i] = b[p+1+i]
		}
		p += 9
	}
	if len(b) >= p+2 && b[p] == 2 {
		sc.TraceOptions = trace.TraceOptions(b[p+1])
	}
	return sc, true
}

func init() {
	var allOpts []trace.TraceOptions
	for o := 0; o < 256; o++ {
		allOpts = append(allOpts, trace.TraceOptions(o))
	}
	vh.Add(&vh.Task{Prop: "C19", Name: "round-trip", Shards: [2]int{2, 8}, Seq: func(s *vh.S) {
		for _, sc := range append(contexts(allOpts), trace.SpanContext{TraceOptions: 1}, trace.SpanContext{TraceID: trace.TraceID{1}}, trace.SpanContext{SpanID: trace.SpanID{1}}) {
			if !s.Mine() || s.Stop() {
				continue
			}
			s.Guard(scStr(sc), func() {
				b := propagation.Binary(sc)
				w := append([]byte{0, 0}, sc.TraceID[:]...)
				w = append(append(append(w, 1), sc.SpanID[:]...), 2, byte(sc.TraceOptions))
				if !bytes.Equal(b, w) {
					s.Failf(scStr(sc), "encoding %x, want %x", b, w)
				}
				if g, ok := propagation.FromBinary(b); !ok || g != sc {
					s.Failf(scStr(sc), "decoded %s %v", scStr(g), ok)
				}
				// every encoding is its own memory
				b[5]++
				if b2 := propagation.Binary(sc); !bytes.Equal(b2, w) {
					s.Failf(scStr(sc), "second encoding %x", b2)
				}
			})
			s.Case(2)
			s.Outcome("%s", sc.SpanID)
		}
		if b := propagation.Binary(trace.SpanContext{}); b != nil {
			s.Failf("zero", "encoding %x", b)
		}
	}})
	vh.Add(&vh.Task{Prop: "C19", Name: "decode", Shards: [2]int{8, 8}, Seq: func(s *vh.S) {
		check := func(b []byte) {
			if !s.Mine() || s.Stop() {
				return
			}
			buf := append(append([]byte(nil), b...), 1, 9, 9, 9, 9, 9, 9, 9, 9, 2, 9)
			in := buf[:len(b)]
			s.Guard(hex.EncodeToString(b), func() {
				g, ok := propagation.FromBinary(in)
				w, wok := refBinary(b)
				if ok != wok || g != w {
					s.Failf(hex.EncodeToString(b), "decoded %s %v, want %s %v", scStr(g), ok, scStr(w), wok)
				}
				if !bytes.Equal(in, b) {
					s.Failf(hex.EncodeToString(b), "input changed to %x", in)
				}
				s.Outcome("%v %v %d", ok, g.SpanID != trace.SpanID{}, g.TraceOptions)
			})
			s.Case(1)
			s.Sample("%x", b)
		}
		valid := []byte{0, 0, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 1, 97, 98, 99, 100, 101, 102, 103, 104, 2, 1}
		for n := 0; n <= len(valid); n++ {
			check(valid[:n])
			for c := 0; c < 256; c++ {
				d := append([]byte(nil), valid[:n]...)
				check(append(d, byte(c)))
				for _, e := range []byte{0, 1, 2, 3, 255} {
					check(append(append([]byte(nil), valid[:n]...), byte(c), e))
					check(append(append(append([]byte(nil), valid[:n]...), byte(c), e), valid[n:]...))
				}
			}
			// one byte removed, doubled, changed
			if n < len(valid) {
				check(append(append([]byte(nil), valid[:n]...), valid[n+1:]...))
				check(append(append([]byte(nil), valid[:n+1]...), valid[n:]...))
				for c := 0; c < 256; c++ {
					d := append([]byte(nil), valid...)
					d[n] = byte(c)
					check(d)
				}
			}
		}
		// structural bytes in all combinations
		st := []int{0, 1, 18, 27, 28}
		for i := 0; i < len(st); i++ {
			for j := i + 1; j < len(st); j++ {
				for c := 0; c < 256; c++ {
					for e := 0; e < 256; e += s.Pick(5, 1) {
						d := append([]byte(nil), valid...)
						d[st[i]], d[st[j]] = byte(c), byte(e)
						check(d)
					}
				}
			}
		}
		// every sequence of up to four fields, complete or one byte short or long, in any order
		fields := [][]byte{valid[1:18], valid[18:27], valid[27:29], valid[1:17], valid[18:26], valid[27:28], append([]byte{0}, make([]byte, 16)...), append([]byte{1}, make([]byte, 8)...), {2, 0}, {2, 255}, {3}, {3, 1}, {}}
		for _, v := range []byte{0, 1, 255} {
			s.Seqs(len(fields), s.Pick(4, 5), func(seq []int) {
				d := []byte{v}
				for _, l := range seq {
					d = append(d, fields[l]...)
				}
				sh := s.Shards
				s.Shards = 1
				check(d)
				s.Shards = sh
			})
		}
	}})
}

func hdr(kv ...string) *http.Request {
	r := &http.Request{Header: http.Header{}}
	for i := 0; i < len(kv); i += 2 {
		r.Header[kv[i]] = append(r.Header[kv[i]], kv[i+1])
	}
	return r
}

// mutations calls f with s, every truncation, deletion, doubling, and replacement or insertion of bytes.
func mutations(x string, all bool, f func(string)) {
	f(x)
	bs := []byte("0189afgAFG-_/;=, \t.+x\x00\x7f\x80\xff\n\r")
	if all {
		bs = nil
		for c := 0; c < 256; c++ {
			bs = append(bs, byte(c))
		}
	}
	for i := 0; i <= len(x); i++ {
		f(x[:i])
		f(x[i:])
		for _, c := range bs {
			f(x[:i] + string([]byte{c}) + x[i:])
			if i < len(x) {
				f(x[:i] + string([]byte{c}) + x[i+1:])
			}
		}
		if i < len(x) {
			f(x[:i] + x[i+1:])
		}
		if i+1 < len(x) {
			f(x[:i] + x[i+1:i+2] + x[i:i+1] + x[i+2:])
			f(x[:i] + x[i+2:])
		}
	}
	f(x + x)
	f(strings.ToUpper(x))
}

// ---- C20 ----

func refB3(tid, sid, smp string) (sc trace.SpanContext, ok bool) {
	t, ok1 := unhex(tid)
	p, ok2 := unhex(sid)
	if !ok1 || !ok2 || len(t) == 0 || len(p) == 0 || len(t) > 16 || len(p) > 8 {
		return
	}
	for i := range t {
		sc.TraceID[16-len(t)+i] = t[i]
	}
	for i := range p {
		sc.SpanID[8-len(p)+i] = p[i]
	}
	if smp == "1" || smp == "true" {
		sc.TraceOptions = 1
	}
	return sc, true
}

const hexs = "0123456789abcdefABCDEF0123456789abcdef0123456789"

func init() {
	f := &b3.HTTPFormat{}
	vh.Add(&vh.Task{Prop: "C20", Name: "round-trip", Shards: [2]int{2, 4}, Seq: func(s *vh.S) {
		for _, sc := range contexts([]trace.TraceOptions{0, 1, 2, 3, 255, 0xfffffffe, 0xffffffff}) {
			for pre := 0; pre < 2; pre++ {
				if !s.Mine() || s.Stop() {
					continue
				}
				s.Guard(scStr(sc), func() {
					r := hdr("Other", "x")
					if pre == 1 {
						r = hdr("X-B3-Traceid", "1", "X-B3-Traceid", "2", "X-B3-Spanid", "3", "X-B3-Sampled", "1", "X-B3-Sampled", "true")
					}
					f.SpanContextToRequest(sc, r)
					g, ok := f.SpanContextFromRequest(r)
					w := sc
					w.TraceOptions &= 1
					if !ok || g != w {
						s.Failf(scStr(sc), "read back %s %v", scStr(g), ok)
					}
					if r.Header.Get(b3.TraceIDHeader) != sc.TraceID.String() || r.Header.Get(b3.SpanIDHeader) != sc.SpanID.String() || len(r.Header[http.CanonicalHeaderKey(b3.TraceIDHeader)]) != 1 {
						s.Failf(scStr(sc), "headers %v", r.Header)
					}
				})
				s.Case(1)
				s.Outcome("%s %d", sc.SpanID, sc.TraceOptions)
			}
		}
	}})
	vh.Add(&vh.Task{Prop: "C20", Name: "parse", Shards: [2]int{4, 8}, Seq: func(s *vh.S) {
		check := func(r *http.Request, tid, sid, smp string) {
			if !s.Mine() || s.Stop() {
				return
			}
			cas := fmt.Sprintf("%q %q %q", tid, sid, smp)
			s.Guard(cas, func() {
				g, ok := f.SpanContextFromRequest(r)
				w, wok := refB3(tid, sid, smp)
				if ok != wok || g != w {
					s.Failf(cas, "read %s %v, want %s %v", scStr(g), ok, scStr(w), wok)
				}
				t, tok := b3.ParseTraceID(tid)
				wt, wtok := refB3(tid, "01", "")
				if tok != wtok || t != wt.TraceID {
					s.Failf(cas, "ParseTraceID %s %v, want %s %v", t, tok, wt.TraceID, wtok)
				}
				p, pok := b3.ParseSpanID(sid)
				wp, wpok := refB3("01", sid, "")
				if pok != wpok || p != wp.SpanID {
					s.Failf(cas, "ParseSpanID %s %v, want %s %v", p, pok, wp.SpanID, wpok)
				}
				o, ook := b3.ParseSampled(smp)
				if ook != (smp == "1" || smp == "true") || (o == 1) != ook || o > 1 {
					s.Failf(cas, "ParseSampled %d %v", o, ook)
				}
				s.Outcome("%v t%d s%d o%d", ok, len(tid), len(sid), g.TraceOptions)
			})
			s.Case(4)
			s.Sample("%s", cas)
		}
		do := func(tid, sid, smp string) {
			check(hdr("X-B3-Traceid", tid, "X-B3-Spanid", sid, "X-B3-Sampled", smp), tid, sid, smp)
		}
		smps := []string{"", "0", "1", "true", "false", "True", "TRUE", "01", " 1", "1 ", "d", "2", "t", "yes", "1,0"}
		// all lengths
		for n := 0; n <= 40; n++ {
			for m := 0; m <= 20; m++ {
				for off := 0; off < 6; off++ {
					for _, o := range smps[:4] {
						do(hexs[off:off+n], hexs[off:off+m], o)
					}
				}
				do(strings.Repeat("0", n), strings.Repeat("0", m), "1")
				do(strings.Repeat("f", n), strings.Repeat("F", m), "1")
				if n > 1 {
					do(strings.Repeat("0", n-1)+"1", "1"+strings.Repeat("0", m), "")
				}
			}
		}
		for _, t := range []string{"463ac35c9f6413ad48485a3953bb6124", "48485a3953bb6124", "", "0"} {
			for _, p := range []string{"0020000000000001", "1a", "", "+1"} {
				for _, o := range smps {
					do(t, p, o)
				}
			}
		}
		mutations("463ac35c9f6413ad48485a3953bb6124", true, func(x string) { do(x, "0020000000000001", "1") })
		mutations("48485a3953bb6124", true, func(x string) { do(x, "0020000000000001", "1") })
		mutations("0020000000000001", true, func(x string) { do("463ac35c9f6413ad48485a3953bb6124", x, "1") })
		mutations("true", true, func(x string) { do("463ac35c9f6413ad48485a3953bb6124", "0020000000000001", x) })
		mutations("1", true, func(x string) { do("463ac35c9f6413ad48485a3953bb6124", "0020000000000001", x) })
		// missing headers and repeated ones: the first value counts
		check(hdr(), "", "", "")
		check(hdr("X-B3-Traceid", "01"), "01", "", "")
		check(hdr("X-B3-Spanid", "01"), "", "01", "")
		check(hdr("X-B3-Traceid", "01", "X-B3-Spanid", "02"), "01", "02", "")
		check(hdr("X-B3-Traceid", "01", "X-B3-Traceid", "zz", "X-B3-Spanid", "02", "X-B3-Spanid", "zz", "X-B3-Sampled", "1", "X-B3-Sampled", "0"), "01", "02", "1")
		check(hdr("X-B3-Traceid", "01", "X-B3-Spanid", "02", "X-B3-Parentspanid", "03", "X-B3-Flags", "1"), "01", "02", "")
	}})
}

// ---- C21 ----

func tsKeyOK(k string) bool {
	word := func(x string, max int) bool {
		if len(x) == 0 || len(x) > max || x[0] < 'a' || x[0] > 'z' {
			return false
		}
		for i := 1; i < len(x); i++ {
			c := x[i]
			if !(c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '_' || c == '-' || c == '*' || c == '/') {
				return false
			}
		}
		return true
	}
	if i := strings.IndexByte(k, '@'); i >= 0 {
		return word(k[:i], 241) && word(k[i+1:], 14)
	}
	return word(k, 256)
}

func tsValOK(v string) bool {
	if len(v) == 0 || len(v) > 256 || v[len(v)-1] == ' ' {
		return false
	}
	for i := 0; i < len(v); i++ {
		if v[i] < 0x20 || v[i] > 0x7e || v[i] == ',' || v[i] == '=' {
			return false
		}
	}
	return true
}

// refTS derives a trace state, nil if that fails.
func refTS(parent []tracestate.Entry, es []tracestate.Entry) ([]tracestate.Entry, bool) {
	seen := map[string]bool{}
	out := []tracestate.Entry{}
	for _, e := range es {
		if seen[e.Key] || !tsKeyOK(e.Key) || !tsValOK(e.Value) {
			return nil, false
		}
		seen[e.Key] = true
		out = append(out, e)
	}
	for _, e := range parent {
		if !seen[e.Key] {
			out = append(out, e)
		}
	}
	if len(out) > 32 {
		return nil, false
	}
	return out, true
}

func refTSHeader(h string) []tracestate.Entry {
	if h == "" {
		return nil
	}
	var es []tracestate.Entry
	n := -1
	for _, p := range strings.Split(h, ",") {
		p = strings.Trim(p, " \t")
		n += len(p) + 1
		kv := strings.Split(p, "=")
		if len(kv) != 2 || n > 512 {
			return nil
		}
		es = append(es, tracestate.Entry{Key: kv[0], Value: kv[1]})
	}
	out, ok := refTS(nil, es)
	if !ok {
		return nil
	}
	return out
}

func refTraceparent(tps []string, ts string) (sc trace.SpanContext, es []tracestate.Entry, ok bool) {
	if len(tps) != 1 {
		return
	}
	f := strings.Split(tps[0], "-")
	if len(f) < 4 || len(f[0]) != 2 || len(f[1]) != 32 || len(f[2]) != 16 || len(f[3]) != 2 {
		return
	}
	v, ok0 := unhex(f[0])
	t, ok1 := unhex(f[1])
	p, ok2 := unhex(f[2])
	o, ok3 := unhex(f[3])
	if !ok0 || !ok1 || !ok2 || !ok3 || v[0] == 255 || v[0] == 0 && len(f) != 4 {
		return
	}
	copy(sc.TraceID[:], t)
	copy(sc.SpanID[:], p)
	if sc.TraceID == (trace.TraceID{}) || sc.SpanID == (trace.SpanID{}) {
		return trace.SpanContext{}, nil, false
	}
	sc.TraceOptions = trace.TraceOptions(o[0])
	return sc, refTSHeader(ts), true
}

func init() {
	f := &tracecontext.HTTPFormat{}
	check := func(s *vh.S, tps, tss []string) {
		if !s.Mine() || s.Stop() {
			return
		}
		cas := fmt.Sprintf("%q %q", tps, tss)
		s.Guard(cas, func() {
			r := hdr()
			if tps != nil {
				r.Header["Traceparent"] = tps
			}
			if tss != nil {
				r.Header["Tracestate"] = tss
			}
			g, ok := f.SpanContextFromRequest(r)
			w, es, wok := refTraceparent(tps, strings.Join(tss, ","))
			gts := g.Tracestate.Entries()
			g.Tracestate = nil
			if ok != wok || g != w || fmt.Sprint(gts) != fmt.Sprint(es) {
				s.Failf(cas, "read %s %v %v, want %s %v %v", scStr(g), gts, ok, scStr(w), es, wok)
			}
			if len(tps) == 1 {
				h, hok := f.SpanContextFromHeaders(tps[0], strings.Join(tss, ","))
				hts := h.Tracestate.Entries()
				h.Tracestate = nil
				if hok != wok || h != w || fmt.Sprint(hts) != fmt.Sprint(es) {
					s.Failf(cas, "from headers %s %v %v, want %s %v %v", scStr(h), hts, hok, scStr(w), es, wok)
				}
			}
			s.Outcome("%v %v", ok, es)
		})
		s.Case(2)
		s.Sample("%s", cas)
	}
	const tp = "00-4bf92f3577b34da6a3ce929d0e0e4736-00f067aa0ba902b7-01"
	vh.Add(&vh.Task{Prop: "C21", Name: "parse-parent", Shards: [2]int{4, 8}, Seq: func(s *vh.S) {
		one := func(x string) { check(s, []string{x}, nil); check(s, []string{x}, []string{"a=1"}) }
		mutations(tp, true, one)
		mutations("01-4bf92f3577b34da6a3ce929d0e0e4736-00f067aa0ba902b7-01-extra", true, one)
		mutations("cc-12345678901234567890123456789012-1234567890123456-01.what", false, one)
		// all versions with all flags and extra fields
		for v := 0; v < 256; v++ {
			for o := 0; o < 256; o++ {
				for _, x := range []string{"", "-", "-x", "-0-1-2"} {
					if o > 3 && o < 250 && x != "" && v > 1 {
						continue
					}
					one(fmt.Sprintf("%02x-4bf92f3577b34da6a3ce929d0e0e4736-00f067aa0ba902b7-%02x%s", v, o, x))
					if o&0xf >= 10 || v&0xf >= 10 {
						// capitals, and capitals and small letters mixed
						one(fmt.Sprintf("%02X-4BF92F3577B34DA6A3CE929D0E0E4736-00F067AA0BA902B7-%02X%s", v, o, x))
						one(fmt.Sprintf("%x%X-4bF92F3577B34DA6A3CE929D0E0E473a-00F067aA0ba902b7-%x%X%s", v>>4, v&15, o>>4, o&15, x))
					}
				}
			}
		}
		// all lengths of all fields
		for a := 0; a <= 4; a++ {
			for b := 30; b <= 34; b++ {
				for c := 14; c <= 18; c++ {
					for d := 0; d <= 6; d++ {
						for _, h := range []string{"0", "1", "f", "F", "g"} {
							one(strings.Repeat("0", a) + "-" + strings.Repeat(h, b) + "-" + strings.Repeat(h, c) + "-" + strings.Repeat(h, d))
							one(strings.Repeat("1", a) + "-" + strings.Repeat("1", b) + "-" + strings.Repeat("2", c) + "-" + strings.Repeat(h, d) + "-")
						}
					}
				}
			}
		}
		// zero and nearly zero identifiers
		for i := 0; i < 32; i++ {
			for j := 0; j <= 16; j++ {
				t, p := []byte(strings.Repeat("0", 32)), []byte(strings.Repeat("0", 16))
				if i > 0 {
					t[i] = '1'
				}
				if j < 16 {
					p[j] = '8'
				}
				one("00-" + string(t) + "-" + string(p) + "-01")
			}
		}
		// missing and repeated headers
		for _, l := range [][]string{nil, {}, {""}, {tp, tp}, {"", tp}, {tp, ""}, {"01" + tp[2:], "x"}, {"01" + tp[2:] + "-", tp}, {"01" + tp[2:] + "-x", "y"}} {
			for _, t := range [][]string{nil, {""}, {"a=1"}, {"a=1", "b=2"}, {"a=1", "a=2"}} {
				check(s, l, t)
			}
		}
	}})
	vh.Add(&vh.Task{Prop: "C21", Name: "parse-state", Shards: [2]int{8, 8}, Weight: 2, Seq: func(s *vh.S) {
		one := func(x ...string) { check(s, []string{tp}, x) }
		mutations("foo=bar,b1@v=c d ,  x=1\t,q=z", true, func(x string) { one(x) })
		// all short strings over the separators
		abc := []string{"a", "b", "=", ",", " ", "\t", "@", "1", "A"}
		for n := 0; n <= s.Pick(5, 7); n++ {
			s.Seqs(len(abc), n, func(seq []int) {
				x := ""
				for _, l := range seq {
					x += abc[l]
				}
				sh := s.Shards
				s.Shards = 1
				one(x)
				s.Shards = sh
			})
		}
		// lists of entries, joined and split over several headers
		es := []string{"a=1", "b=2", "a=3", "c@v=4", " d=5 ", "e= 6", "f=", "=7", "g", "", " ", "h=i=j", "K=1", "l=\u00e9", "m=x\ty", "n=o\n"}
		s.Seqs(len(es), s.Pick(3, 4), func(seq []int) {
			sh := s.Shards
			s.Shards = 1
			var l []string
			for _, i := range seq {
				l = append(l, es[i])
			}
			one(strings.Join(l, ","))
			one(l...)
			one(l[0], strings.Join(l[1:], ","))
			s.Shards = sh
		})
		// the number of entries
		for n := 0; n <= 40; n++ {
			var l []string
			for i := 0; i < n; i++ {
				l = append(l, fmt.Sprintf("k%d=%d", i, i))
			}
			one(strings.Join(l, ","))
			one(append(l, "k0=2")...)
		}
		// total length, with and without white space
		for n := 500; n <= 520; n++ {
			for _, parts := range []int{1, 2, 3, 4} {
				for ws := 0; ws < 4; ws++ {
					left := n - (parts - 1) - 2*parts
					x := ""
					for p := 0; p < parts; p++ {
						l := left / parts
						if p == 0 {
							l += left % parts
						}
						if p > 0 {
							x += ","
						}
						x += strings.Repeat(" ", ws) + string(rune('a'+p)) + "=" + strings.Repeat("v", l) + strings.Repeat("\t", ws*3)
					}
					one(x)
				}
			}
		}
		for n := 0; n <= 260; n++ {
			one(strings.Repeat("k", n) + "=v")
			one("k=" + strings.Repeat("v", n))
			one(strings.Repeat("k", n) + "@v=v")
			one("k@" + strings.Repeat("v", n) + "=v")
		}
	}})
	vh.Add(&vh.Task{Prop: "C21", Name: "round-trip", Shards: [2]int{4, 8}, Seq: func(s *vh.S) {
		type st struct {
			es   []tracestate.Entry
			fits bool
		}
		var sts []st
		add := func(fits bool, kv ...string) {
			var es []tracestate.Entry
			for i := 0; i < len(kv); i += 2 {
				es = append(es, tracestate.Entry{Key: kv[i], Value: kv[i+1]})
			}
			sts = append(sts, st{es, fits})
		}
		add(true)
		add(true, "a", "1")
		add(true, "b", "2", "a", "1", "c@v", "x y")
		add(true, "a", " lead")
		add(true, "a", "!~+;-<>", "z", strings.Repeat("v", 256))
		add(true, "a", strings.Repeat("v", 253), "b", strings.Repeat("w", 254)) // 512
		add(false, "a", strings.Repeat("v", 254), "b", strings.Repeat("w", 254))
		var many []string
		for i := 0; i < 32; i++ {
			many = append(many, fmt.Sprintf("k%d", i), fmt.Sprint(i))
		}
		add(true, many...)
		opts := []trace.TraceOptions{0, 1, 2, 3, 128, 255}
		for _, sc := range contexts(opts) {
			for i, x := range sts {
				for pre := 0; pre < 2; pre++ {
					if !s.Mine() || s.Stop() {
						continue
					}
					if !s.Thorough && i > 0 && sc.SpanID[7] == 0 {
						continue
					}
					cas := fmt.Sprintf("%s state %d headers before %d", scStr(sc), i, pre)
					s.Guard(cas, func() {
						t, err := tracestate.New(nil, x.es...)
						if err != nil {
							s.Failf(cas, "New: %v", err)
						}
						c := sc
						c.Tracestate = t
						r := hdr()
						if pre == 1 {
							r = hdr("Traceparent", "00-11111111111111111111111111111111-2222222222222222-00", "Traceparent", "x", "Tracestate", "old=1", "Tracestate", "older=2")
						}
						f.SpanContextToRequest(c, r)
						g, ok := f.SpanContextFromRequest(r)
						want := "[]"
						if x.fits {
							want = fmt.Sprint(x.es)
						}
						if !ok || g.TraceID != c.TraceID || g.SpanID != c.SpanID || g.TraceOptions&1 != c.TraceOptions&1 || fmt.Sprint(g.Tracestate.Entries()) != want {
							s.Failf(cas, "read back %s %v, want trace state %s; headers %v", scStr(g), ok, want, r.Header)
						}
						tp, ts := f.SpanContextToHeaders(c)
						h, ok := f.SpanContextFromHeaders(tp, ts)
						if !ok || scStr(h) != scStr(g) {
							s.Failf(cas, "headers %q %q read back as %s", tp, ts, scStr(h))
						}
						if w := fmt.Sprintf("00-%s-%s-%02x", c.TraceID, c.SpanID, byte(c.TraceOptions)); tp != w {
							s.Failf(cas, "traceparent %q, want %q", tp, w)
						}
					})
					s.Case(2)
					s.Outcome("%d %d %s", i, sc.TraceOptions, sc.SpanID)
				}
			}
		}
	}})
}

// ---- C22 ----

func init() {
	vh.Add(&vh.Task{Prop: "C22", Name: "validation", Shards: [2]int{4, 8}, Seq: func(s *vh.S) {
		check := func(k, v string) {
			if !s.Mine() || s.Stop() {
				return
			}
			cas := fmt.Sprintf("%q=%q", k, v)
			s.Guard(cas, func() {
				t, err := tracestate.New(nil, tracestate.Entry{Key: k, Value: v})
				ok := tsKeyOK(k) && tsValOK(v)
				if (err == nil) != ok || (t != nil) != ok || ok && fmt.Sprint(t.Entries()) != fmt.Sprint([]tracestate.Entry{{Key: k, Value: v}}) {
					s.Failf(cas, "got %v %v, want accepted: %v", t, err, ok)
				}
				s.Outcome("%d %d %v", len(k), len(v), ok)
			})
			s.Case(1)
			s.Sample("%s", cas)
		}
		for c := 0; c < 256; c++ {
			x := string([]byte{byte(c)})
			for _, k := range []string{x, "a" + x, x + "a", "a" + x + "b", "a@" + x, "a@b" + x, "a" + x + "@b", "@" + x, x + "@b", strings.Repeat("k", 255) + x, strings.Repeat("k", 240) + x + "@v", "k@" + strings.Repeat("v", 13) + x} {
				check(k, "v")
			}
			for _, v := range []string{x, "a" + x, x + "a", "a" + x + "b", " " + x, x + x, strings.Repeat("v", 255) + x, x + strings.Repeat("v", 255)} {
				check("k", v)
			}
		}
		for n := 0; n <= 260; n++ {
			check(strings.Repeat("k", n), "v")
			check("k", strings.Repeat("v", n))
			check("k", strings.Repeat(" ", n)+"v")
			for _, m := range []int{0, 1, 12, 13, 14, 15, 16} {
				check(strings.Repeat("k", n)+"@"+strings.Repeat("v", m), "v")
			}
		}
		abc := []string{"a", "z", "0", "@", "A", "-", "*", "/", "_", " ", "\u00e9", "="}
		s.Seqs(len(abc), s.Pick(4, 5), func(seq []int) {
			x := ""
			for _, l := range seq {
				x += abc[l]
			}
			sh := s.Shards
			s.Shards = 1
			check(x, "v")
			check("k", x)
			s.Shards = sh
		})
		for r := rune(0x80); r < 0x800; r++ {
			check("a"+string(r), "v")
			check("k", "v"+string(r)+"v")
		}
	}})
	// all chains of derivations with small batches; every earlier state and every argument stays as it was
	vh.Add(&vh.Task{Prop: "C22", Name: "derivations", Shards: [2]int{8, 8}, Weight: 2, Seq: func(s *vh.S) {
		ks := []string{"a", "b", "c"}
		var batches [][]tracestate.Entry
		batches = append(batches, nil)
		for i := range ks {
			batches = append(batches, []tracestate.Entry{{Key: ks[i], Value: "1"}})
			for j := range ks {
				batches = append(batches, []tracestate.Entry{{Key: ks[i], Value: "2"}, {Key: ks[j], Value: "3"}})
			}
		}
		batches = append(batches, []tracestate.Entry{{Key: "c", Value: "4"}, {Key: "a", Value: "5"}, {Key: "b", Value: "6"}}, []tracestate.Entry{{Key: "a", Value: "7"}, {Key: "", Value: "8"}}, []tracestate.Entry{{Key: "b", Value: ""}})
		depth := s.Pick(4, 5)
		for spare := 0; spare < 3; spare++ {
			s.Seqs(len(batches), depth, func(seq []int) {
				cas := fmt.Sprint("spare ", spare)
				for _, l := range seq {
					cas += fmt.Sprint(" ", batches[l])
				}
				s.Guard(cas, func() {
					// with spare: the entries are slices of an array with room behind them
					shared := make([]tracestate.Entry, 0, 8)
					var sts []*tracestate.Tracestate
					var want [][]tracestate.Entry
					var cur *tracestate.Tracestate
					var curW []tracestate.Entry
					for i, l := range seq {
						b := append([]tracestate.Entry(nil), batches[l]...)
						if spare > 0 {
							b = append(shared[:0], batches[l]...)
						}
						parent, parentW := cur, curW
						if spare == 2 && i > 0 && i%2 == 0 { // siblings
							parent = sts[0]
							parentW = want[0]
						}
						t, err := tracestate.New(parent, b...)
						w, ok := refTS(parentW, b)
						if parent == nil && len(b) == 0 {
							w = nil
						}
						if (err == nil) != ok || err != nil && t != nil {
							s.Failf(cas, "step %d: %v %v, want success: %v", i, t, err, ok)
							return
						}
						if ok && fmt.Sprint(t.Entries()) != fmt.Sprint(w) {
							s.Failf(cas, "step %d: %v, want %v", i, t.Entries(), w)
						}
						if fmt.Sprint(b) != fmt.Sprint(append([]tracestate.Entry(nil), batches[l]...)) {
							s.Failf(cas, "step %d: the arguments were changed to %v", i, b)
						}
						for _, e := range shared[:8][len(b):] {
							if spare > 0 && i == 0 && e != (tracestate.Entry{}) {
								s.Failf(cas, "step %d: wrote behind the arguments: %v", i, shared[:8])
							}
						}
						if ok {
							cur, curW = t, append([]tracestate.Entry(nil), w...)
						}
						sts, want = append(sts, cur), append(want, curW)
						// the caller goes on to use its own slice
						for j := range b {
							b[j] = tracestate.Entry{Key: "zz", Value: "overwritten"}
						}
						for j := range sts {
							if fmt.Sprint(sts[j].Entries()) != fmt.Sprint(want[j]) {
								s.Failf(cas, "after step %d: state %d is %v, was %v", i, j, sts[j].Entries(), want[j])
							}
						}
					}
					s.Outcome("%v", curW)
				})
				s.Case(depth)
				s.Sample("%s", cas)
			})
		}
	}})
	// sizes: p parent entries, n new ones of which o override
	vh.Add(&vh.Task{Prop: "C22", Name: "sizes", Shards: [2]int{4, 8}, Seq: func(s *vh.S) {
		for p := 0; p <= 32; p++ {
			for n := 0; n <= 34; n++ {
				for o := 0; o <= n && o <= p; o++ {
					for dup := 0; dup < 2; dup++ {
						if !s.Mine() || s.Stop() {
							continue
						}
						cas := fmt.Sprintf("parent %d new %d overriding %d duplicate %d", p, n, o, dup)
						s.Guard(cas, func() {
							var pe, ne []tracestate.Entry
							for i := 0; i < p; i++ {
								pe = append(pe, tracestate.Entry{Key: fmt.Sprint("p", i), Value: "v"})
							}
							for i := 0; i < n; i++ {
								k := fmt.Sprint("n", i)
								if i < o {
									k = fmt.Sprint("p", (i*7+p/2)%p)
								}
								ne = append(ne, tracestate.Entry{Key: k, Value: "w"})
							}
							if dup == 1 && n > 0 {
								ne[n-1].Key = ne[0].Key
							}
							pt, err := tracestate.New(nil, pe...)
							if err != nil {
								s.Failf(cas, "parent: %v", err)
								return
							}
							t, err := tracestate.New(pt, ne...)
							w, ok := refTS(pe, ne)
							if (err == nil) != ok || (t != nil) != (ok && !(p == 0 && n == 0)) || ok && fmt.Sprint(t.Entries()) != fmt.Sprint(w) {
								s.Failf(cas, "got %v %v, want %v %v", t.Entries(), err, w, ok)
							}
							if fmt.Sprint(pt.Entries()) != fmt.Sprint(pe) {
								s.Failf(cas, "parent changed to %v", pt.Entries())
							}
							s.Outcome("%v %d", ok, len(w))
						})
						s.Case(1)
					}
				}
			}
		}
	}})
}

// ---- C23 ----

func refSD(h string) (sc trace.SpanContext, ok bool) {
	if len(h) > 200 {
		return
	}
	i := strings.IndexByte(h, '/')
	if i != 32 {
		return
	}
	t, tok := unhex(h[:32])
	if !tok {
		return
	}
	rest := h[33:]
	opt := ""
	if j := strings.IndexByte(rest, ';'); j >= 0 {
		rest, opt = rest[:j], rest[j+1:]
	}
	num := func(x string, bits uint) (uint64, bool) {
		if x == "" {
			return 0, false
		}
		for k := 0; k < len(x); k++ {
			if x[k] < '0' || x[k] > '9' {
				return 0, false
			}
		}
		b, _ := new(big.Int).SetString(x, 10)
		if uint(b.BitLen()) > bits {
			return 0, false
		}
		return b.Uint64(), true
	}
	p, pok := num(rest, 64)
	if !pok {
		return
	}
	var o uint64
	if strings.HasPrefix(opt, "o=") {
		var ook bool
		if o, ook = num(opt[2:], 32); !ook {
			return
		}
	}
	copy(sc.TraceID[:], t)
	for k := 0; k < 8; k++ {
		sc.SpanID[k] = byte(p >> uint(56-8*k))
	}
	sc.TraceOptions = trace.TraceOptions(o)
	return sc, true
}

func init() {
	f := &sdprop.HTTPFormat{}
	vh.Add(&vh.Task{Prop: "C23", Name: "round-trip", Shards: [2]int{2, 4}, Seq: func(s *vh.S) {
		for _, sc := range contexts([]trace.TraceOptions{0, 1, 2, 3, 255, 256, 1 << 31, 0xffffffff}) {
			for pre := 0; pre < 2; pre++ {
				if !s.Mine() || s.Stop() {
					continue
				}
				s.Guard(scStr(sc), func() {
					r := hdr()
					if pre == 1 {
						r = hdr("X-Cloud-Trace-Context", "x", "X-Cloud-Trace-Context", "y")
					}
					f.SpanContextToRequest(sc, r)
					g, ok := f.SpanContextFromRequest(r)
					if !ok || g != sc || len(r.Header["X-Cloud-Trace-Context"]) != 1 {
						s.Failf(scStr(sc), "read back %s %v; headers %v", scStr(g), ok, r.Header)
					}
				})
				s.Case(1)
				s.Outcome("%s %d", sc.SpanID, sc.TraceOptions)
			}
		}
	}})
	vh.Add(&vh.Task{Prop: "C23", Name: "parse", Shards: [2]int{4, 8}, Seq: func(s *vh.S) {
		check := func(h string) {
			if !s.Mine() || s.Stop() {
				return
			}
			s.Guard(fmt.Sprintf("%q", h), func() {
				g, ok := f.SpanContextFromRequest(hdr("X-Cloud-Trace-Context", h))
				w, wok := refSD(h)
				if ok != wok || ok && g != w {
					s.Failf(fmt.Sprintf("%q", h), "read %s %v, want %s %v", scStr(g), ok, scStr(w), wok)
				}
				s.Outcome("%v %s %d", ok, g.SpanID, g.TraceOptions)
			})
			s.Case(1)
			s.Sample("%q", h)
		}
		const tid = "105445aa7843bc8bf206b12000100000"
		mutations(tid+"/18374686479671623803;o=1", true, check)
		mutations(tid+"/1", true, check)
		mutations(tid+"/123;o=4294967295", true, check)
		mutations(tid+"/0;x=1;o=1", true, check)
		if _, ok := f.SpanContextFromRequest(hdr()); ok {
			s.Failf("no header", "accepted")
		}
		nums := []string{"", "0", "1", "01", "00000000000000000000000001", "9", "255", "256", "4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551614", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "-1", "+1", " 1", "1 ", "0x1", "1e3", "1_0", "a", "\u0661"}
		for n := 0; n <= 40; n++ {
			for _, x := range nums {
				for _, o := range append([]string{"-"}, nums...) {
					t := hexs[:n]
					if n > 40 {
						t = ""
					}
					h := t + "/" + x
					if o != "-" {
						h += ";o=" + o
					}
					if n == 32 || len(x) < 3 || o == "1" {
						check(h)
					}
				}
			}
		}
		for _, o := range []string{";", ";;", ";o", ";o=", ";O=1", ";o=1;", ";o=1;o=2", ";p=1", "; o=1", ";o =1", ";o=1 ", "/", "/1", ";o=1/2"} {
			for _, x := range nums {
				check(tid + "/" + x + o)
			}
		}
		for n := 190; n <= 210; n++ {
			check(tid + "/" + strings.Repeat("0", n-33))
			check(tid + "/1;o=" + strings.Repeat("0", n-37))
			check(tid + "/1;" + strings.Repeat("x", n-35))
			check(strings.Repeat("0", n))
		}
		abc := []string{"0", "1", "9", "/", ";", "o=", "o", "=", "-", "a"}
		s.Seqs(len(abc), s.Pick(5, 6), func(seq []int) {
			x := ""
			for _, l := range seq {
				x += abc[l]
			}
			sh := s.Shards
			s.Shards = 1
			check(tid + "/" + x)
			check(tid + x)
			s.Shards = sh
		})
	}})
}
