package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/resource"
)

// refLabels parses the text form of labels. skip is set for texts whose meaning is not documented.
func refLabels(s string) (m map[string]string, ok, skip bool) {
	m = map[string]string{}
	s = strings.TrimRight(strings.TrimSpace(s), ",")
	if s == "" {
		return m, true, false
	}
	s += ","
	for s != "" {
		k := strings.TrimLeft(s, " \t\n\f\r")
		i := strings.Index(k, `="`)
		if i == 0 {
			return nil, false, true // a blank key
		}
		if i < 0 || i > 256 {
			return nil, false, false
		}
		key := k[:i]
		rest := k[i+1:]
		j := 1
		n := 0
		for ; j < len(rest) && rest[j] != '"'; j++ {
			if rest[j] == '\\' {
				j++
			}
			n++
		}
		if j >= len(rest) || n > 256 {
			return nil, false, false
		}
		for _, c := range []byte(key + rest[:j+1]) {
			if c >= 0x80 {
				return nil, false, false
			}
		}
		v, err := strconv.Unquote(rest[:j+1])
		if err != nil {
			return nil, false, false
		}
		rest = strings.TrimLeft(rest[j+1:], " \t\n\f\r")
		if !strings.HasPrefix(rest, ",") {
			return nil, false, false
		}
		m[key] = v
		s = rest[1:]
	}
	return m, true, false
}

func labStr(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	x := ""
	for _, k := range ks {
		x += fmt.Sprintf("%.40q=%.40q(%d) ", k, m[k], len(m[k]))
	}
	return x
}

func init() {
	trip := func(s *vh.S, m map[string]string) {
		cas := labStr(m)
		s.Exec(cas, func() {
			c := map[string]string{}
			for k, v := range m {
				c[k] = v
			}
			e := resource.EncodeLabels(m)
			vsched.MapReverse(true)
			if e2 := resource.EncodeLabels(m); e2 != e {
				s.Failf(cas, "encoded as %s and as %s", e, e2)
			}
			if !reflect.DeepEqual(m, c) {
				s.Failf(cas, "encoding changed the labels")
			}
			got, err := resource.DecodeLabels(e)
			if err != nil || !reflect.DeepEqual(got, m) {
				s.Failf(cas, "encoded as %.300s, decoded as %s, %.300v", e, labStr(got), err)
			}
			if w, ok, _ := refLabels(e); !ok || !reflect.DeepEqual(w, m) {
				s.Failf(cas, "encoded as %.300s", e)
			}
		})
		s.Case(1)
		s.Outcome("%d labels", len(m))
	}
	vh.Add(&vh.Task{Prop: "C33", Name: "round-trip", Shards: [2]int{4, 8}, Seq: func(s *vh.S) {
		ks := []string{"a", "b", "example.org/test-1", "k=v", "a b", "a,b", `q"q`, `back\slash`, strings.Repeat("k", 256)}
		abc := []string{"a", `"`, `\`, ",", "=", " ", "b=", "n"}
		var vs []string
		for n := 0; n <= 3; n++ {
			s2 := *s
			s2.Shards = 1
			s2.Seqs(len(abc), n, func(seq []int) {
				x := ""
				for _, i := range seq {
					x += abc[i]
				}
				vs = append(vs, x)
			})
		}
		for i := 0x20; i < 0x7f; i++ {
			vs = append(vs, string(rune(i)), string(rune(i))+`",`, "x"+string(rune(i))+"y")
		}
		for _, n := range []int{127, 128, 129, 254, 255, 256} {
			for _, c := range []string{"a", `"`, `\`, ",", `",`} {
				vs = append(vs, strings.Repeat(c, n)[:n])
			}
		}
		trip(s, map[string]string{})
		for _, k := range ks {
			for _, v := range vs {
				if s.Mine() && !s.Stop() {
					trip(s, map[string]string{k: v})
				}
			}
		}
		sub := append(append([]string{}, vs[:80]...), `",`, `",b="`, `\",`, " ", "")
		if s.Thorough {
			sub = vs
		}
		for _, v := range sub {
			for _, w := range sub {
				if s.Mine() && !s.Stop() {
					trip(s, map[string]string{"a": v, "b": w})
				}
			}
		}
		for i := range ks {
			for j := range ks {
				for l := range ks {
					if i != j && j != l && i != l && s.Mine() && !s.Stop() {
						trip(s, map[string]string{ks[i]: `x",`, ks[j]: "", ks[l]: "y="})
					}
				}
			}
		}
	}})
	vh.Add(&vh.Task{Prop: "C33", Name: "decode", Shards: [2]int{8, 8}, Weight: 2, Seq: func(s *vh.S) {
		try := func(x string) {
			s.Guard(x, func() {
				got, err := resource.DecodeLabels(x)
				want, ok, skip := refLabels(x)
				if err != nil && got != nil {
					s.Failf(x, "error %v and labels %v", err, got)
				}
				if !skip && ((err == nil) != ok || ok && !reflect.DeepEqual(got, want)) {
					s.Failf(x, "%q decoded as %v, %v, want %v (%v)", x, got, err, want, ok)
				}
				s.Outcome("%v %v", ok, len(want))
			})
			s.Case(1)
			s.Sample("%q", x)
		}
		abc := []string{"a", "=", `"`, `\`, ",", " ", "\u00e9", `="`, `",`}
		s.Seqs(len(abc), s.Pick(6, 7), func(seq []int) {
			x := ""
			for _, i := range seq {
				x += abc[i]
			}
			try(x)
		})
		// edits of well formed lists
		for _, b := range []string{`a="b",c="d"`, ` a = "b" , cc="\"," ,`, `k="",l="\\",m="x"`, `a="b",a="c"`, "a=\"\\n\\x41\\u00e9\",\tb=\"c\"\n"} {
			for i := 0; i <= len(b); i++ {
				if !s.Mine() || s.Stop() {
					continue
				}
				try(b[:i])
				try(b[i:])
				for c := 0; c < 256; c++ {
					if c == '\v' {
						continue
					}
					try(b[:i] + string([]byte{byte(c)}) + b[i:])
					if i < len(b) {
						try(b[:i] + string([]byte{byte(c)}) + b[i+1:])
					}
				}
			}
		}
		for n := 250; n < 262; n++ {
			for _, c := range []string{"k", `\"`, `\\`, "=", ","} {
				try(fmt.Sprintf(`a="%s"`, strings.Repeat(c, n)))
			}
			try(fmt.Sprintf(`%s="v"`, strings.Repeat("k", n)))
		}
	}})
	// detectors: every sequence of results; merging is seen through them
	vh.Add(&vh.Task{Prop: "C33", Name: "detectors", Shards: [2]int{8, 8}, Weight: 2, Seq: func(s *vh.S) {
		var res []*resource.Resource
		res = append(res, nil)
		for _, t := range []string{"", "t1", "t2"} {
			for _, l := range []map[string]string{nil, {"a": "1"}, {"a": "2", "b": "2"}, {"b": "", "c": "3"}} {
				res = append(res, &resource.Resource{Type: t, Labels: l})
			}
		}
		e1, e2 := errors.New("first"), errors.New("second")
		n := len(res) + 2
		type ctxKey struct{}
		s.Seqs(n, s.Pick(4, 5), func(seq []int) {
			cas := fmt.Sprint(seq)
			s.Exec(cas, func() {
				calls := ""
				var ds []resource.Detector
				var in []*resource.Resource
				ctx := context.WithValue(bg, ctxKey{}, 1)
				for i, l := range seq {
					i, l := i, l
					var r *resource.Resource
					if l < len(res) && res[l] != nil {
						r = &resource.Resource{Type: res[l].Type}
						if res[l].Labels != nil {
							r.Labels = map[string]string{}
							for k, v := range res[l].Labels {
								r.Labels[k] = v
							}
						}
					}
					in = append(in, r)
					ds = append(ds, func(c context.Context) (*resource.Resource, error) {
						calls += fmt.Sprint(i)
						if c != ctx {
							s.Failf(cas, "detector %d gets another context", i)
						}
						if l == len(res) {
							return nil, e1
						}
						if l == len(res)+1 {
							return &resource.Resource{Type: "junk"}, e2
						}
						return r, nil
					})
				}
				wantCalls := ""
				var wantErr error
				wt, found := "", false
				wl := map[string]string{}
				for i, l := range seq {
					wantCalls += fmt.Sprint(i)
					if l >= len(res) {
						wantErr = []error{e1, e2}[l-len(res)]
						break
					}
					if r := res[l]; r != nil {
						found = true
						if wt == "" {
							wt = r.Type
						}
						for k, v := range r.Labels {
							if _, have := wl[k]; !have {
								wl[k] = v
							}
						}
					}
				}
				got, err := resource.MultiDetector(ds...)(ctx)
				if calls != wantCalls || err != wantErr {
					s.Failf(cas, "called %s with error %v, want %s, %v", calls, err, wantCalls, wantErr)
				}
				switch {
				case wantErr != nil:
					if got != nil {
						s.Failf(cas, "a result with an error: %v", got)
					}
				case !found:
					if got != nil {
						s.Failf(cas, "a result from nothing: %v", got)
					}
				default:
					if got == nil || got.Type != wt || len(got.Labels) != len(wl) || len(wl) > 0 && !reflect.DeepEqual(got.Labels, wl) {
						s.Failf(cas, "detected %v, want %s %v", got, wt, wl)
					}
				}
				for i, l := range seq {
					if l < len(res) && !reflect.DeepEqual(in[i], res[l]) {
						s.Failf(cas, "the result of detector %d was changed to %v", i, in[i])
					}
				}
				s.Outcome("%s %v %v", wt, wl, wantErr)
			})
			s.Case(len(seq))
			s.Sample("%s", cas)
		})
		if got, err := resource.MultiDetector()(bg); got != nil || err != nil {
			s.Failf("no detectors", "%v %v", got, err)
		}
	}})
	vh.Add(&vh.Task{Prop: "C33", Name: "environment", Seq: func(s *vh.S) {
		defer os.Unsetenv("OC_RESOURCE_TYPE")
		defer os.Unsetenv("OC_RESOURCE_LABELS")
		for _, t := range []string{"-", "", " ", "typ", " typ\t", "a b"} {
			for _, l := range []string{"-", "", "  ", `a="b"`, ` a="b" , c="d,\"" `, `a=b`, `a="b`, ",", `a="1",a="2"`} {
				cas := fmt.Sprintf("type %q labels %q", t, l)
				s.Guard(cas, func() {
					for v, x := range map[string]string{"OC_RESOURCE_TYPE": t, "OC_RESOURCE_LABELS": l} {
						if x == "-" {
							os.Unsetenv(v)
						} else {
							os.Setenv(v, x)
						}
					}
					wt := strings.TrimSpace(strings.TrimPrefix(t, "-"))
					wl, ok, _ := refLabels(strings.TrimPrefix(l, "-"))
					got, err := resource.FromEnv(bg)
					if (err == nil) != ok || !ok && got != nil {
						s.Failf(cas, "%v %v", got, err)
						return
					}
					if ok && (got == nil || got.Type != wt || len(got.Labels) != len(wl) || len(wl) > 0 && !reflect.DeepEqual(got.Labels, wl)) {
						s.Failf(cas, "%v, want %s %v", got, wt, wl)
					}
				})
				s.Outcome("%s", cas)
				s.Case(1)
			}
		}
	}})
}
