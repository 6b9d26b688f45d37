package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"runtime/pprof"
	"sort"
	"strings"

	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/tag"
)

var each map[string]string

// eachTag can be instantiated with the unexported metadata type of DecodeEach's callback.
func eachTag[M any](k tag.Key, v string, _ M) { each[k.Name()] = v }

type tval struct {
	v    string
	prop bool
}

type tmodel map[string]tval

func (m tmodel) clone() tmodel {
	c := tmodel{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

// sees compares the tags of a context with the model, including what would be propagated.
func (m tmodel) sees(ctx context.Context, universe []string) string {
	tm := tag.FromContext(ctx)
	for _, k := range universe {
		v, ok := tm.Value(key(k))
		w, wok := m[k]
		if ok != wok || v != w.v {
			return fmt.Sprintf("key %q: got %q %v, want %q %v", k, v, ok, w.v, wok)
		}
	}
	got := map[string]string{}
	enc := tag.Encode(tm)
	each = got
	if err := tag.DecodeEach(enc, eachTag); err != nil {
		return fmt.Sprintf("decoding %x: %v", enc, err)
	}
	for k, v := range m {
		g, ok := got[k]
		if ok != v.prop || v.prop && g != v.v {
			return fmt.Sprintf("propagated %v, want as in %v", got, m)
		}
		delete(got, k)
	}
	if len(got) > 0 {
		return fmt.Sprintf("propagated in addition %v, want as in %v", got, m)
	}
	return ""
}

func (m tmodel) String() string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("%s=%v ", k, m[k])
	}
	return s
}

func nonASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 || s[i] > 0x7e {
			return true
		}
	}
	return false
}

type tmut struct {
	name string
	m    func() tag.Mutator
	bad  bool
	app  func(m tmodel)
}

func tagMuts() []tmut {
	var ms []tmut
	long := strings.Repeat("v", 256)
	add := func(op, k, v string, bad bool, mds []tag.Metadata, prop bool) {
		f := map[string]func(k tag.Key, v string, mds ...tag.Metadata) tag.Mutator{"insert": tag.Insert, "update": tag.Update, "upsert": tag.Upsert}[op]
		n := v
		if len(n) > 10 {
			n = n[:10]
		}
		ms = append(ms, tmut{fmt.Sprintf("%s %s=%q prop=%v", op, k, n, prop), func() tag.Mutator { return f(key(k), v, mds...) }, bad, func(m tmodel) {
			if _, ok := m[k]; op == "insert" && ok || op == "update" && !ok {
				return
			}
			m[k] = tval{v, prop}
		}})
	}
	for _, op := range []string{"insert", "update", "upsert"} {
		add(op, "a", "x", false, nil, true)
		add(op, "a", "y", false, []tag.Metadata{tag.WithTTL(tag.TTLNoPropagation)}, false)
		add(op, "b", "", false, []tag.Metadata{tag.WithTTL(tag.TTLUnlimitedPropagation)}, true)
		add(op, "b", "\x1f", true, nil, true)
	}
	add("insert", "b", "w", false, nil, true)
	add("upsert", "b", long, true, nil, true)
	add("upsert", "b", "z", false, []tag.Metadata{tag.WithTTL(tag.TTLNoPropagation), tag.WithTTL(tag.TTLUnlimitedPropagation)}, true)
	for _, k := range []string{"a", "b"} {
		k := k
		ms = append(ms, tmut{"delete " + k, func() tag.Mutator { return tag.Delete(key(k)) }, false, func(m tmodel) { delete(m, k) }})
	}
	return ms
}

func init() {
	universe := []string{"a", "b", "c"}
	muts := tagMuts()
	bases := []tmodel{nil, {}, {"a": {"o", true}}, {"a": {"o", false}, "b": {"p", true}}, {"c": {"q", true}, "b": {"", true}}}
	mk := func(b tmodel) context.Context {
		if b == nil {
			return bg
		}
		var ms []tag.Mutator
		for k, v := range b {
			t := tag.TTLNoPropagation
			if v.prop {
				t = tag.TTLUnlimitedPropagation
			}
			ms = append(ms, tag.Insert(key(k), v.v, tag.WithTTL(t)))
		}
		c, err := tag.New(bg, ms...)
		if err != nil {
			vsched.Failf("creating tags: %v", err)
		}
		return c
	}
	// a tree of derived contexts: after each derivation every context still has its own tags
	vh.Add(&vh.Task{Prop: "C10", Name: "mutators", Shards: [2]int{8, 8}, Weight: 2, Seq: func(s *vh.S) {
		depth := s.Pick(4, 5)
		for bi, base := range bases {
			for split := 0; split < 1<<uint(depth-1); split++ { // where one New call ends and the next begins
				if !s.Thorough && split != 0 && split != 1<<uint(depth-1)-1 && split != 5 {
					continue
				}
				s.Seqs(len(muts), depth, func(seq []int) {
					cas := ""
					s.Guard("", func() {
						ctxs, models := []context.Context{mk(base)}, []tmodel{base.clone()}
						cur := models[0].clone()
						var batch []tag.Mutator
						bad := false
						for i, l := range seq {
							batch = append(batch, muts[l].m())
							if muts[l].bad {
								bad = true
							}
							if !bad {
								muts[l].app(cur)
							}
							if i < depth-1 && split>>uint(i)&1 == 0 {
								continue
							}
							parent := ctxs[len(ctxs)-1]
							c, err := tag.New(parent, batch...)
							if (err != nil) != bad {
								s.Failf(muCase(bi, split, seq, muts), "error %v, want one: %v", err, bad)
							}
							if bad {
								if c != parent {
									s.Failf(muCase(bi, split, seq, muts), "a failed New returned another context")
								}
								cur = models[len(models)-1].clone()
							}
							ctxs, models = append(ctxs, c), append(models, cur.clone())
							batch, bad = nil, false
						}
						for i := range ctxs {
							if e := models[i].sees(ctxs[i], universe); e != "" {
								s.Failf(muCase(bi, split, seq, muts), "context %d: %s", i, e)
							}
						}
						cas = cur.String()
					})
					s.Case(depth)
					s.Outcome("%s", cas)
					s.Sample("%s -> %s", muCase(bi, split, seq, muts), cas)
				})
			}
		}
	}})
	// siblings derived from one parent by all pairs of mutator sequences
	vh.Add(&vh.Task{Prop: "C10", Name: "siblings", Shards: [2]int{2, 8}, Seq: func(s *vh.S) {
		for bi, base := range bases {
			s.Seqs(len(muts), s.Pick(3, 4), func(seq []int) {
				s.Guard(muCase(bi, 0, seq, muts), func() {
					p := mk(base)
					var kids []context.Context
					var want []tmodel
					for _, l := range seq {
						m := base.clone()
						if !muts[l].bad {
							muts[l].app(m)
						}
						c, _ := tag.New(p, muts[l].m())
						kids, want = append(kids, c), append(want, m)
					}
					// the same mutator value applied twice
					mu := muts[seq[0]].m()
					c1, _ := tag.New(p, mu)
					c2, _ := tag.New(kids[len(kids)-1], mu)
					m2 := want[len(want)-1].clone()
					if !muts[seq[0]].bad {
						muts[seq[0]].app(m2)
					}
					kids, want = append(kids, c1, c2), append(want, want[0], m2)
					for i := range kids {
						if e := want[i].sees(kids[i], universe); e != "" {
							s.Failf(muCase(bi, 0, seq, muts), "child %d: %s", i, e)
						}
					}
					if e := base.sees(p, universe); e != "" {
						s.Failf(muCase(bi, 0, seq, muts), "parent: %s", e)
					}
				})
				s.Case(len(seq))
			})
		}
		s.Outcome("siblings")
		s.Outcome("parent kept")
	}})
	// which keys and values are accepted
	vh.Add(&vh.Task{Prop: "C10", Name: "validation", Seq: func(s *vh.S) {
		var strs []string
		for n := 0; n <= 260; n++ {
			strs = append(strs, strings.Repeat("k", n))
		}
		for c := 0; c < 256; c++ {
			for _, n := range []int{1, 2, 3, 254, 255, 256} {
				for _, pos := range []int{0, 1, n / 2, n - 1} {
					if pos < n {
						b := bytes.Repeat([]byte("k"), n)
						b[pos] = byte(c)
						strs = append(strs, string(b))
					}
				}
			}
		}
		for r := rune(0); r < 0x3000; r++ {
			strs = append(strs, string(r), "a"+string(r))
		}
		strs = append(strs, string(rune(0x10041)), string(rune(0xfeff)), string(rune(0x10ffff)))
		for _, x := range strs {
			if s.Stop() {
				return
			}
			ok := len(x) <= 255 && !nonASCII(x)
			s.Guard(fmt.Sprintf("%q", x), func() {
				k, err := tag.NewKey(x)
				if (err == nil) != (ok && x != "") || err == nil && k.Name() != x {
					s.Failf(fmt.Sprintf("%q", x), "NewKey: %q %v", k.Name(), err)
				}
				base := mk(tmodel{"a": {"o", true}})
				for i, mu := range []tag.Mutator{tag.Insert(key("a"), x), tag.Insert(key("b"), x), tag.Update(key("a"), x), tag.Update(key("b"), x), tag.Upsert(key("a"), x), tag.Upsert(key("b"), x)} {
					c, err := tag.New(base, mu, tag.Delete(key("a")))
					if (err == nil) != ok || err != nil && c != base {
						s.Failf(fmt.Sprintf("%q", x), "mutator %d: error %v", i, err)
					}
					if v, vok := tag.FromContext(c).Value(key("b")); ok && (i == 1 || i == 5) && (!vok || v != x) {
						s.Failf(fmt.Sprintf("%q", x), "mutator %d: value %q", i, v)
					}
				}
			})
			s.Case(7)
			s.Outcome("len=%d valid=%v", len(x), ok)
			s.Sample("%q valid=%v", x, ok)
		}
	}})
	// profiler labels
	vh.Add(&vh.Task{Prop: "C10", Name: "profiler-labels", Seq: func(s *vh.S) {
		s.Seqs(len(muts), s.Pick(2, 3), func(seq []int) {
			for bi, base := range bases {
				cas := muCase(bi, 0, seq, muts)
				s.Guard(cas, func() {
					cur := base.clone()
					ctx := mk(base)
					for _, l := range seq {
						c, err := tag.New(ctx, muts[l].m())
						if err == nil {
							ctx = c
							muts[l].app(cur)
						}
					}
					calls := 0
					tag.Do(ctx, func(c context.Context) {
						calls++
						got := map[string]string{}
						pprof.ForLabels(c, func(k, v string) bool { got[k] = v; return true })
						want := map[string]string{}
						for k, v := range cur {
							want[k] = v.v
						}
						if fmt.Sprint(got) != fmt.Sprint(want) {
							s.Failf(cas, "labels %v, want %v", got, want)
						}
						if e := cur.sees(c, universe); e != "" {
							s.Failf(cas, "tags inside Do: %s", e)
						}
						s.Outcome("%v", got)
					})
					if calls != 1 {
						s.Failf(cas, "function called %d times", calls)
					}
					// calls within calls: the labels of the inner tags over those of the outer ones
					want := map[string]string{}
					var nest func(c context.Context, k int, cur tmodel)
					nest = func(c context.Context, k int, cur tmodel) {
						tag.Do(c, func(c context.Context) {
							for k, v := range cur {
								want[k] = v.v
							}
							got := map[string]string{}
							pprof.ForLabels(c, func(k, v string) bool { got[k] = v; return true })
							if fmt.Sprint(got) != fmt.Sprint(want) {
								s.Failf(cas, "labels %v in call %d, want %v", got, k, want)
							}
							if k < len(seq) {
								cur := cur.clone()
								if c2, err := tag.New(c, muts[seq[k]].m()); err == nil {
									c = c2
									muts[seq[k]].app(cur)
								}
								nest(c, k+1, cur)
							}
						})
					}
					nest(mk(base), 0, base.clone())
				})
				s.Case(len(seq))
			}
		})
	}})
	// goroutines deriving from one context and recording with it
	vh.Add(&vh.Task{Prop: "C10", Name: "concurrent-derivation", Race: true, Bound: [2]int{99, 99}, Body: func() {
		base, _ := tag.New(bg, tag.Insert(key("a"), "o"), tag.Insert(key("c"), "q"))
		mu := tag.Upsert(key("b"), "1", tag.WithTTL(tag.TTLNoPropagation))
		vsched.Explore(true)
		n := 0
		var gs []*vsched.G
		for i := 0; i < 3; i++ {
			i := i
			gs = append(gs, vsched.Thread(fmt.Sprint("t", i), func() {
				vsched.Yield()
				c, err := tag.New(base, mu, tag.Update(key("a"), fmt.Sprint("v", i)), tag.Delete(key("c")))
				vsched.Yield()
				if err != nil || tag.FromContext(c).String() != "{ {a {v"+fmt.Sprint(i)+" {{-1}}}}{b {1 {{0}}}} }" {
					v, _ := tag.FromContext(c).Value(key("a"))
					if w, ok := tag.FromContext(c).Value(key("c")); err != nil || v != fmt.Sprint("v", i) || ok {
						vsched.Failf("derived tags: a=%q c=%q %v", v, w, err)
					}
				}
				vsched.Yield()
				if v, ok := tag.FromContext(base).Value(key("a")); v != "o" || !ok {
					vsched.Failf("base changed to a=%q", v)
				}
				if v, ok := tag.FromContext(base).Value(key("b")); ok {
					vsched.Failf("base has b=%q", v)
				}
			}))
		}
		vsched.Join(gs...)
		vsched.Explore(false)
		vsched.Outcome("%d", n)
	}})
}

func muCase(bi, split int, seq []int, muts []tmut) string {
	s := fmt.Sprintf("base %d split %b:", bi, split)
	for _, l := range seq {
		s += " " + muts[l].name + ";"
	}
	return s
}

// ---- C11 ----

// refDecode is the wire format: version 0, then fields of type 0 with varint-prefixed key and value.
func refDecode(b []byte) (kv [][2]string, ok bool) {
	if len(b) == 0 {
		return nil, true
	}
	if b[0] != 0 {
		return nil, false
	}
	p := 1
	str := func() (string, bool) {
		var n uint64
		for i := 0; ; i++ {
			if p >= len(b) || i == 10 {
				return "", false
			}
			c := b[p]
			p++
			if i == 9 && c > 1 {
				return "", false
			}
			n |= uint64(c&0x7f) << uint(7*i)
			if c < 0x80 {
				break
			}
		}
		if n > uint64(len(b)-p) {
			return "", false
		}
		r := string(b[p : p+int(n)])
		p += int(n)
		return r, true
	}
	for p < len(b) {
		if b[p] != 0 {
			return nil, false
		}
		p++
		k, ok := str()
		if !ok {
			return nil, false
		}
		v, ok := str()
		if !ok || k == "" || len(k) > 255 || len(v) > 255 || nonASCII(k) || nonASCII(v) {
			return nil, false
		}
		kv = append(kv, [2]string{k, v})
	}
	return kv, true
}

func init() {
	// check decodes b lying inside a larger array and compares with the reference
	check := func(s *vh.S, cas string, b []byte) {
		buf := make([]byte, len(b)+24)
		copy(buf, b)
		for i := len(b); i < len(buf); i++ {
			buf[i] = 'k'
		}
		in := buf[:len(b)]
		s.Guard(fmt.Sprintf("%s %x", cas, b), func() {
			m, err := tag.Decode(in)
			kv, ok := refDecode(b)
			if (err == nil) != ok {
				s.Failf(fmt.Sprintf("%s %x", cas, b), "error %v, want success %v (%q)", err, ok, kv)
				return
			}
			if err != nil && m != nil {
				s.Failf(fmt.Sprintf("%s %x", cas, b), "a map was returned together with error %v", err)
			}
			got := map[string]string{}
			each = got
			err2 := tag.DecodeEach(in, eachTag)
			if (err2 == nil) != ok {
				s.Failf(fmt.Sprintf("%s %x", cas, b), "DecodeEach: error %v, want success %v", err2, ok)
			}
			if !bytes.Equal(in, b) {
				s.Failf(fmt.Sprintf("%s %x", cas, b), "the input was changed to %x", in)
			}
			if !ok {
				s.Outcome("error")
				return
			}
			want := map[string]string{}
			for _, e := range kv {
				want[e[0]] = e[1]
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				s.Failf(fmt.Sprintf("%s %x", cas, b), "DecodeEach: %v, want %v", got, want)
			}
			for k, v := range want {
				if g, ok := m.Value(key(k)); !ok || g != v {
					s.Failf(fmt.Sprintf("%s %x", cas, b), "%q = %q %v, want %q", k, g, ok, v)
				}
			}
			// nothing else is in there: its encoding has exactly these
			re, _ := refDecode(tag.Encode(m))
			if len(re) != len(want) {
				s.Failf(fmt.Sprintf("%s %x", cas, b), "decoded %s, want %v", m, want)
			}
			s.Outcome("%d tags", len(want))
		})
		s.Case(1)
	}
	vh.Add(&vh.Task{Prop: "C11", Name: "round-trip", Shards: [2]int{4, 8}, Seq: func(s *vh.S) {
		names := []string{"a", "b", " ~", strings.Repeat("k", 127), strings.Repeat("k", 128), strings.Repeat("k", 255)}
		vals := []string{"", "x", "\x20", strings.Repeat("v", 127), strings.Repeat("v", 128), strings.Repeat("v", 254), strings.Repeat("v", 255)}
		nv := len(vals)*2 + 1 // absent, or value with or without propagation
		s.Seqs(nv, s.Pick(4, 5), func(seq []int) {
			for first := 0; first+len(seq) <= len(names); first++ {
				rev := (seq[0]+first)%2 == 0
				s.Exec(fmt.Sprint(first, seq), func() {
					vsched.MapReverse(rev)
					want := map[string]string{}
					var ms []tag.Mutator
					for i, l := range seq {
						if l == 0 {
							continue
						}
						v := vals[(l-1)/2]
						if l%2 == 1 {
							want[names[first+i]] = v
							if l%4 == 1 {
								ms = append(ms, tag.Upsert(key(names[first+i]), v))
							} else {
								ms = append(ms, tag.Upsert(key(names[first+i]), v, tag.WithTTL(tag.TTLUnlimitedPropagation)))
							}
						} else {
							ms = append(ms, tag.Upsert(key(names[first+i]), v, tag.WithTTL(tag.TTLNoPropagation)))
						}
					}
					ctx, err := tag.New(bg, ms...)
					if err != nil {
						vsched.Failf("New: %v", err)
					}
					enc := tag.Encode(tag.FromContext(ctx))
					// the encoding is what the format says
					kv, ok := refDecode(enc)
					if !ok || len(kv) != len(want) || len(enc) == 0 {
						vsched.Failf("encoding %x, want tags %v", enc, want)
					}
					for _, e := range kv {
						if w, ok := want[e[0]]; !ok || w != e[1] {
							vsched.Failf("encoding has %q, want %v", e, want)
						}
					}
					m, err := tag.Decode(enc)
					if err != nil {
						vsched.Failf("decoding %x: %v", enc, err)
					}
					for _, n := range names {
						v, ok := m.Value(key(n))
						if w, wok := want[n]; ok != wok || v != w {
							vsched.Failf("%q=%q %v, want %q %v", n, v, ok, w, wok)
						}
					}
					// decoded tags propagate again
					if kv2, ok := refDecode(tag.Encode(m)); !ok || len(kv2) != len(want) {
						vsched.Failf("second encoding has %d tags, want %d", len(kv2), len(want))
					}
				})
				s.Case(3)
				s.Outcome("%v", seq)
			}
			s.Sample("%v", seq)
		})
		s.Guard("nil", func() {
			if b := tag.Encode(nil); len(b) != 0 {
				s.Failf("nil", "encoding of a nil map: %x", b)
			}
			if m, err := tag.Decode(nil); err != nil || m == nil || m.String() != "{  }" {
				s.Failf("empty", "decoding nothing: %v %v", m, err)
			}
		})
	}})
	// every pair of value lengths in maps of several sizes: the encoder's buffer ends everywhere
	// one tag map encoded, read and derived from by several goroutines
	vh.Add(&vh.Task{Prop: "C11", Name: "shared-map", Race: true, Bound: [2]int{99, 99}, Body: func() {
		vsched.Reinit()
		local := vsched.Choose(2, "with a local tag") == 1
		md := tag.WithTTL(tag.TTLUnlimitedPropagation)
		if local {
			md = tag.WithTTL(tag.TTLNoPropagation)
		}
		ctx, _ := tag.New(bg, tag.Insert(key("a"), "o"), tag.Insert(key("b"), ""), tag.Insert(key("c"), "q", md))
		want := "[{a o} {b }"
		if !local {
			want += " {c q}"
		}
		want += "]"
		check := func(m *tag.Map, want string) {
			got, err := tag.Decode(tag.Encode(m))
			var ss []string
			for _, k := range []string{"a", "b", "c", "d"} {
				if v, ok := got.Value(key(k)); ok {
					ss = append(ss, fmt.Sprintf("{%s %s}", k, v))
				}
			}
			if err != nil || fmt.Sprint(ss) != want {
				vsched.Failf("decoded %v, %v, want %s", ss, err, want)
			}
		}
		vsched.Explore(true)
		gs := []*vsched.G{
			vsched.Thread("encode", func() { check(tag.FromContext(ctx), want) }),
			vsched.Thread("encode too", func() { check(tag.FromContext(ctx), want); check(tag.FromContext(ctx), want) }),
			vsched.Thread("derive", func() {
				c, err := tag.New(ctx, tag.Delete(key("a")), tag.Insert(key("d"), "x"), tag.Delete(key("c")))
				if err != nil {
					vsched.Failf("%v", err)
				}
				check(tag.FromContext(c), "[{b } {d x}]")
			}),
		}
		vsched.Join(gs...)
		vsched.Explore(false)
		check(tag.FromContext(ctx), want)
		vsched.Outcome("%v", local)
	}})
	vh.Add(&vh.Task{Prop: "C11", Name: "lengths", Shards: [2]int{8, 8}, Seq: func(s *vh.S) {
		val := strings.Repeat("v", 255)
		for n := 1; n <= s.Pick(6, 12); n++ {
			for _, kl := range []int{1, 2, 127, 128, 255} {
				if kl > 2 && n > s.Pick(2, 4) {
					continue
				}
				for i := 0; i < 256; i++ {
					if !s.Mine() || s.Stop() {
						continue
					}
					for j := 0; j < 256; j++ {
						if n == 1 && j > 0 || j%s.Pick(3, 1) != 0 && j < 120 {
							continue
						}
						s.Exec(fmt.Sprintf("%d keys of about %d bytes, values of %d and %d bytes", n, kl, i, j), func() {
							var ms []tag.Mutator
							want := map[string]int{}
							for x := 0; x < n; x++ {
								l := i
								if x%2 == 1 {
									l = j
								}
								k := strings.Repeat("k", kl-1) + string(rune('a'+x))
								want[k] = l
								ms = append(ms, tag.Upsert(key(k), val[:l]))
							}
							ctx, err := tag.New(bg, ms...)
							if err != nil {
								vsched.Failf("New: %v", err)
							}
							for pass := 0; pass < 2; pass++ {
								vsched.MapReverse(pass == 1)
								kv, ok := refDecode(tag.Encode(tag.FromContext(ctx)))
								if !ok || len(kv) != n {
									vsched.Failf("encoding does not have the tags")
								}
								for _, e := range kv {
									if l, ok := want[e[0]]; !ok || e[1] != val[:l] {
										vsched.Failf("encoding has %q", e)
									}
								}
							}
							m, err := tag.Decode(tag.Encode(tag.FromContext(ctx)))
							if err != nil {
								vsched.Failf("decode: %v", err)
							}
							for k, l := range want {
								if v, ok := m.Value(key(k)); !ok || v != val[:l] {
									vsched.Failf("%q=%q", k, v)
								}
							}
						})
						s.Case(n)
					}
				}
			}
		}
		s.Outcome("ok")
	}})
	// all byte strings over an alphabet of interesting bytes
	vh.Add(&vh.Task{Prop: "C11", Name: "decode-bytes", Shards: [2]int{8, 8}, Weight: 2, Seq: func(s *vh.S) {
		abc := []byte{0, 1, 2, 3, 'a', 'b', 0x1f, 0x7f, 0x80, 0xff}
		max := s.Pick(6, 8)
		for n := 0; n <= max; n++ {
			b := make([]byte, n)
			s.Seqs(len(abc), n, func(seq []int) {
				if n > 6 && (seq[0] != 0 || seq[1] != 0) {
					return
				}
				for i, l := range seq {
					b[i] = abc[l]
				}
				check(s, "bytes", b)
				s.Sample("%x", b)
			})
		}
	}})
	// all one-byte and two-byte changes, truncations and length changes of valid encodings
	vh.Add(&vh.Task{Prop: "C11", Name: "decode-damaged", Shards: [2]int{4, 8}, Seq: func(s *vh.S) {
		var encs [][]byte
		enc := func(kv ...string) {
			b := []byte{0}
			for i := 0; i < len(kv); i += 2 {
				b = append(b, 0)
				for _, x := range kv[i : i+2] {
					b = binary.AppendUvarint(b, uint64(len(x)))
					b = append(b, x...)
				}
			}
			encs = append(encs, b)
		}
		enc()
		enc("a", "")
		enc("a", "x", "b", "yy")
		enc("a", "x", "a", "y")
		enc("key", "value", "k", "", "last", "z")
		enc(strings.Repeat("k", 127), strings.Repeat("v", 128))
		enc(strings.Repeat("k", 255), strings.Repeat("v", 255), "a", "b")
		enc("a", strings.Repeat("v", 256))
		enc(strings.Repeat("k", 256), "v", "a", "b")
		enc("", "v")
		enc("a", "v", "", "")
		for _, b := range encs {
			for n := 0; n <= len(b); n++ {
				if s.Mine() && !s.Stop() {
					check(s, "truncated", b[:n])
				}
			}
			for i := range b {
				if i > 40 && i < len(b)-40 && i%16 != 0 && (i < 125 || i > 135) {
					continue
				}
				for c := 0; c < 256; c++ {
					if s.Mine() && !s.Stop() {
						d := append([]byte(nil), b...)
						d[i] = byte(c)
						check(s, "byte changed", d)
					}
				}
				// a length replaced by an extreme one
				for _, l := range []uint64{0, 1, 127, 128, 255, 256, 1 << 14, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<62 - 1, 1<<63 - 1, 1 << 63, 1<<63 + 5, 1<<64 - 6, 1<<64 - 3, 1<<64 - 2, 1<<64 - 1} {
					if s.Mine() && !s.Stop() {
						d := append([]byte(nil), b[:i]...)
						d = binary.AppendUvarint(d, l)
						check(s, "length inserted", append(d, b[i:]...))
						check(s, "length replaced", append(d, b[i+1:]...))
					}
				}
				for n := 1; n <= 11; n++ { // overlong varints
					for _, last := range []byte{0, 1, 2, 0x7f} {
						if s.Mine() && !s.Stop() {
							d := append([]byte(nil), b[:i]...)
							d = append(d, bytes.Repeat([]byte{0x80}, n)...)
							d = append(d, last)
							check(s, "overlong length", append(d, b[i+1:]...))
							d = append([]byte(nil), b[:i]...)
							d = append(d, b[i]|0x80)
							d = append(d, bytes.Repeat([]byte{0x80}, n)...)
							d = append(d, last)
							check(s, "overlong same length", append(d, b[i+1:]...))
						}
					}
				}
			}
			if len(b) < 20 {
				for i := range b {
					for j := i + 1; j < len(b); j++ {
						for c := 0; c < 256; c++ {
							for _, e := range []byte{0, 1, 2, 3, 0x7f, 0x80, 0xff} {
								if s.Mine() && !s.Stop() {
									d := append([]byte(nil), b...)
									d[i], d[j] = byte(c), e
									check(s, "two bytes changed", d)
								}
							}
						}
					}
				}
			}
		}
	}})
}
