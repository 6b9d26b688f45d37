package main

import (
	"fmt"
	"strings"

	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/stats"
	"go.opencensus.io/stats/view"
	"go.opencensus.io/tag"
)

func init() {
	const absent = "\x00absent"
	vals := []string{absent, "", "a", "b", "aa", "ab", " ", "!", " a", "a ", "\x20\x21", "~", strings.Repeat("x", 33), strings.Repeat("x", 32), strings.Repeat("y", 127), strings.Repeat("y", 128), strings.Repeat("z", 254), strings.Repeat("z", 255), "z" + strings.Repeat("y", 254)}
	orders := map[int][][]string{
		1: {{"k1"}},
		2: {{"k1", "k2"}, {"k2", "k1"}},
		3: {{"k1", "k2", "k3"}, {"k3", "k1", "k2"}, {"k2", "k3", "k1"}},
	}
	run := func(s *vh.S, cas string, order []string, combos [][]string, extra, rev bool) {
		s.Exec(cas, func() {
			vsched.Reinit()
			vsched.MapReverse(rev)
			m := stats.Int64("c04/m", "", "1")
			mt := newMeter()
			d := &vdef{name: "v", keys: order, agg: "sum"}
			mustRegister(mt, mkView(d, m))
			var rs []rec
			for i, c := range combos {
				tags := map[string]string{}
				ctx := bg
				for j, v := range c {
					k := fmt.Sprint("k", j+1)
					if v == absent {
						continue
					}
					tags[k] = v
				}
				// insertion order alternates, extra tags outside the view come and go
				ks := []string{"k1", "k2", "k3"}
				if i%2 == 1 {
					ks = []string{"k3", "k2", "k1"}
				}
				var mu []tag.Mutator
				if extra && i%3 != 0 {
					mu = append(mu, tag.Upsert(key("a0"), fmt.Sprint("e", i%2)), tag.Upsert(key("zz"), "q"))
				}
				for _, k := range ks {
					if v, ok := tags[k]; ok {
						mu = append(mu, tag.Upsert(key(k), v))
					}
				}
				x, err := tag.New(ctx, mu...)
				if err != nil {
					vsched.Harnessf("tag.New: %v", err)
				}
				v := int64(1) << uint(i%40)
				recordOn(mt, x, m.M(v))
				rs = append(rs, rec{tags, sample{v: float64(v), t: vsched.Now()}})
			}
			got, want := rowsStr(mustRetrieve(mt, "v")), refRows(d, rs)
			if got != want {
				vsched.Failf("keys %v:\n got %s\nwant %s", order, got, want)
			}
			for _, r := range mustRetrieve(mt, "v") {
				for i := range r.Tags {
					if i > 0 && r.Tags[i-1].Key.Name() >= r.Tags[i].Key.Name() {
						vsched.Failf("tags of a row out of order: %v", r.Tags)
					}
				}
			}
			s.Outcome("%s", got)
		})
		s.Case(len(combos))
	}
	vh.Add(&vh.Task{Prop: "C04", Name: "tag-combinations", Shards: [2]int{8, 8}, Seq: func(s *vh.S) {
		short := vals[:s.Pick(11, len(vals))]
		// every pair of tag combinations over two keys, and every combination over one and three keys
		var c2 [][]string
		for _, a := range vals {
			for _, b := range vals {
				c2 = append(c2, []string{a, b})
			}
		}
		for _, ord := range orders[2] {
			for i, a := range c2 {
				if !s.Mine() || s.Stop() {
					continue
				}
				for _, b := range c2[i:] {
					if s.Thorough || len(a[0])+len(a[1])+len(b[0])+len(b[1]) < 100 || len(b[0]) > 60 && len(b[1]) > 60 {
						run(s, fmt.Sprintf("keys %v: %q then %q", ord, a, b), ord, [][]string{a, b, a}, false, false)
					}
				}
			}
		}
		for _, ord := range orders[1] {
			for _, a := range vals {
				for _, b := range vals {
					if s.Mine() && !s.Stop() {
						run(s, fmt.Sprintf("keys %v: %q %q", ord, a, b), ord, [][]string{{a}, {b}, {a}}, true, false)
					}
				}
			}
		}
		for _, ord := range orders[3] {
			for _, a := range short {
				for _, b := range short {
					var cs [][]string
					for _, c := range short {
						cs = append(cs, []string{a, b, c})
					}
					if s.Mine() && !s.Stop() {
						run(s, fmt.Sprintf("keys %v: %q %q *", ord, a, b), ord, cs, true, false)
					}
				}
			}
			// all of them in one view
			var cs [][]string
			for _, a := range vals {
				for _, b := range vals {
					for _, c := range vals {
						cs = append(cs, []string{a, b, c})
					}
				}
			}
			for _, rev := range []bool{false, true} {
				if s.Mine() && !s.Stop() {
					run(s, fmt.Sprintf("keys %v: all combinations", ord), ord, cs, true, rev)
				}
			}
		}
	}})
	// wide views: every subset of the view's keys present, alone, in pairs and all in one view
	vh.Add(&vh.Task{Prop: "C04", Name: "wide-views", Shards: [2]int{4, 8}, Seq: func(s *vh.S) {
		for n := 4; n <= s.Pick(9, 11); n++ {
			var order []string
			for i := 0; i < n; i++ {
				order = append(order, fmt.Sprint("k", (i*5)%n+10)) // n=5 and 10: repeated keys would not be a valid view
			}
			if n%5 == 0 {
				for i := range order {
					order[i] = fmt.Sprint("k", (i*3)%n+10)
				}
			}
			combo := func(mask int) map[string]string {
				t := map[string]string{}
				for i := 0; i < n; i++ {
					if mask>>uint(i)&1 == 1 {
						t[fmt.Sprint("k", i+10)] = string(rune('a' + i%3))
					}
				}
				return t
			}
			one := func(cas string, masks []int) {
				s.Exec(cas, func() {
					vsched.Reinit()
					m := stats.Int64("c04/m", "", "1")
					mt := newMeter()
					d := &vdef{name: "v", keys: order, agg: "sum"}
					mustRegister(mt, mkView(d, m))
					var rs []rec
					for i, mask := range masks {
						v := int64(1) << uint(i%40)
						recordOn(mt, tagCtx(combo(mask)), m.M(v))
						rs = append(rs, rec{combo(mask), sample{v: float64(v), t: vsched.Now()}})
					}
					got, want := rowsStr(mustRetrieve(mt, "v")), refRows(d, rs)
					if got != want {
						vsched.Failf("keys %v:\n got %s\nwant %s", order, got, want)
					}
					s.Outcome("%s", got)
				})
				s.Case(len(masks))
			}
			var all []int
			for i := 0; i < 1<<uint(n); i++ {
				all = append(all, i)
				if s.Mine() && !s.Stop() {
					one(fmt.Sprintf("%d keys, mask %b then its neighbours", n, i), []int{i, i ^ 1, i ^ 1<<uint(n-1), i ^ 2, i})
				}
			}
			if s.Mine() && !s.Stop() {
				one(fmt.Sprintf("%d keys, all subsets", n), all)
			}
			if n <= 6 || s.Thorough && n <= 7 {
				for _, a := range all {
					if s.Mine() && !s.Stop() {
						for _, b := range all {
							one(fmt.Sprintf("%d keys, masks %b %b", n, a, b), []int{a, b, a})
						}
					}
				}
			}
		}
	}})
	// several views with different key sets over the same records
	vh.Add(&vh.Task{Prop: "C04", Name: "views-share-records", Shards: [2]int{4, 8}, Seq: func(s *vh.S) {
		// names that read the same when joined
		sets := [][]string{nil, {"a"}, {"bc"}, {"bc", "a"}, {"ab", "a"}, {"a", "bc", "ab"}, {"ab", "c"}, {"abc"}}
		tv := []string{absent, "", "a", "b"}
		var combos [][]string
		for _, a := range tv {
			for _, b := range tv {
				for _, c := range []string{absent, "a"} {
					combos = append(combos, []string{a, b, c})
				}
			}
		}
		s.Seqs(len(combos), s.Pick(3, 3), func(seq []int) {
			cas := fmt.Sprint("combos ", seq)
			s.Exec(cas, func() {
				vsched.Reinit()
				m := stats.Int64("c04/m", "", "1")
				mt := newMeter()
				var defs []*vdef
				for i, ks := range sets {
					d := &vdef{name: fmt.Sprint("v", i), keys: ks, agg: "count"}
					defs = append(defs, d)
					mustRegister(mt, mkView(d, m))
				}
				var rs []rec
				for _, o := range seq {
					tags := map[string]string{}
					for j, v := range combos[o] {
						if v != absent {
							tags[[]string{"a", "bc", "ab"}[j]] = v
						}
					}
					if len(tags) > 1 {
						tags["c"] = "x"
					} else {
						tags["abc"] = "y"
					}
					recordOn(mt, tagCtx(tags), m.M(1))
					rs = append(rs, rec{tags, sample{v: 1, t: vsched.Now()}})
				}
				for _, d := range defs {
					got, want := rowsStr(mustRetrieve(mt, d.name)), refRows(d, rs)
					if got != want {
						vsched.Failf("keys %v:\n got %s\nwant %s", d.keys, got, want)
					}
					s.Outcome("%s", got)
				}
			})
			s.Case(len(seq))
			s.Sample("%s", cas)
		})
	}})
}

var _ view.Row
