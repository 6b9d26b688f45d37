package vh

import (
	"fmt"
	"sort"
	"strings"

	"go.opencensus.io/internal/vsched"
)

// LinOp is a completed operation of a concurrent history. Apply applies it to the model and reports
// whether the model would have produced the observed result.
type LinOp[M any] struct {
	Thread   int
	Inv, Res int64
	Name     string
	Apply    func(M) bool
}

// Hist collects the operations of one thread.
type Hist[M any] struct {
	Thread int
	Ops    []LinOp[M]
}

// Do runs op and records it; op returns the check against the model.
func (h *Hist[M]) Do(name string, op func() (string, func(M) bool)) {
	inv := vsched.StampI()
	d, ap := op()
	h.Ops = append(h.Ops, LinOp[M]{h.Thread, inv, vsched.StampR(), name + d, ap})
}

// Linearizable reports whether some order of the operations that respects real time explains all
// results and ends in a state accepted by final.
func Linearizable[M any](init M, clone func(M) M, final func(M) bool, hs ...*Hist[M]) bool {
	var ops []LinOp[M]
	for _, h := range hs {
		ops = append(ops, h.Ops...)
	}
	sort.Slice(ops, func(i, j int) bool { return ops[i].Inv < ops[j].Inv })
	used := make([]bool, len(ops))
	var rec func(m M, left int) bool
	rec = func(m M, left int) bool {
		if left == 0 {
			return final == nil || final(m)
		}
		minRes := int64(1) << 62
		for i := range ops {
			if !used[i] && ops[i].Res < minRes {
				minRes = ops[i].Res
			}
		}
		for i := range ops {
			if used[i] || ops[i].Inv > minRes {
				continue
			}
			c := clone(m)
			if !ops[i].Apply(c) {
				continue
			}
			used[i] = true
			if rec(c, left-1) {
				return true
			}
			used[i] = false
		}
		return false
	}
	return rec(init, len(ops))
}

// HistString renders a history.
func HistString[M any](hs ...*Hist[M]) string {
	var sb strings.Builder
	for _, h := range hs {
		for _, o := range h.Ops {
			fmt.Fprintf(&sb, "t%d[%d,%d] %s; ", o.Thread, o.Inv, o.Res, o.Name)
		}
	}
	return sb.String()
}

// Seqs enumerates all sequences of length depth over n letters that belong to this shard.
func (s *S) Seqs(n, depth int, f func(seq []int)) {
	seq := make([]int, depth)
	for {
		if s.Mine() {
			if s.Stop() {
				return
			}
			f(seq)
		}
		i := depth - 1
		for ; i >= 0; i-- {
			seq[i]++
			if seq[i] < n {
				break
			}
			seq[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// Pick returns the quick or thorough value.
func (s *S) Pick(q, t int) int {
	if s.Thorough {
		return t
	}
	return q
}
