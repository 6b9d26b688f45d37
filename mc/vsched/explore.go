package vsched

import (
	"fmt"
	"strings"
	"time"
)

// Config of one exploration.
type Config struct {
	Body       func()
	Bound      int // deviations (preemptions and ChooseDev departures)
	MaxSteps   int
	MaxExec    int64
	Deadline   time.Time
	Shard      int
	Shards     int
	Known      []string // substrings of failures that are listed findings
	NoCache    bool     // explore every schedule, even those that lead to states seen before
	Shared     string   // file with the states seen by all shards
	SharedSize int      // entries, a power of two
	Audit      bool     // check the state caching instead of using it
}

// Result of one exploration.
type Result struct {
	Execs     int64
	Steps     int64
	Nodes     int64 // choice points first reached (states of the choice tree)
	ByBound   []int64
	BoundDone int // largest bound completely explored (by this shard), -1 if none
	Complete  bool
	Outcomes  map[string]int64
	MaxDepth  int
	Fail      string
	Div       string
	Choices   []uint16
	Sample    []string
	Known     map[string]int64
	States    int64 // distinct states (happens-before graphs with running goroutine) at choice points
	Cut       int64 // executions ended at a state seen before
	Hits      int64
	Dropped   int64 // choice points not branched at because of the bound
}

type item struct {
	tr  *[]Pt
	i   int
	alt uint16
}

func (it item) prefix() (p, w []uint16) {
	p = make([]uint16, it.i+1)
	w = make([]uint16, it.i+1)
	for k := 0; k < it.i; k++ {
		p[k] = (*it.tr)[k].I
		w[k] = (*it.tr)[k].N
	}
	p[it.i] = it.alt
	w[it.i] = (*it.tr)[it.i].N
	return
}

// ExploreAll enumerates all executions of c.Body with at most c.Bound deviations.
func ExploreAll(c Config) *Result {
	res := &Result{Outcomes: map[string]int64{}, BoundDone: -1, Known: map[string]int64{}}
	if c.Shards == 0 {
		c.Shards = 1
	}
	var seen *Cache
	if !c.NoCache {
		seen = NewCache(c.Audit)
		defer func() { res.States, res.Hits = int64(seen.Len()), seen.Hits }()
	}
	levels := make([][]item, c.Bound+2)
	count := c.Shard == 0 // shared prefix of the search is counted by shard 0 only
	exec := func(p, w []uint16, lvl int) bool {
		r := run(c.Body, p, w, c.MaxSteps, false, seen)
		e := r.E
		if c.Audit {
			seen.check(e)
			if seen.Bad != "" && e.Div == "" {
				e.Div = seen.Bad
			}
		}
		if count {
			res.Execs++
			res.Steps += int64(e.Steps)
			res.Nodes += int64(len(e.Trace) - len(p) + 1)
			for len(res.ByBound) <= lvl {
				res.ByBound = append(res.ByBound, 0)
			}
			res.ByBound[lvl]++
			if e.Cut {
				res.Cut++
			} else {
				res.Outcomes[e.Out]++
			}
			if len(e.Trace) > res.MaxDepth {
				res.MaxDepth = len(e.Trace)
			}
			if len(res.Sample) < 2 || (res.Execs&(res.Execs-1)) == 0 && len(res.Sample) < 8 {
				res.Sample = append(res.Sample, Render(e))
			}
		}
		if r.Races > 0 {
			e.fail(fmt.Sprintf("data race reported by the race detector (%d)", r.Races))
		}
		if e.Div != "" {
			res.Div = e.Div
			res.Choices = choicesOf(e)
			return false
		}
		for _, k := range c.Known {
			if e.Fail != "" && strings.Contains(e.Fail, k) {
				res.Known[k]++
				e.Fail = ""
			}
		}
		if e.Fail != "" {
			res.Fail = e.Fail
			res.Choices = choicesOf(e)
			return false
		}
		tr := new([]Pt)
		*tr = e.Trace
		for i := len(e.Trace) - 1; i >= len(p); i-- {
			pt := e.Trace[i]
			cost := int(pt.Pre) + int(pt.Cost)
			if cost > c.Bound {
				res.Dropped++
				continue
			}
			for a := uint16(1); a < pt.N; a++ {
				levels[cost] = append(levels[cost], item{tr, i, a})
			}
		}
		return true
	}
	if !exec(nil, nil, 0) {
		return res
	}
	// shared expansion until there is enough to divide
	if c.Shards > 1 {
		tot := func() int {
			n := 0
			for _, l := range levels {
				n += len(l)
			}
			return n
		}
		for n := 0; n < 4*c.Shards && tot() > 0 && tot() < 24*c.Shards; n++ {
			lvl := 0
			for len(levels[lvl]) == 0 {
				lvl++
			}
			it := levels[lvl][0]
			levels[lvl] = levels[lvl][1:]
			p, w := it.prefix()
			if !exec(p, w, lvl) {
				return res
			}
		}
		k := 0
		for l := range levels {
			var keep []item
			for _, it := range levels[l] {
				if k%c.Shards == c.Shard {
					keep = append(keep, it)
				}
				k++
			}
			levels[l] = keep
		}
	}
	count = true
	if c.Shared != "" && seen != nil && !c.Audit && c.Shards > 1 {
		n := 0
		for _, l := range levels {
			n += len(l)
		}
		if n > 0 {
			if err := seen.share(c.Shared, c.SharedSize); err != nil {
				res.Div = "state cache: " + err.Error()
				return res
			}
		}
	}
	if seen != nil && c.Shard != 0 && !c.Audit {
		seen.known = seen.n // the shared prefix of the search is counted by shard 0 only
	}
	for lvl := 0; lvl <= c.Bound; lvl++ {
		for len(levels[lvl]) > 0 {
			if res.Execs&15 == 0 && !c.Deadline.IsZero() && time.Now().After(c.Deadline) {
				return res
			}
			if c.MaxExec > 0 && res.Execs >= c.MaxExec {
				return res
			}
			n := len(levels[lvl]) - 1
			it := levels[lvl][n]
			levels[lvl] = levels[lvl][:n]
			p, w := it.prefix()
			if !exec(p, w, lvl) {
				return res
			}
		}
		res.BoundDone = lvl
	}
	res.Complete = true
	return res
}

func choicesOf(e *Exec) []uint16 {
	var c []uint16
	for _, p := range e.Trace {
		c = append(c, p.I)
	}
	// trailing default choices are implied
	for len(c) > 0 && c[len(c)-1] == 0 {
		c = c[:len(c)-1]
	}
	return c
}

// Render describes an execution: non-default choices and outcome.
func Render(e *Exec) string {
	s := ""
	for i, p := range e.Trace {
		if p.I != 0 {
			if p.Thread >= 0 {
				s += fmt.Sprintf("[%d] %s: switch to g%d; ", i, p.Op, p.Thread)
			} else {
				s += fmt.Sprintf("[%d] %s=%d; ", i, p.Op, p.I)
			}
		}
	}
	return fmt.Sprintf("%d choice points, %d steps; %s=> %s", len(e.Trace), e.Steps, s, e.Out)
}

// Replay runs one execution with operation tracing.
func Replay(body func(), choices []uint16, maxSteps int) (RunResult, []string) {
	r := run(body, choices, nil, maxSteps, true, nil)
	if r.Races > 0 {
		r.E.fail(fmt.Sprintf("data race reported by the race detector (%d)", r.Races))
	}
	return r, r.E.ops
}

// RunSeq runs body as a single managed execution without exploration.
func RunSeq(body func()) RunResult { return run(body, nil, nil, 1<<62, false, nil) }
