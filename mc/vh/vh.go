// Package vh is the harness framework: tasks, sharding, results and replay.
package vh

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"go.opencensus.io/internal/vsched"
)

// Task is one exploration belonging to a property.
type Task struct {
	Prop     string
	Name     string
	Body     func()     // schedule exploration (preferred under -race)
	Seq      func(s *S) // history/input enumeration
	Race     bool       // needs the race binary
	Bound    [2]int     // deviation bound for quick, thorough
	MaxSteps int
	Shards   [2]int // processes for quick, thorough (0 = 1)
	Tier     int    // 1: thorough only
	Weight   int
}

var tasks []*Task

// Add registers tasks.
func Add(ts ...*Task) { tasks = append(tasks, ts...) }

// S is the state of a sequential enumeration.
type S struct {
	Thorough bool
	Shard    int
	Shards   int
	States   int64
	Trans    int64
	deadline time.Time
	Expired  bool
	out      map[string]int64
	Samples  []string
	fail     string
	failCase string
	n        int64
	known    []string
	Known    map[string]int64
	seen     map[uint64]struct{}
}

// Mine reports whether case number n belongs to this shard; cases are numbered by the caller's loop.
func (s *S) Mine() bool {
	s.n++
	return s.Shards <= 1 || int(s.n%int64(s.Shards)) == s.Shard
}

// Stop reports whether the enumeration should stop (failure or deadline).
func (s *S) Stop() bool {
	if s.fail != "" {
		return true
	}
	if s.Expired {
		return true
	}
	if s.States&63 == 0 && !s.deadline.IsZero() && time.Now().After(s.deadline) {
		s.Expired = true
	}
	return s.Expired
}

// Case counts one explored case.
func (s *S) Case(steps int) {
	s.States++
	s.Trans += int64(steps)
}

// Outcome counts a class of observed results.
func (s *S) Outcome(f string, a ...interface{}) {
	k := f
	if len(a) > 0 {
		k = fmt.Sprintf(f, a...)
	}
	h := fnv.New64a()
	h.Write([]byte(k))
	s.seen[h.Sum64()] = struct{}{}
	if len(s.out) < 2000 || s.out[k] > 0 {
		if len(k) > 200 {
			k = k[:200]
		}
		s.out[k]++
	} else {
		s.out["(further)"]++
	}
}

// Sample keeps a few written-out cases.
func (s *S) Sample(f string, a ...interface{}) {
	if len(s.Samples) < 6 && s.States&(s.States-1) == 0 {
		s.Samples = append(s.Samples, fmt.Sprintf(f, a...))
	}
}

// Failf reports a violation for a case.
func (s *S) Failf(cas string, f string, a ...interface{}) {
	if s.fail == "" {
		m := fmt.Sprintf(f, a...)
		for _, k := range s.known {
			if strings.Contains(cas+"\n"+m, k) {
				s.Known[k]++
				return
			}
		}
		s.fail, s.failCase = m, cas
	}
}

// Failed reports whether a violation was found.
func (s *S) Failed() bool { return s.fail != "" }

// Guard runs f and turns panics into violations.
func (s *S) Guard(cas string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			s.Failf(cas, "panic: %v\n%s", r, debug.Stack())
		}
	}()
	f()
}

// Exec runs f as a fresh managed execution (no exploration) with all package state re-initialised.
func (s *S) Exec(cas string, f func()) {
	r := vsched.RunSeq(func() { f() })
	if r.E.Div != "" {
		s.Failf(cas, "harness error: %s", r.E.Div)
	}
	if r.E.Fail != "" {
		s.Failf(cas, "%s", r.E.Fail)
	}
}

// Out is what a task process writes.
type Out struct {
	Task      string
	Shard     int
	Kind      string
	Execs     int64
	Steps     int64
	ByBound   []int64
	Bound     int
	BoundDone int
	Complete  bool
	Outcomes  map[string]int64
	MaxDepth  int
	Fail      string
	Div       string
	Case      string
	Choices   []uint16
	Samples   []string
	States    int64
	Cut       int64
	Hits      int64
	Dropped   int64
	Known     map[string]int64
	Ops       []string
	WallS     float64
}

// Main is the entry point of harness binaries.
func Main() {
	list := flag.Bool("list", false, "")
	prop := flag.String("prop", "", "")
	task := flag.String("task", "", "")
	tier := flag.String("tier", "quick", "")
	shard := flag.String("shard", "0/1", "")
	out := flag.String("out", "", "")
	dl := flag.Float64("deadline", 0, "seconds")
	replay := flag.String("replay", "", "")
	bound := flag.Int("bound", -1, "")
	verbose := flag.Bool("v", false, "")
	nocache := flag.Bool("nocache", false, "")
	cache := flag.String("cache", "", "file with the states seen by all shards")
	audit := flag.Bool("audit", false, "")
	flag.Parse()
	th := 0
	if *tier == "thorough" {
		th = 1
	}
	if *list {
		type lt struct {
			Prop, Name string
			Race       bool
			Shards     int
			Weight     int
			Seq        bool
		}
		var ls []lt
		for _, t := range tasks {
			if (*prop == "" || t.Prop == *prop) && t.Tier <= th {
				n := t.Shards[th]
				if n == 0 {
					n = 1
				}
				ls = append(ls, lt{t.Prop, t.Name, t.Race, n, t.Weight, t.Seq != nil})
			}
		}
		json.NewEncoder(os.Stdout).Encode(ls)
		return
	}
	var t *Task
	for _, c := range tasks {
		if c.Prop == *prop && c.Name == *task {
			t = c
		}
	}
	if t == nil {
		fmt.Fprintln(os.Stderr, "no such task", *prop, *task)
		os.Exit(2)
	}
	runtime.GOMAXPROCS(1)
	if p := os.Getenv("VH_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(400)
	o := &Out{Task: t.Name, Outcomes: map[string]int64{}}
	start := time.Now()
	var deadline time.Time
	if *dl > 0 {
		deadline = start.Add(time.Duration(*dl * float64(time.Second)))
	}
	sh := strings.Split(*shard, "/")
	si, _ := strconv.Atoi(sh[0])
	sn, _ := strconv.Atoi(sh[1])
	o.Shard = si
	b := t.Bound[th]
	if *bound >= 0 {
		b = *bound
	}
	o.Bound = b
	var known []string
	for _, k := range strings.Split(os.Getenv("VH_KNOWN"), "\x1f") {
		if k != "" {
			known = append(known, k)
		}
	}
	if t.Seq != nil {
		o.Kind = "enumeration"
		s := &S{Thorough: th == 1, Shard: si, Shards: sn, deadline: deadline, out: o.Outcomes, seen: map[uint64]struct{}{}, known: known, Known: map[string]int64{}}
		func() {
			defer func() {
				if r := recover(); r != nil {
					s.Failf("(outside a case)", "panic: %v\n%s", r, debug.Stack())
				}
			}()
			t.Seq(s)
		}()
		o.Execs, o.States, o.Steps = s.States, int64(len(s.seen)), s.Trans
		o.Known = s.Known
		o.Complete = !s.Expired
		o.Fail, o.Case, o.Samples = s.fail, s.failCase, s.Samples
	} else if *replay != "" {
		o.Kind = "schedules"
		var ch []uint16
		for _, f := range strings.FieldsFunc(*replay, func(r rune) bool { return r == ',' }) {
			n, _ := strconv.Atoi(f)
			ch = append(ch, uint16(n))
		}
		r, ops := vsched.Replay(t.Body, ch, t.MaxSteps)
		o.Fail, o.Div, o.Ops = r.E.Fail, r.E.Div, ops
		o.Execs = 1
		o.Samples = []string{vsched.Render(r.E)}
	} else {
		o.Kind = "schedules"
		r := vsched.ExploreAll(vsched.Config{Body: t.Body, Bound: b, MaxSteps: t.MaxSteps, Deadline: deadline, Shard: si, Shards: sn, Known: known, NoCache: *nocache, Audit: *audit, Shared: *cache, SharedSize: 1 << (23 + 3*th)})
		o.States, o.Known, o.Dropped = r.Nodes, r.Known, r.Dropped
		if !*nocache {
			o.States, o.Cut, o.Hits = r.States, r.Cut, r.Hits
		}
		o.Execs, o.Steps, o.ByBound, o.BoundDone, o.Complete, o.Outcomes, o.MaxDepth = r.Execs, r.Steps, r.ByBound, r.BoundDone, r.Complete, r.Outcomes, r.MaxDepth
		o.Fail, o.Div, o.Choices, o.Samples = r.Fail, r.Div, r.Choices, r.Sample
	}
	if len(o.Outcomes) > 400 {
		ks := make([]string, 0, len(o.Outcomes))
		for k := range o.Outcomes {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks[400:] {
			o.Outcomes["(further)"] += o.Outcomes[k]
			delete(o.Outcomes, k)
		}
	}
	o.WallS = time.Since(start).Seconds()
	j, _ := json.Marshal(o)
	if *out != "" {
		os.WriteFile(*out, j, 0o644)
	}
	if *verbose || *out == "" {
		ks := make([]string, 0)
		for k := range o.Outcomes {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Printf("%s/%s: execs=%d steps=%d states=%d cut=%d hits=%d byBound=%v boundDone=%d complete=%v depth=%d outcomes=%d %.2fs\n", *prop, t.Name, o.Execs, o.Steps, o.States, o.Cut, o.Hits, o.ByBound, o.BoundDone, o.Complete, o.MaxDepth, len(o.Outcomes), o.WallS)
		if *verbose {
			for _, k := range ks {
				fmt.Printf("   %8d  %s\n", o.Outcomes[k], k)
			}
			for _, s := range o.Samples {
				fmt.Println("   sample:", s)
			}
			for _, s := range o.Ops {
				fmt.Println("   op:", s)
			}
		}
		if o.Fail != "" {
			fmt.Println("FAIL:", o.Fail, "\n case:", o.Case, "\n choices:", o.Choices)
		}
		if o.Div != "" {
			fmt.Println("HARNESS:", o.Div, o.Choices)
		}
	}
}
