// Package vsched is the controlled scheduler that instrumented copies of opencensus-go run on.
//
// During an execution exactly one managed goroutine runs at a time. Before every synchronisation
// operation the running goroutine reaches a point, where the scheduler picks which goroutine
// performs its pending operation next. All picks (and the environment choices made by harnesses)
// form the choice sequence that the explorer enumerates.
//
// The package is compiled without race instrumentation; hand-offs between goroutines run with race
// event handling disabled, so that under -race only the edges of the modelled primitives count.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"unsafe"
)

// G is a managed goroutine.
type G struct {
	id      int
	wake    chan struct{}
	enabled func() bool // nil: always
	op      string
	done    bool
	fin     chan struct{}
	joinTag byte
	sleep   int64 // virtual deadline while sleeping, 0 otherwise
	serial  int64
	obj     Obj // written when the goroutine ends
	name    string
}

// Pt is one recorded choice.
type Pt struct {
	N      uint16 // alternatives
	I      uint16 // taken
	Cost   uint8  // 1 if taking an alternative other than the first is a deviation
	Pre    uint8  // deviations before this point
	Thread int16  // goroutine chosen, -1 for environment choices
	Op     string
}

// Exec is one execution.
type Exec struct {
	gs        []*G
	cur       *G
	prefix    []uint16
	want      []uint16 // expected N of the prefix points
	Trace     []Pt
	explore   bool
	pre       int
	Steps     int
	MaxSteps  int
	aborted   bool
	Fail      string // first violation
	Div       string // replay divergence / harness error
	end       chan struct{}
	now       int64
	timers    []*Timer
	tseq      int
	ords      []interface{}
	logs      []interface{}
	logTag    byte
	Out       string // outcome label set by the harness
	MapRev    bool
	ChooseCnt int
	selCost   uint8
	rnd       func([]byte)
	ops       []string
	KeepOps   bool
	stamp     int64

	// happens-before state caching
	hs      [256]uint64
	key     uint64
	epoch   uint64
	inTime  bool
	nocache bool
	Cut     bool // ended at a state seen before
	seen    *Cache
	marks   []mark
	addrs   []*addrObj
	resps   uint64
	clock   Obj
	spawns  Obj
	logObj  Obj
	stObj   Obj
	rndObj  Obj
}

var x *Exec

var endTag byte // orders executions after each other for the race detector

// Epoch is the virtual time at which executions start (2021-01-02 03:04:05 UTC).
const Epoch = 1609556645 * int64(1e9)

// Active reports whether an execution is in progress.
func Active() bool { return x != nil }

type killed struct{}

func (e *Exec) fail(s string) {
	if e.Fail == "" && e.Div == "" {
		e.Fail = s
	}
}

// Failf reports a property violation and ends the execution.
func Failf(f string, a ...interface{}) {
	if x == nil {
		panic(fmt.Sprintf(f, a...))
	}
	if x.aborted {
		runtime.Goexit()
	}
	x.fail(fmt.Sprintf(f, a...))
	x.stop()
}

// Note reports a violation but lets the execution go on.
func Note(f string, a ...interface{}) {
	if !x.aborted {
		x.fail(fmt.Sprintf(f, a...))
	}
}

// Harnessf reports an error of the harness itself (not a violation).
func Harnessf(f string, a ...interface{}) {
	if x.Div == "" {
		x.Div = fmt.Sprintf(f, a...)
	}
	x.stop()
}

// stop ends the execution from within a managed goroutine.
func (e *Exec) stop() {
	if !e.aborted {
		e.aborted = true
		raceDisable()
		close(e.end)
		raceEnable()
	}
	runtime.Goexit()
}

func (e *Exec) choose(n int, cost uint8, thr func(int) int16, op string) int {
	if n == 1 {
		return 0
	}
	k := len(e.Trace)
	i := 0
	if k < len(e.prefix) {
		i = int(e.prefix[k])
		if i >= n || (k < len(e.want) && int(e.want[k]) != n) {
			if e.Div == "" {
				e.Div = fmt.Sprintf("replay divergence at choice %d (%s): %d alternatives now, prefix takes %d of %d", k, op, n, i, wantAt(e.want, k))
			}
			e.stop()
		}
	}
	t := int16(-1)
	if thr != nil {
		t = thr(i)
	}
	if k >= len(e.prefix) {
		cur := -1
		if thr == nil {
			cur = e.cur.id
		} else if cost != 0 {
			cur = e.cur.id
		}
		kind := uint64(0)
		if thr == nil {
			kind = 1
		}
		e.visit(cur, kind)
	}
	e.Trace = append(e.Trace, Pt{uint16(n), uint16(i), cost, uint8(e.pre), t, op})
	if i != 0 && cost != 0 {
		e.pre++
	}
	if thr == nil {
		e.local(uint64(i))
	}
	return i
}

func wantAt(w []uint16, k int) int {
	if k < len(w) {
		return int(w[k])
	}
	return -1
}

var enBuf [256]*G

// pick selects the next goroutine; nil means nobody can run.
func (e *Exec) pick() *G {
	for {
		en := enBuf[:0]
		curIn := false
		if !e.cur.done && (e.cur.enabled == nil || e.cur.enabled()) {
			en = append(en, e.cur)
			curIn = true
		}
		if curIn && !e.explore {
			return e.cur
		}
		for _, g := range e.gs {
			if g != e.cur && !g.done && (g.enabled == nil || g.enabled()) {
				en = append(en, g)
				if !e.explore {
					return g
				}
			}
		}
		if len(en) == 0 {
			// only sleepers (if any) are left: time passes
			if e.advanceToSleeper() {
				continue
			}
			return nil
		}
		if !e.explore {
			return en[0]
		}
		cost := uint8(0)
		if curIn {
			cost = 1
		}
		i := e.choose(len(en), cost, func(i int) int16 { return int16(en[i].id) }, e.cur.op)
		return en[i]
	}
}

// point is reached before an operation; en tells when the operation can be performed.
func (e *Exec) point(op string, en func() bool) {
	g := e.cur
	if e.aborted {
		runtime.Goexit()
	}
	e.Steps++
	if e.Steps > e.MaxSteps {
		e.fail(fmt.Sprintf("no progress: more than %d steps (livelock?); last op %s of g%d\n%s", e.MaxSteps, op, g.id, e.dump()))
		e.stop()
	}
	if !e.explore && (en == nil || en()) {
		e.local(1)
		return
	}
	g.enabled, g.op = en, op
	nx := e.pick()
	if nx == nil {
		e.fail("deadlock: no goroutine can proceed\n" + e.dump())
		e.stop()
	}
	e.switchTo(nx)
	g.enabled = nil
	e.local(1)
	if e.KeepOps || e.seen != nil && e.seen.audit {
		e.ops = append(e.ops, fmt.Sprintf("g%d %s", g.id, op))
	}
}

func (e *Exec) switchTo(nx *G) {
	g := e.cur
	if nx == g {
		return
	}
	e.cur = nx
	raceDisable()
	nx.wake <- struct{}{}
	<-g.wake
	raceEnable()
	if e.aborted {
		runtime.Goexit()
	}
}

func (e *Exec) dump() string {
	var sb strings.Builder
	for _, g := range e.gs {
		st := "ready"
		if g.done {
			st = "done"
		} else if g.enabled != nil && !g.enabled() {
			st = "blocked"
		}
		fmt.Fprintf(&sb, "  g%d(%s) %s at %s\n", g.id, g.name, st, g.op)
	}
	return sb.String()
}

// Go starts f as a managed goroutine.
func Go(f func()) { e := x; spawn(e, "go", f) }

func spawn(e *Exec, name string, f func()) *G {
	if e == nil {
		panic("vsched: goroutine started outside an execution")
	}
	if e.aborted {
		return nil
	}
	e.spawns.ep = e.epoch
	if len(e.gs) > 0 {
		e.touch(&e.spawns, true)
	}
	g := &G{id: len(e.gs), wake: make(chan struct{}, 1), fin: make(chan struct{}), name: name, op: "start"}
	e.gs = append(e.gs, g)
	if len(e.gs) <= 250 {
		e.hs[g.id] = mix(e.spawns.w, 17)
		e.key += mix(uint64(g.id)+1, e.hs[g.id])
	}
	if len(e.gs) > 250 {
		e.fail("more than 250 goroutines")
		e.stop()
	}
	go func() {
		raceDisable()
		<-g.wake
		raceEnable()
		defer func() { // also when the successor's choice ends the execution
			raceDisable()
			close(g.fin)
			raceEnable()
		}()
		defer func() {
			raceReleaseMerge(unsafe.Pointer(&endTag))
			r := recover()
			if r != nil && !e.aborted {
				e.fail(fmt.Sprintf("panic in g%d(%s): %v\n%s", g.id, g.name, r, trimStack(debug.Stack())))
			}
			if e.aborted || r != nil {
				if !e.aborted {
					e.aborted = true
					raceDisable()
					close(e.end)
					raceEnable()
				}
				return
			}
			g.done = true
			e.touch(&g.obj, true)
			raceReleaseMerge(unsafe.Pointer(&g.joinTag))
			if g.id == 0 {
				e.aborted = true
				raceDisable()
				close(e.end)
				raceEnable()
				return
			}
			nx := e.pickDone(g)
			raceDisable()
			if nx != nil {
				e.cur = nx
				nx.wake <- struct{}{}
			}
			raceEnable()
		}()
		if e.aborted {
			return
		}
		e.local(1)
		f()
	}()
	return g
}

// pickDone picks the successor of a finished goroutine; nil if the execution ended.
func (e *Exec) pickDone(g *G) (nx *G) {
	ok := false
	defer func() {
		if !ok { // Goexit out of pick (divergence): end already closed
			nx = nil
		}
	}()
	nx = e.pick()
	ok = true
	if nx == nil {
		e.fail("deadlock: no goroutine can proceed\n" + e.dump())
		e.aborted = true
		raceDisable()
		close(e.end)
		raceEnable()
	}
	return nx
}

func trimStack(b []byte) string {
	s := string(b)
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// RunResult is what one execution produced.
type RunResult struct {
	E     *Exec
	Races int
}

// Run performs one execution of body following prefix.
func Run(body func(), prefix, want []uint16, maxSteps int) RunResult { return run(body, prefix, want, maxSteps, false, nil) }

func run(body func(), prefix, want []uint16, maxSteps int, keep bool, seen *Cache) RunResult {
	if maxSteps == 0 {
		maxSteps = 20000
	}
	e := &Exec{prefix: prefix, want: want, MaxSteps: maxSteps, end: make(chan struct{}), now: Epoch, KeepOps: keep, selCost: 1, seen: seen}
	epoch++
	e.epoch = epoch
	x = e
	r0 := raceErrors()
	g0 := spawn(e, "main", body)
	e.cur = g0
	raceDisable()
	g0.wake <- struct{}{}
	<-e.end
	raceEnable()
	races := raceErrors() - r0
	// unwind everything that is still parked, one goroutine at a time
	for i := 0; i < len(e.gs); i++ {
		g := e.gs[i]
		raceDisable()
		select {
		case <-g.fin:
		default:
			e.cur = g
			select {
			case g.wake <- struct{}{}:
			default:
			}
			<-g.fin
		}
		raceEnable()
	}
	raceAcquire(unsafe.Pointer(&endTag))
	x = nil
	if e.Div == "" && e.Fail == "" && len(prefix) > len(e.Trace) {
		e.Div = fmt.Sprintf("replay divergence: %d choices made, prefix has %d", len(e.Trace), len(prefix))
	}
	return RunResult{e, races}
}

// ---- harness API (called from managed goroutines) ----

// Explore turns recording of scheduling choices on or off.
func Explore(on bool) { x.explore = on }

// SelFree makes the choice among several ready select cases free of deviation cost.
func SelFree() { x.selCost = 0 }

// Yield is an explicit scheduling point.
func Yield() {
	if x != nil {
		x.point("yield", nil)
	}
}

// Choose is an environment choice among n alternatives (always explored, no deviation cost).
func Choose(n int, what string) int {
	if x.aborted {
		runtime.Goexit()
	}
	return x.choose(n, 0, nil, what)
}

// ChooseDev is an environment choice where alternatives other than 0 cost one deviation.
func ChooseDev(n int, what string) int { return x.choose(n, 1, nil, what) }

// Thread starts a named managed goroutine of the harness.
func Thread(name string, f func()) *G { return spawn(x, name, f) }

// Join waits for harness threads.
func Join(gs ...*G) {
	for _, g := range gs {
		g := g
		x.point("join "+g.name, func() bool { return g.done })
		x.touch(&g.obj, false)
		raceAcquire(unsafe.Pointer(&g.joinTag))
	}
}

// Done reports whether the thread has finished, without synchronising.
func (g *G) Done() bool { Touch(&g.obj, false); return g.done }

// Block waits until cond holds (cond must be free of scheduling points).
func Block(what string, cond func() bool) { x.point(what, cond); x.learnAll() }

// Idle waits until no goroutine other than the caller can run.
func Idle() {
	e := x
	me := e.cur
	e.point("idle", func() bool {
		for _, g := range e.gs {
			if g != me && !g.done && g.op != "idle" && (g.enabled == nil || g.enabled()) {
				return false
			}
		}
		return true
	})
	e.learnAll()
}

// Outcome sets the outcome label of the execution.
func Outcome(f string, a ...interface{}) { x.Out = fmt.Sprintf(f, a...) }

// Log appends v to the execution's log without synchronising the caller with anybody.
func Log(v interface{}) {
	if x == nil || x.aborted {
		return
	}
	x.touch(&x.logObj, true)
	x.logs = append(x.logs, v)
	raceReleaseMerge(unsafe.Pointer(&x.logTag))
}

// Logs returns what was logged; the caller synchronises with all loggers.
func Logs() []interface{} {
	Touch(&x.logObj, false)
	raceAcquire(unsafe.Pointer(&x.logTag))
	return x.logs
}

// LogLen returns the length of the log without synchronising.
func LogLen() int { Touch(&x.logObj, false); return len(x.logs) }

// Stamp returns a number larger than all earlier ones, for ordering operations of a history.
//
//go:noinline
func Stamp() int64 {
	x.stamp++
	if !x.aborted {
		x.touch(&x.stObj, true)
		x.resps += x.bump(mix(x.resps, 9))
	}
	return x.stamp
}

// Now returns the virtual time in nanoseconds.
func Now() int64 {
	if x == nil {
		return Epoch
	}
	Touch(&x.clock, false)
	return x.now
}

// CurID is the id of the running goroutine.
func CurID() int { return x.cur.id }

// SetRand sets the source behind crypto/rand for this execution.
func SetRand(f func([]byte)) { x.rnd = f }

// Rand fills b with the execution's random bytes.
func Rand(b []byte) {
	if x != nil && x.rnd != nil {
		Touch(&x.rndObj, true)
		x.rnd(b)
		return
	}
	for i := range b {
		b[i] = byte(i*37 + 11)
	}
}

// MapReverse reverses the order of map iteration for this execution.
func MapReverse(on bool) { x.MapRev = on }

// Aborted reports whether the execution is being torn down.
func Aborted() bool { return x == nil || x.aborted }
