package vsched

import (
	"runtime"
	"unsafe"
)

// The core is not generic: generic code is compiled (and race-instrumented) in the packages that
// instantiate it, so everything that touches scheduler state has to stay out of it.

type waiter struct {
	val   interface{}
	ok    bool
	fired *bool // shared between the cases of one select
	which *int
	idx   int
	a, b  byte // race sync addresses
	h     uint64
	sel   []*SelCase
}

type chanCore struct {
	buf    []interface{}
	cap    int
	slots  []byte // race addresses of the buffer slots
	sent   int
	recvd  int
	closed bool
	ctag   byte
	obj    Obj
	recvq  []*waiter
	sendq  []*waiter
	native func() (v interface{}, ok, got bool)
}

// Chan models a Go channel.
type Chan[T any] struct{ c chanCore }

func initCore(c *chanCore, n int) {
	m := n
	if m > 2048 {
		m = 2048
	}
	if m == 0 {
		m = 1
	}
	c.cap, c.slots = n, make([]byte, m)
}

// MakeChan is make(chan T, n).
func MakeChan[T any](n int) *Chan[T] {
	c := new(Chan[T])
	initCore(&c.c, n)
	return c
}

// MakeLike makes a channel of the type of its first argument, which is nil.
func MakeLike[T any](_ *Chan[T], n int) *Chan[T] { return MakeChan[T](n) }

// Native wraps a channel that lives outside the instrumented module.
func Native[T any](n <-chan T) *Chan[T] {
	if n == nil {
		return nil
	}
	c := new(Chan[T])
	initNative(&c.c, func() (v interface{}, ok, got bool) {
		select {
		case w, k := <-n:
			return w, k, true
		default:
			return nil, false, false
		}
	})
	return c
}

func initNative(c *chanCore, f func() (v interface{}, ok, got bool)) {
	NoCache()
	c.cap, c.slots, c.native = 1<<30, make([]byte, 1), f
}

func coreOf[T any](c *Chan[T]) *chanCore {
	if c == nil {
		return nil
	}
	return &c.c
}

// Send is c <- v.
func (c *Chan[T]) Send(v T) { sendCore(coreOf(c), v) }

// TrySend performs a non-blocking send without a scheduling point (used by timers).
func (c *Chan[T]) TrySend(v T) bool { return trySendCore(coreOf(c), v) }

// Drain takes what is buffered, without a scheduling point: a stopped or reset
// timer leaves nothing in its channel (as of Go 1.23). It reports whether
// there was something.
func (c *Chan[T]) Drain() bool {
	k := coreOf(c)
	if k == nil || len(k.buf) == 0 {
		return false
	}
	Touch(&k.obj, true)
	k.recvd += len(k.buf)
	k.buf = nil
	return true
}

// Recv is <-c.
func Recv[T any](c *Chan[T]) T { v, _ := recvCore(coreOf(c)); t, _ := v.(T); return t }

// Recv2 is v, ok := <-c.
func Recv2[T any](c *Chan[T]) (T, bool) { v, ok := recvCore(coreOf(c)); t, _ := v.(T); return t, ok }

// Close is close(c).
func Close[T any](c *Chan[T]) { closeCore(coreOf(c)) }

// ChanLen is len(c); ChanCap is cap(c).
func ChanLen[T any](c *Chan[T]) int { return lenCore(coreOf(c)) }
func ChanCap[T any](c *Chan[T]) int { return capCore(coreOf(c)) }

// RecvCase is case <-c.
func (c *Chan[T]) RecvCase() *SelCase { return newCase(coreOf(c), false, nil) }

// SendCase is case c <- v.
func (c *Chan[T]) SendCase(v T) *SelCase { return newCase(coreOf(c), true, v) }

// V is the value received by the select on c.
func (c *Chan[T]) V(s *SelVal) T { v, _ := selVal(s); t, _ := v.(T); return t }

// V2 is the value and ok flag received by the select on c.
func (c *Chan[T]) V2(s *SelVal) (T, bool) { v, ok := selVal(s); t, _ := v.(T); return t, ok }

func (c *chanCore) poll() {
	if c.native == nil || c.closed || len(c.buf) > 0 {
		return
	}
	if v, ok, got := c.native(); got {
		if ok {
			c.buf = append(c.buf, v)
		} else {
			c.closed = true
		}
	}
}

func (c *chanCore) slot(k int) unsafe.Pointer { return unsafe.Pointer(&c.slots[k%len(c.slots)]) }

func live(q []*waiter) []*waiter {
	for len(q) > 0 && *q[0].fired {
		q = q[1:]
	}
	return q
}

func never() bool { return false }

func (c *chanCore) canRecv() bool {
	c.poll()
	c.sendq = live(c.sendq)
	return len(c.buf) > 0 || len(c.sendq) > 0 || c.closed
}
func (c *chanCore) canSend() bool {
	c.recvq = live(c.recvq)
	return c.closed || len(c.recvq) > 0 || len(c.buf) < c.cap
}

// recvNow performs a receive that is known to be possible.
func (c *chanCore) recvNow() (v interface{}, ok bool) {
	Touch(&c.obj, true)
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
		p := c.slot(c.recvd)
		c.recvd++
		raceAcquire(p)
		raceRelease(p)
		c.sendq = live(c.sendq)
		if len(c.sendq) > 0 { // a blocked sender moves into the buffer
			w := c.sendq[0]
			c.sendq = c.sendq[1:]
			c.buf = append(c.buf, w.val)
			// the sender's writes happen before the receive of this slot
			raceAcquire(unsafe.Pointer(&w.b))
			raceReleaseMerge(c.slot(c.sent))
			c.sent++
			raceReleaseMerge(unsafe.Pointer(&w.a))
			w.fire(true)
		}
		return v, true
	}
	if len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		v = w.val
		raceAcquire(unsafe.Pointer(&w.b))
		raceReleaseMerge(unsafe.Pointer(&w.a))
		w.fire(true)
		return v, true
	}
	raceAcquire(unsafe.Pointer(&c.ctag))
	return v, false
}

func (w *waiter) fire(ok bool) {
	*w.fired = true
	*w.which = w.idx
	w.ok = ok
	if x != nil && !x.aborted {
		for _, s := range w.sel { // the select's other cases are off
			if s.c != nil {
				x.touch(&s.c.obj, true)
			}
		}
		w.h = Event()
	}
}

func (c *chanCore) sendNow(v interface{}) {
	Touch(&c.obj, true)
	if c.closed {
		panic("send on closed channel")
	}
	if len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		w.val = v
		raceAcquire(unsafe.Pointer(&w.b))
		raceReleaseMerge(unsafe.Pointer(&w.a))
		w.fire(true)
		return
	}
	p := c.slot(c.sent)
	c.sent++
	raceAcquire(p)
	raceRelease(p)
	c.buf = append(c.buf, v)
}

func sendCore(c *chanCore, v interface{}) {
	if x == nil {
		if c != nil && len(c.buf) < c.cap && !c.closed {
			c.buf = append(c.buf, v)
			return
		}
		panic("vsched: channel operation outside an execution would block")
	}
	if c == nil {
		x.point("send nil", never)
	}
	x.point("send", nil)
	if c.canSend() {
		c.sendNow(v)
		return
	}
	fired, which := false, 0
	w := &waiter{val: v, fired: &fired, which: &which}
	raceReleaseMerge(unsafe.Pointer(&w.b))
	x.touch(&c.obj, true)
	c.sendq = append(c.sendq, w)
	x.point("send wait", func() bool { return fired })
	x.learn(w.h)
	raceAcquire(unsafe.Pointer(&w.a))
	if !w.ok {
		panic("send on closed channel")
	}
}

func trySendCore(c *chanCore, v interface{}) bool {
	if c.canSend() && !c.closed {
		c.sendNow(v)
		return true
	}
	Touch(&c.obj, true)
	return false
}

func recvCore(c *chanCore) (interface{}, bool) {
	if x == nil {
		panic("vsched: channel receive outside an execution")
	}
	if c == nil {
		x.point("recv nil", never)
	}
	if c.native != nil {
		x.point("recv native", c.canRecv)
		return c.recvNow()
	}
	x.point("recv", nil)
	if c.canRecv() {
		return c.recvNow()
	}
	fired, which := false, 0
	w := &waiter{fired: &fired, which: &which}
	raceReleaseMerge(unsafe.Pointer(&w.b))
	x.touch(&c.obj, true)
	c.recvq = append(c.recvq, w)
	x.point("recv wait", func() bool { return fired })
	x.learn(w.h)
	raceAcquire(unsafe.Pointer(&w.a))
	return w.val, w.ok
}

func closeCore(c *chanCore) {
	if x != nil {
		if x.aborted {
			runtime.Goexit()
		}
		x.point("close", nil)
	}
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	Touch(&c.obj, true)
	c.closed = true
	raceReleaseMerge(unsafe.Pointer(&c.ctag))
	for _, q := range [][]*waiter{c.recvq, c.sendq} {
		for _, w := range q {
			if !*w.fired {
				raceReleaseMerge(unsafe.Pointer(&w.a))
				w.val = nil
				w.fire(false)
			}
		}
	}
	c.recvq, c.sendq = nil, nil
}

func lenCore(c *chanCore) int {
	if c == nil {
		return 0
	}
	if x != nil {
		x.point("chan len", nil)
		x.touch(&c.obj, false)
	}
	return len(c.buf)
}

func capCore(c *chanCore) int {
	if c == nil {
		return 0
	}
	return c.cap
}

// SelVal is the result of a select: the index of the case taken and the received value.
type SelVal struct {
	I     int
	val   interface{}
	ok    bool
	fired bool
	which int
}

func selVal(s *SelVal) (interface{}, bool) { return s.val, s.ok }

// SelCase is one case of a select.
type SelCase struct {
	c    *chanCore
	send bool
	v    interface{}
	w    *waiter
}

func newCase(c *chanCore, send bool, v interface{}) *SelCase { return &SelCase{c: c, send: send, v: v} }

func (r *SelCase) ready() bool {
	if r.c == nil {
		return false
	}
	if r.send {
		return r.c.canSend()
	}
	return r.c.canRecv()
}

// Select is the select statement; index len(cases) (no case label) stands for default.
func Select(def bool, cases ...*SelCase) *SelVal {
	if x == nil {
		panic("vsched: select outside an execution")
	}
	s := &SelVal{}
	x.point("select", nil)
	for {
		var rd []int
		poll := false
		for i, c := range cases {
			if c.c != nil {
				x.touch(&c.c.obj, true)
			}
			if c.ready() {
				rd = append(rd, i)
			}
			poll = poll || c.c != nil && c.c.native != nil
		}
		if len(rd) > 0 {
			k := 0
			if x.explore {
				k = x.choose(len(rd), x.selCost, nil, "select case")
			}
			s.I = rd[k]
			r := cases[s.I]
			if r.send {
				r.c.sendNow(r.v)
			} else {
				s.val, s.ok = r.c.recvNow()
			}
			return s
		}
		if def {
			s.I = len(cases)
			return s
		}
		if !poll {
			break
		}
		x.point("select wait", func() bool {
			for _, c := range cases {
				if c.ready() {
					return true
				}
			}
			return false
		})
	}
	for i, r := range cases {
		if r.c == nil {
			continue
		}
		r.w = &waiter{val: r.v, fired: &s.fired, which: &s.which, idx: i, sel: cases}
		x.touch(&r.c.obj, true)
		raceReleaseMerge(unsafe.Pointer(&r.w.b))
		if r.send {
			r.c.sendq = append(live(r.c.sendq), r.w)
		} else {
			r.c.recvq = append(live(r.c.recvq), r.w)
		}
	}
	x.point("select wait", func() bool { return s.fired })
	s.I = s.which
	r := cases[s.I]
	x.learn(r.w.h)
	raceAcquire(unsafe.Pointer(&r.w.a))
	if r.send {
		if !r.w.ok {
			panic("send on closed channel")
		}
	} else {
		s.val, s.ok = r.w.val, r.w.ok
	}
	return s
}
