// Package sync shadows the standard sync package under the controlled scheduler.
package sync

import (
	"fmt"
	gosync "sync"
	"unsafe"

	"go.opencensus.io/internal/vsched"
)

type Locker = gosync.Locker

// Mutex shadows sync.Mutex.
type Mutex struct {
	obj    vsched.Obj
	locked bool
	tag    byte
}

func (m *Mutex) Lock() {
	if vsched.Exiting() {
		vsched.Exit()
	}
	vsched.Point("Lock", func() bool { return !m.locked })
	vsched.Touch(&m.obj, true)
	m.locked = true
	vsched.RaceAcquire(unsafe.Pointer(&m.tag))
}

func (m *Mutex) TryLock() bool {
	if vsched.Exiting() {
		vsched.Exit()
	}
	vsched.Point("TryLock", nil)
	vsched.Touch(&m.obj, true)
	if m.locked {
		return false
	}
	m.locked = true
	vsched.RaceAcquire(unsafe.Pointer(&m.tag))
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		if vsched.Exiting() {
			return
		}
		vsched.Failf("fatal error: unlock of unlocked mutex")
	}
	vsched.RaceRelease(unsafe.Pointer(&m.tag))
	vsched.Touch(&m.obj, true)
	m.locked = false
}

// RWMutex shadows sync.RWMutex (a waiting writer blocks new readers).
type RWMutex struct {
	obj     vsched.Obj
	w       bool
	r       int
	waiting int
	rt, wt  byte
}

func (m *RWMutex) RLock() {
	if vsched.Exiting() {
		vsched.Exit()
	}
	vsched.Point("RLock", func() bool { return !m.w && m.waiting == 0 })
	vsched.Touch(&m.obj, false)
	m.r++
	vsched.RaceAcquire(unsafe.Pointer(&m.rt))
}

func (m *RWMutex) TryRLock() bool {
	vsched.Point("TryRLock", nil)
	if m.w || m.waiting > 0 {
		vsched.Touch(&m.obj, false)
		return false
	}
	vsched.Touch(&m.obj, false)
	m.r++
	vsched.RaceAcquire(unsafe.Pointer(&m.rt))
	return true
}

func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		if vsched.Exiting() {
			return
		}
		vsched.Failf("fatal error: RUnlock of unlocked RWMutex")
	}
	vsched.RaceReleaseMerge(unsafe.Pointer(&m.wt))
	vsched.Touch(&m.obj, false)
	m.r--
}

func (m *RWMutex) Lock() {
	if vsched.Exiting() {
		vsched.Exit()
	}
	vsched.Point("WLock", nil)
	vsched.Touch(&m.obj, true)
	if m.w || m.r > 0 {
		m.waiting++
		vsched.Point("WLock wait", func() bool { return !m.w && m.r == 0 })
		vsched.Touch(&m.obj, true)
		m.waiting--
	}
	m.w = true
	vsched.RaceAcquire(unsafe.Pointer(&m.rt))
	vsched.RaceAcquire(unsafe.Pointer(&m.wt))
}

func (m *RWMutex) TryLock() bool {
	vsched.Point("TryWLock", nil)
	vsched.Touch(&m.obj, true)
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	vsched.RaceAcquire(unsafe.Pointer(&m.rt))
	vsched.RaceAcquire(unsafe.Pointer(&m.wt))
	return true
}

func (m *RWMutex) Unlock() {
	if !m.w {
		if vsched.Exiting() {
			return
		}
		vsched.Failf("fatal error: Unlock of unlocked RWMutex")
	}
	vsched.RaceRelease(unsafe.Pointer(&m.rt))
	vsched.RaceReleaseMerge(unsafe.Pointer(&m.wt))
	vsched.Touch(&m.obj, true)
	m.w = false
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once shadows sync.Once.
type Once struct {
	obj   vsched.Obj
	state int // 0 new, 1 running, 2 done
	tag   byte
}

func (o *Once) Do(f func()) {
	if vsched.Exiting() {
		vsched.Exit()
	}
	vsched.Point("Once", func() bool { return o.state != 1 })
	if o.state == 2 {
		vsched.Touch(&o.obj, false)
		vsched.RaceAcquire(unsafe.Pointer(&o.tag))
		return
	}
	vsched.Touch(&o.obj, true)
	o.state = 1
	defer func() {
		vsched.Touch(&o.obj, true)
		o.state = 2
		vsched.RaceRelease(unsafe.Pointer(&o.tag))
	}()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v T1
	var w T2
	return func() (T1, T2) { o.Do(func() { v, w = f() }); return v, w }
}

// WaitGroup shadows sync.WaitGroup.
type WaitGroup struct {
	obj vsched.Obj
	n   int
	tag byte
}

func (w *WaitGroup) Add(d int) {
	if vsched.Exiting() {
		return
	}
	vsched.Point("wg.Add", nil)
	if d < 0 {
		vsched.RaceReleaseMerge(unsafe.Pointer(&w.tag))
	}
	vsched.Touch(&w.obj, true)
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if vsched.Exiting() {
		vsched.Exit()
	}
	vsched.Point("wg.Wait", func() bool { return w.n == 0 })
	vsched.Touch(&w.obj, false)
	vsched.RaceAcquire(unsafe.Pointer(&w.tag))
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() {
		defer w.Done()
		f()
	})
}

// Cond shadows sync.Cond.
type Cond struct {
	L       Locker
	waiters []*condWaiter
	obj     vsched.Obj
	tag     byte
}

type condWaiter struct {
	fired bool
	h     uint64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if vsched.Exiting() {
		vsched.Exit()
	}
	f := new(condWaiter)
	vsched.Touch(&c.obj, true)
	c.waiters = append(c.waiters, f)
	c.L.Unlock()
	vsched.Point("cond.Wait", func() bool { return f.fired })
	vsched.Learn(f.h)
	vsched.RaceAcquire(unsafe.Pointer(&c.tag))
	c.L.Lock()
}
func (c *Cond) Signal() {
	vsched.Point("cond.Signal", nil)
	vsched.Touch(&c.obj, true)
	vsched.RaceReleaseMerge(unsafe.Pointer(&c.tag))
	if len(c.waiters) > 0 {
		c.waiters[0].fired, c.waiters[0].h = true, vsched.Event()
		c.waiters = c.waiters[1:]
	}
}
func (c *Cond) Broadcast() {
	vsched.Point("cond.Broadcast", nil)
	vsched.Touch(&c.obj, true)
	vsched.RaceReleaseMerge(unsafe.Pointer(&c.tag))
	for _, w := range c.waiters {
		w.fired, w.h = true, vsched.Event()
	}
	c.waiters = nil
}

// Pool shadows sync.Pool.
type Pool struct {
	New   func() any
	items []any
	obj   vsched.Obj
	tag   byte
}

func (p *Pool) Get() any {
	vsched.Point("pool.Get", nil)
	vsched.Touch(&p.obj, true)
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		vsched.RaceAcquire(unsafe.Pointer(&p.tag))
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	vsched.Point("pool.Put", nil)
	vsched.Touch(&p.obj, true)
	vsched.RaceReleaseMerge(unsafe.Pointer(&p.tag))
	p.items = append(p.items, v)
}

// Map shadows sync.Map; iteration is in insertion order.
type Map struct {
	es  []*mapEntry
	obj vsched.Obj
}

type mapEntry struct {
	k, v any
	gone bool
	tag  byte
}

func (m *Map) find(k any) *mapEntry {
	for _, e := range m.es {
		if e.k == k {
			return e
		}
	}
	return nil
}

func (m *Map) point(op string) {
	if vsched.Exiting() {
		vsched.Exit()
	}
	vsched.Point("Map."+op, nil)
	vsched.Touch(&m.obj, op != "Load" && op != "Range" && op != "Range step")
}

func (m *Map) rel(e *mapEntry) { vsched.RaceReleaseMerge(unsafe.Pointer(&e.tag)) }
func (m *Map) acq(e *mapEntry) { vsched.RaceAcquire(unsafe.Pointer(&e.tag)) }

func (m *Map) Load(k any) (any, bool) {
	m.point("Load")
	if e := m.find(k); e != nil {
		m.acq(e)
		return e.v, true
	}
	return nil, false
}

func (m *Map) Store(k, v any) { m.point("Store"); m.store(k, v) }

func (m *Map) store(k, v any) {
	if e := m.find(k); e != nil {
		m.acq(e)
		m.rel(e)
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	m.rel(e)
	m.es = append(m.es, e)
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.point("LoadOrStore")
	if e := m.find(k); e != nil {
		m.acq(e)
		return e.v, true
	}
	m.store(k, v)
	return v, false
}

func (m *Map) del(k any) (any, bool) {
	for i, e := range m.es {
		if e.k == k {
			m.acq(e)
			e.gone = true
			m.es = append(m.es[:i:i], m.es[i+1:]...)
			return e.v, true
		}
	}
	return nil, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) { m.point("LoadAndDelete"); return m.del(k) }
func (m *Map) Delete(k any)                    { m.point("Delete"); m.del(k) }
func (m *Map) Clear()                          { m.point("Clear"); m.es = nil }
func (m *Map) Swap(k, v any) (any, bool) {
	m.point("Swap")
	if e := m.find(k); e != nil {
		m.acq(e)
		m.rel(e)
		o := e.v
		e.v = v
		return o, true
	}
	m.store(k, v)
	return nil, false
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.point("CompareAndSwap")
	if e := m.find(k); e != nil && e.v == o {
		m.acq(e)
		m.rel(e)
		e.v = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.point("CompareAndDelete")
	if e := m.find(k); e != nil && e.v == o {
		m.del(k)
		return true
	}
	return false
}

// Range visits every key present throughout; keys stored or deleted meanwhile may or may not be
// seen, here: new ones are not, deleted ones are not. Each step is a scheduling point.
func (m *Map) Range(f func(k, v any) bool) {
	m.point("Range")
	es := append([]*mapEntry(nil), m.es...)
	for i, e := range es {
		if i > 0 {
			m.point("Range step")
		}
		cur := e
		if e.gone {
			// the key may have been stored again
			if c := m.find(e.k); c != nil {
				cur = c
			} else {
				continue
			}
		}
		m.acq(cur)
		if !f(cur.k, cur.v) {
			return
		}
	}
}

var _ = fmt.Sprint
