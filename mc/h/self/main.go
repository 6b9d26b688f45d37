// Command self holds self-tests of the scheduler and its race detection: some tasks must report a
// failure, the others must not (run by selftest.py).
package main

import (
	"go.opencensus.io/internal/vh"
	"go.opencensus.io/internal/vsched"
	"go.opencensus.io/internal/vsched/vatomic"
	"go.opencensus.io/internal/vsched/vsync"
)

func two(f, g func()) {
	vsched.Explore(true)
	a, b := vsched.Thread("a", f), vsched.Thread("b", g)
	vsched.Join(a, b)
	vsched.Explore(false)
}

func task(name string, body func()) {
	vh.Add(&vh.Task{Prop: "SELF", Name: name, Race: true, Bound: [2]int{3, 3}, Body: body})
}

func main() {
	task("ok-atomic-publish", func() {
		var x int
		var fl int32
		two(func() { x = 1; atomic.StoreInt32(&fl, 1) }, func() {
			if atomic.LoadInt32(&fl) == 1 && x != 1 {
				vsched.Failf("x=%d", x)
			}
		})
	})
	task("ok-atomic-value", func() {
		var v atomic.Value
		two(func() { s := []int{1, 2}; v.Store(s) }, func() {
			if s, ok := v.Load().([]int); ok && s[1] != 2 {
				vsched.Failf("bad")
			}
		})
	})
	task("ok-mutex", func() {
		var mu sync.Mutex
		x := 0
		two(func() { mu.Lock(); x++; mu.Unlock() }, func() { mu.Lock(); x++; mu.Unlock() })
	})
	task("ok-rwmutex", func() {
		var mu sync.RWMutex
		x := 0
		two(func() { mu.Lock(); x++; mu.Unlock() }, func() { mu.RLock(); _ = x; mu.RUnlock() })
	})
	task("ok-once", func() {
		var o sync.Once
		var x *int
		f := func() { o.Do(func() { x = new(int) }); _ = *x }
		two(f, f)
	})
	task("ok-chan", func() {
		c := vsched.MakeChan[int](1)
		x := 0
		two(func() { x = 1; c.Send(1) }, func() { vsched.Recv(c); x++ })
	})
	task("ok-syncmap", func() {
		var m sync.Map
		f := func() { v, _ := m.LoadOrStore("k", new(int)); _ = *(v.(*int)) }
		two(f, f)
	})
	task("bad-plain", func() {
		x := 0
		two(func() { x = 1 }, func() { x = 2 }); _ = x
	})
	task("bad-read-write", func() {
		var mu sync.Mutex
		x := 0
		two(func() { mu.Lock(); x++; mu.Unlock() }, func() { _ = x })
	})
	task("bad-rlock-writers", func() {
		var mu sync.RWMutex
		x := 0
		two(func() { mu.RLock(); x++; mu.RUnlock() }, func() { mu.RLock(); x++; mu.RUnlock() })
	})
	task("bad-atomic-mixed", func() {
		var x int32
		two(func() { atomic.StoreInt32(&x, 1) }, func() { x++ })
	})
	task("bad-lost-update", func() {
		var x int32
		f := func() { v := atomic.LoadInt32(&x); atomic.StoreInt32(&x, v+1) }
		two(f, f)
		if atomic.LoadInt32(&x) != 2 {
			vsched.Failf("lost update")
		}
	})
	task("bad-deadlock", func() {
		var a, b sync.Mutex
		two(func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock() }, func() { b.Lock(); a.Lock(); a.Unlock(); b.Unlock() })
	})
	task("bad-map", func() {
		m := map[int]int{}
		two(func() { m[1] = 1 }, func() { m[2] = 2 })
	})
	vh.Main()
}
