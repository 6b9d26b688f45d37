// Package rwtest holds plain Go programs with known sets of results: the
// rewriter and the scheduler must produce exactly these (selftest.sh).
package rwtest

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Program is one program and everything it can return.
type Program struct {
	Name string
	F    func() string
	Want []string
}

type box struct{ out chan string }

func (b *box) put(s string, n int) { b.out <- fmt.Sprint(s, n) }

type events chan int

func pair() (string, int) { return "p", 7 }

func arg(l *[]string, s string) string { *l = append(*l, s); return s }

// Programs are the programs.
var Programs = []Program{
	{"go method value, arguments evaluated first", func() string {
		b := &box{make(chan string, 1)}
		s, n := "a", 1
		go b.put(s, n)
		s, n = "b", 2
		b = &box{}
		_ = b
		return func() string { return fmt.Sprint(s, n) }()
	}, []string{"b2"}},
	{"go with results and variadic", func() string {
		var got []string
		var wg sync.WaitGroup
		wg.Add(1)
		f := func(p string, xs ...int) (int, error) {
			defer wg.Done()
			got = append(got, fmt.Sprint(p, xs))
			return 0, nil
		}
		xs := []int{1, 2}
		go f("v", xs...)
		wg.Wait()
		wg.Add(1)
		go f("w", 3)
		wg.Wait()
		return strings.Join(got, " ")
	}, []string{"v[1 2] w[3]"}},
	{"go evaluates in the caller", func() string {
		var l []string
		done := make(chan bool)
		go func(a, b string) { done <- true }(arg(&l, "x"), arg(&l, "y"))
		l = append(l, "z")
		<-done
		return strings.Join(l, "")
	}, []string{"xyz"}},
	{"go multi-value", func() string {
		done := make(chan string)
		go func(s string, n int) { done <- fmt.Sprint(s, n) }(pair())
		return <-done
	}, []string{"p7"}},
	{"two goroutines append", func() string {
		var mu sync.Mutex
		var l []string
		var wg sync.WaitGroup
		for _, s := range []string{"a", "b"} {
			s := s
			wg.Add(1)
			go func() {
				defer wg.Done()
				mu.Lock()
				defer mu.Unlock()
				l = append(l, s)
			}()
		}
		wg.Wait()
		return strings.Join(l, "")
	}, []string{"ab", "ba"}},
	{"labeled select", func() string {
		c, q := make(chan int, 3), make(chan bool)
		c <- 1
		c <- 2
		sum := 0
	loop:
		for {
			select {
			case v := <-c:
				if v == 1 {
					continue loop
				}
				sum += v
			case <-q:
				break loop
			default:
				break loop
			}
		}
	sel:
		select {
		case c <- 5:
			if sum > 0 {
				break sel
			}
			sum = -1
		}
		return fmt.Sprint(sum, len(c), cap(c))
	}, []string{"2 1 3"}},
	{"select either", func() string {
		a, b := make(chan int, 1), make(chan int, 1)
		a <- 1
		b <- 2
		select {
		case v, ok := <-a:
			return fmt.Sprint("a", v, ok)
		case v := <-b:
			return fmt.Sprint("b", v)
		}
	}, []string{"a1 true", "b2"}},
	{"select send or receive", func() string {
		c := make(chan int)
		done := make(chan string)
		go func() {
			select {
			case c <- 1:
				done <- "sent"
			case v := <-c:
				done <- fmt.Sprint("got", v)
			}
		}()
		select {
		case c <- 2:
			return "2 " + <-done
		case v := <-c:
			return fmt.Sprint(v, " ") + <-done
		}
	}, []string{"2 got2", "1 sent"}},
	{"close and range", func() string {
		c := make(chan int)
		go func() {
			defer close(c)
			for i := 0; i < 3; i++ {
				c <- i
			}
		}()
		s := ""
		for v := range c {
			s += fmt.Sprint(v)
		}
		v, ok := <-c
		var w, ok2 = <-c
		return fmt.Sprint(s, v, ok, w, ok2)
	}, []string{"0120 false 0 false"}},
	{"named channel, direction conversions, nil channel", func() string {
		e := make(events, 2)
		e <- 4
		var ro <-chan int = e
		var so chan<- int = e
		so <- 5
		var never chan int
		x := 0
		select {
		case <-never:
			return "never"
		case x = <-ro:
		}
		return fmt.Sprint(x, <-ro, len(e))
	}, []string{"4 5 0"}},
	{"channel of channels", func() string {
		req := make(chan chan string)
		go func() { (<-req) <- "reply" }()
		r := make(chan string)
		req <- r
		return <-r
	}, []string{"reply"}},
	{"context done", func() string {
		ctx, cancel := context.WithCancel(context.Background())
		select {
		case <-ctx.Done():
			return "early"
		default:
		}
		cancel()
		<-ctx.Done()
		return ctx.Err().Error()
	}, []string{"context canceled"}},
	{"timeout or value", func() string {
		c := make(chan int)
		go func() { time.Sleep(time.Second); c <- 1 }()
		select {
		case v := <-c:
			return fmt.Sprint(v)
		case <-time.After(time.Millisecond):
			<-c
			return "timeout"
		}
	}, []string{"timeout"}},
	{"ticker drops ticks", func() string {
		t := time.NewTicker(time.Second)
		defer t.Stop()
		time.Sleep(3500 * time.Millisecond)
		n := 0
		for {
			select {
			case <-t.C:
				n++
				continue
			default:
			}
			return fmt.Sprint(n)
		}
	}, []string{"1"}},
	{"stopped timers leave nothing", func() string {
		t, u := time.NewTicker(time.Second), time.NewTimer(time.Second)
		time.Sleep(1500 * time.Millisecond)
		t.Stop()
		was := u.Reset(time.Hour)
		select {
		case <-t.C:
			return "tick"
		case <-u.C:
			return "timer"
		default:
		}
		t.Reset(2 * time.Second)
		start := time.Now()
		<-t.C
		t.Stop()
		return fmt.Sprint(was, time.Since(start) >= 2*time.Second, u.Stop(), u.Stop())
	}, []string{"true true true false"}},
	{"after func", func() string {
		c := make(chan string, 2)
		time.AfterFunc(2*time.Millisecond, func() { c <- "b" })
		time.AfterFunc(time.Millisecond, func() { c <- "a" })
		x := time.AfterFunc(time.Hour, func() { c <- "never" })
		s := <-c + <-c
		return fmt.Sprint(s, x.Stop())
	}, []string{"abtrue"}},
	{"once and atomics", func() string {
		var o sync.Once
		var n int32
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); o.Do(func() { atomic.AddInt32(&n, 1) }) }()
		}
		wg.Wait()
		return fmt.Sprint(atomic.LoadInt32(&n))
	}, []string{"1"}},
	{"lost update", func() string {
		var n int32
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); v := atomic.LoadInt32(&n); atomic.StoreInt32(&n, v+1) }()
		}
		wg.Wait()
		return fmt.Sprint(n)
	}, []string{"1", "2"}},
	{"condition variable", func() string {
		var mu sync.Mutex
		c := sync.NewCond(&mu)
		ready := false
		go func() { mu.Lock(); ready = true; mu.Unlock(); c.Broadcast() }()
		mu.Lock()
		for !ready {
			c.Wait()
		}
		mu.Unlock()
		return "ready"
	}, []string{"ready"}},
	{"map of every order", func() string {
		m := map[string]int{"a": 1, "b": 2}
		s := ""
		for k := range m {
			s += k
		}
		ks := strings.Split(s, "")
		sort.Strings(ks)
		return strings.Join(ks, "")
	}, []string{"ab"}},
	{"panic recovered in a goroutine", func() string {
		c := make(chan string)
		go func() {
			defer func() { c <- fmt.Sprint(recover()) }()
			var m map[string]int
			m["x"] = 1
		}()
		return <-c
	}, []string{"assignment to entry in nil map"}},
	{"read lock excludes writers", func() string {
		var mu sync.RWMutex
		a, b := 0, 0
		done := make(chan bool)
		go func() { mu.Lock(); a = 1; b = 1; mu.Unlock(); close(done) }()
		mu.RLock()
		s := fmt.Sprint(a, b)
		mu.RUnlock()
		<-done
		return s
	}, []string{"0 0", "1 1"}},
}
