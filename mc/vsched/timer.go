package vsched

// Timer is a virtual timer or ticker.
type Timer struct {
	When   int64
	Period int64
	Fire   func(now int64) bool // false: nobody takes further ticks before a goroutine runs
	seq    int
	on     bool
}

// StartTimer arms t.
func StartTimer(t *Timer) {
	if x == nil {
		return
	}
	Touch(&x.clock, true)
	for _, o := range x.timers {
		if o == t {
			t.on = true
			return
		}
	}
	x.tseq++
	t.seq = x.tseq
	t.on = true
	x.timers = append(x.timers, t)
}

// StopTimer disarms t and reports whether it was armed.
func StopTimer(t *Timer) bool {
	was := t.on
	t.on = false
	if x != nil {
		Touch(&x.clock, true)
		for i, o := range x.timers {
			if o == t {
				x.timers = append(x.timers[:i:i], x.timers[i+1:]...)
				break
			}
		}
	}
	return was
}

// NumTimers is the number of armed timers and tickers.
func NumTimers() int { Touch(&x.clock, false); return len(x.timers) }

func (e *Exec) next() *Timer {
	var b *Timer
	for _, t := range e.timers {
		if b == nil || t.When < b.When || t.When == b.When && t.seq < b.seq {
			b = t
		}
	}
	return b
}

// advance moves the virtual clock to target firing due timers in order.
func (e *Exec) advance(target int64) {
	if !e.aborted {
		e.touch(&e.clock, true)
	}
	for {
		t := e.next()
		if t == nil || t.When > target {
			break
		}
		if t.When > e.now {
			e.now = t.When
		}
		if t.Period <= 0 {
			StopTimer(t)
		} else {
			t.When += t.Period
		}
		if !t.Fire(e.now) && t.Period > 0 && t.When <= target {
			// the ticks up to target are dropped as well
			t.When += ((target-t.When)/t.Period + 1) * t.Period
		}
	}
	if target > e.now {
		e.now = target
	}
}

// Advance moves the virtual clock by d nanoseconds.
func Advance(d int64) {
	x.point("advance", nil)
	x.advance(x.now + d)
}

// AdvanceQuiet moves the clock without a scheduling point.
func AdvanceQuiet(d int64) { x.advance(x.now + d) }

// Sleep blocks until the virtual clock has moved by d.
func Sleep(d int64) {
	if x == nil {
		return
	}
	g := x.cur
	dl := Now() + d
	if d <= 0 {
		x.point("sleep", nil)
		return
	}
	g.sleep = dl
	e := x
	e.point("sleep", func() bool { return e.now >= dl })
	g.sleep = 0
	e.touch(&e.clock, false)
}

func (e *Exec) advanceToSleeper() bool {
	var m int64
	for _, g := range e.gs {
		if !g.done && g.sleep != 0 && (m == 0 || g.sleep < m) {
			m = g.sleep
		}
	}
	// one-shot timers (time.After, time.NewTimer) also let time pass
	for _, t := range e.timers {
		if t.Period == 0 && (m == 0 || t.When < m) {
			m = t.When
		}
	}
	if m == 0 || m < e.now {
		return false
	}
	e.inTime = true
	e.learnAll()
	e.advance(m)
	e.inTime = false
	return true
}
