// Package time shadows the standard time package with a virtual clock.
package time

import (
	"time"

	"go.opencensus.io/internal/vsched"
)

type (
	Duration   = time.Duration
	Time       = time.Time
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December
	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	UTC   = time.UTC
	Local = time.Local
)

func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time { return time.Date(y, m, d, h, mi, s, ns, l) }
func Unix(s, ns int64) Time                                      { return time.Unix(s, ns) }
func UnixMilli(ms int64) Time                                    { return time.UnixMilli(ms) }
func UnixMicro(us int64) Time                                    { return time.UnixMicro(us) }
func Parse(l, v string) (Time, error)                            { return time.Parse(l, v) }
func ParseInLocation(l, v string, loc *Location) (Time, error)   { return time.ParseInLocation(l, v, loc) }
func ParseDuration(s string) (Duration, error)                   { return time.ParseDuration(s) }
func LoadLocation(n string) (*Location, error)                   { return time.LoadLocation(n) }
func FixedZone(n string, o int) *Location                        { return time.FixedZone(n, o) }

// Now is the virtual time.
func Now() Time             { return time.Unix(0, vsched.Now()).UTC() }
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration)      { vsched.Sleep(int64(d)) }

// Ticker shadows time.Ticker.
type Ticker struct {
	C *vsched.Chan[Time]
	t *vsched.Timer
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{C: vsched.MakeChan[Time](1)}
	t.t = &vsched.Timer{When: vsched.Now() + int64(d), Period: int64(d), Fire: func(now int64) bool { return t.C.TrySend(time.Unix(0, now).UTC()) }}
	vsched.StartTimer(t.t)
	return t
}

func (t *Ticker) Stop() { vsched.StopTimer(t.t); t.C.Drain() }
func (t *Ticker) Reset(d Duration) {
	t.Stop()
	t.t.When, t.t.Period = vsched.Now()+int64(d), int64(d)
	vsched.StartTimer(t.t)
}

func Tick(d Duration) *vsched.Chan[Time] {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// Timer shadows time.Timer.
type Timer struct {
	C *vsched.Chan[Time]
	t *vsched.Timer
}

func NewTimer(d Duration) *Timer {
	t := &Timer{C: vsched.MakeChan[Time](1)}
	t.t = &vsched.Timer{When: vsched.Now() + int64(d), Fire: func(now int64) bool { return t.C.TrySend(time.Unix(0, now).UTC()) }}
	vsched.StartTimer(t.t)
	return t
}
func After(d Duration) *vsched.Chan[Time] { return NewTimer(d).C }
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{}
	t.t = &vsched.Timer{When: vsched.Now() + int64(d), Fire: func(int64) bool { vsched.Spawn("AfterFunc", f); return true }}
	vsched.StartTimer(t.t)
	return t
}
func (t *Timer) Stop() bool {
	was := vsched.StopTimer(t.t)
	return t.C.Drain() || was
}
func (t *Timer) Reset(d Duration) bool {
	was := t.Stop()
	t.t.When = vsched.Now() + int64(d)
	vsched.StartTimer(t.t)
	return was
}
