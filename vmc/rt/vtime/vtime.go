// Package vtime stands in for package time; the clock and the timers are virtual.
package vtime

import (
	"time"

	rt "github.com/livekit/media-sdk/vmcrt"
)

const (
	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
	January     = time.January
	February    = time.February
	March       = time.March
	April       = time.April
	May         = time.May
	June        = time.June
	July        = time.July
	August      = time.August
	September   = time.September
	October     = time.October
	November    = time.November
	December    = time.December
	Sunday      = time.Sunday
	Monday      = time.Monday
	Tuesday     = time.Tuesday
	Wednesday   = time.Wednesday
	Thursday    = time.Thursday
	Friday      = time.Friday
	Saturday    = time.Saturday
)

type (
	Duration   = time.Duration
	Location   = time.Location
	Month      = time.Month
	ParseError = time.ParseError
	Time       = time.Time
	Weekday    = time.Weekday
)

var (
	UTC   = time.UTC
	Local = time.Local
)

func ParseDuration(s string) (Duration, error)    { return time.ParseDuration(s) }
func FixedZone(name string, offset int) *Location { return time.FixedZone(name, offset) }
func LoadLocation(name string) (*Location, error) { return time.LoadLocation(name) }
func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, ns, l)
}
func Parse(layout, value string) (Time, error) { return time.Parse(layout, value) }
func ParseInLocation(layout, value string, l *Location) (Time, error) {
	return time.ParseInLocation(layout, value, l)
}
func Unix(sec, nsec int64) Time    { return time.Unix(sec, nsec) }
func UnixMicro(u int64) Time       { return time.UnixMicro(u) }
func UnixMilli(m int64) Time       { return time.UnixMilli(m) }
func Now() Time                    { return rt.Now() }
func Since(t Time) Duration        { return rt.Now().Sub(t) }
func Until(t Time) Duration        { return t.Sub(rt.Now()) }
func Sleep(d Duration)             { rt.Sleep(d) }
func After(d Duration) <-chan Time { return NewTimer(d).C }
func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

type Timer struct {
	C    <-chan Time
	st   *rt.TimerState
	real *time.Timer
}

func NewTimer(d Duration) *Timer {
	if !rt.Active() {
		t := time.NewTimer(d)
		return &Timer{C: t.C, real: t}
	}
	st, c := rt.NewTimerState(d, 0, nil)
	return &Timer{C: c, st: st}
}

func AfterFunc(d Duration, f func()) *Timer {
	if !rt.Active() {
		return &Timer{real: time.AfterFunc(d, f)}
	}
	st, _ := rt.NewTimerState(d, 0, f)
	return &Timer{st: st}
}

func (t *Timer) Stop() bool {
	if t.st != nil {
		return t.st.StopTimer()
	}
	if t.real == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	return t.real.Stop()
}

func (t *Timer) Reset(d Duration) bool {
	if t.st != nil {
		return t.st.ResetTimer(d, 0)
	}
	if t.real == nil {
		panic("time: Reset called on uninitialized Timer")
	}
	return t.real.Reset(d)
}

type Ticker struct {
	C    <-chan Time
	st   *rt.TimerState
	real *time.Ticker
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	if !rt.Active() {
		t := time.NewTicker(d)
		return &Ticker{C: t.C, real: t}
	}
	st, c := rt.NewTimerState(d, d, nil)
	return &Ticker{C: c, st: st}
}

func (t *Ticker) Stop() {
	if t.st != nil {
		t.st.StopTimer()
		return
	}
	if t.real != nil {
		t.real.Stop()
	}
}

func (t *Ticker) Reset(d Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	if t.st != nil {
		t.st.ResetTimer(d, d)
		return
	}
	t.real.Reset(d)
}
