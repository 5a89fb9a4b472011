// Package stime stands in for package time: the clock is the simulator's.
package stime

import (
	"time"

	"simrt/sim"
)

type (
	Time       = time.Time
	Duration   = time.Duration
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	RFC822      = time.RFC822
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December
)

var (
	UTC   = time.UTC
	Local = time.UTC
)

func Now() Time                                { return sim.Wall() }
func Since(t Time) Duration                    { return sim.Wall().Sub(t) }
func Until(t Time) Duration                    { return t.Sub(sim.Wall()) }
func Unix(s, n int64) Time                     { return time.Unix(s, n) }
func UnixMilli(m int64) Time                   { return time.UnixMilli(m) }
func UnixMicro(m int64) Time                   { return time.UnixMicro(m) }
func Parse(l, v string) (Time, error)          { return time.Parse(l, v) }
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }
func Date(y int, m Month, d, h, mi, s, n int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, n, l)
}
func FixedZone(n string, o int) *Location { return time.FixedZone(n, o) }
func Sleep(d Duration)                    { sim.Sleep(int64(d)) }

// Timer fires on C, or runs a function in a goroutine of its own.
type Timer struct {
	C    <-chan Time
	c    chan Time
	f    func()
	node int
	t    *sim.Timer
}

func (t *Timer) arm(d Duration) {
	t.t = sim.After(int64(d), func() {
		if t.f != nil {
			sim.GoNode("afterfunc", t.node, t.f)
			return
		}
		sim.TrySend(t.c, sim.Wall())
	})
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c, node: sim.CurNode()}
	t.arm(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f, node: sim.CurNode()}
	t.arm(d)
	return t
}

func (t *Timer) Stop() bool {
	sim.Yield("timerstop")
	return t.t.Stop()
}

func (t *Timer) Reset(d Duration) bool {
	sim.Yield("timerreset")
	r := t.t.Stop()
	t.arm(d)
	return r
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

// Ticker drops ticks for slow receivers, as the real one does.
type Ticker struct {
	C <-chan Time
	c chan Time
	d Duration
	t *sim.Timer
}

func (t *Ticker) arm() {
	t.t = sim.After(int64(t.d), func() {
		t.arm()
		sim.TrySend(t.c, sim.Wall())
	})
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}

func (t *Ticker) Stop() { t.t.Stop() }
func (t *Ticker) Reset(d Duration) {
	t.t.Stop()
	t.d = d
	t.arm()
}

func Tick(d Duration) <-chan Time { return NewTicker(d).C }
