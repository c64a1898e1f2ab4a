//go:build go1.22

// Package time replaces the clock-dependent parts of the standard package.
package time

import (
	rt "time"

	"github.com/bobg/fab/zsim"
)

const (
	Nanosecond  = rt.Nanosecond
	Microsecond = rt.Microsecond
	Millisecond = rt.Millisecond
	Second      = rt.Second
	Minute      = rt.Minute
	Hour        = rt.Hour

	Layout      = rt.Layout
	ANSIC       = rt.ANSIC
	UnixDate    = rt.UnixDate
	RubyDate    = rt.RubyDate
	RFC822      = rt.RFC822
	RFC822Z     = rt.RFC822Z
	RFC850      = rt.RFC850
	RFC1123     = rt.RFC1123
	RFC1123Z    = rt.RFC1123Z
	RFC3339     = rt.RFC3339
	RFC3339Nano = rt.RFC3339Nano
	Kitchen     = rt.Kitchen
	Stamp       = rt.Stamp
	StampMilli  = rt.StampMilli
	StampMicro  = rt.StampMicro
	StampNano   = rt.StampNano
	DateTime    = rt.DateTime
	DateOnly    = rt.DateOnly
	TimeOnly    = rt.TimeOnly

	January   = rt.January
	February  = rt.February
	March     = rt.March
	April     = rt.April
	May       = rt.May
	June      = rt.June
	July      = rt.July
	August    = rt.August
	September = rt.September
	October   = rt.October
	November  = rt.November
	December  = rt.December
)

type (
	Time       = rt.Time
	Duration   = rt.Duration
	Month      = rt.Month
	Weekday    = rt.Weekday
	Location   = rt.Location
	ParseError = rt.ParseError
)

var (
	UTC   = rt.UTC
	Local = rt.UTC
)

func Now() Time {
	if !zsim.Active() {
		return rt.Now()
	}
	return rt.Unix(0, zsim.WallNow())
}
func Since(t Time) Duration   { return Now().Sub(t) }
func Until(t Time) Duration   { return t.Sub(Now()) }
func Unix(s, ns int64) Time   { return rt.Unix(s, ns) }
func UnixMilli(ms int64) Time { return rt.UnixMilli(ms) }
func UnixMicro(us int64) Time { return rt.UnixMicro(us) }
func Date(y int, m Month, d, h, mi, s, n int, l *Location) Time {
	return rt.Date(y, m, d, h, mi, s, n, l)
}
func Parse(l, v string) (Time, error)                          { return rt.Parse(l, v) }
func ParseInLocation(l, v string, loc *Location) (Time, error) { return rt.ParseInLocation(l, v, loc) }
func ParseDuration(s string) (Duration, error)                 { return rt.ParseDuration(s) }
func FixedZone(n string, o int) *Location                      { return rt.FixedZone(n, o) }
func LoadLocation(n string) (*Location, error)                 { return rt.LoadLocation(n) }

func Sleep(d Duration) { zsim.Sleep(int64(d)) }

func After(d Duration) <-chan Time { return NewTimer(d).C }

type Timer struct {
	C    <-chan Time
	c    chan Time
	f    func()
	gen  int
	live bool
}

func (t *Timer) start(d Duration) {
	t.gen++
	g := t.gen
	t.live = true
	zsim.GoNamed("timer", func() {
		zsim.Sleep(int64(d))
		zsim.CoreEnter()
		fire := t.live && t.gen == g
		if fire {
			t.live = false
		}
		zsim.CoreExit()
		if !fire {
			return
		}
		if t.f != nil {
			t.f()
			return
		}
		select {
		case t.c <- Now():
		default:
		}
	}).Daemon()
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func (t *Timer) Stop() bool {
	zsim.CoreEnter()
	defer zsim.CoreExit()
	w := t.live
	t.live = false
	return w
}

func (t *Timer) Reset(d Duration) bool {
	w := t.Stop()
	t.start(d)
	return w
}

type Ticker struct {
	C    <-chan Time
	c    chan Time
	gen  int
	live bool
}

func (t *Ticker) start(d Duration) {
	t.gen++
	g := t.gen
	t.live = true
	zsim.GoNamed("ticker", func() {
		for {
			zsim.Sleep(int64(d))
			zsim.CoreEnter()
			on := t.live && t.gen == g
			zsim.CoreExit()
			if !on || zsim.Exiting() {
				return
			}
			select {
			case t.c <- Now():
			default:
			}
		}
	}).Daemon()
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c}
	t.start(d)
	return t
}

func Tick(d Duration) <-chan Time { return NewTicker(d).C }
func (t *Ticker) Stop() {
	zsim.CoreEnter()
	t.live = false
	zsim.CoreExit()
}
func (t *Ticker) Reset(d Duration) { t.Stop(); t.start(d) }
