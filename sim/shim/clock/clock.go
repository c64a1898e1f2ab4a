//go:build go1.22

// Package clock is benbjohnson/clock whose real clock is the simulated one.
package clock

import (
	rc "context"
	rt "time"

	real "github.com/benbjohnson/clock"

	"github.com/bobg/fab/zsim/shim/context"
	"github.com/bobg/fab/zsim/shim/time"
)

type (
	Clock  = real.Clock
	Mock   = real.Mock
	Timer  = real.Timer
	Ticker = real.Ticker
)

func New() Clock     { return simClock{} }
func NewMock() *Mock { return real.NewMock() }

type simClock struct{}

func (simClock) After(d rt.Duration) <-chan rt.Time { return time.After(d) }
func (simClock) AfterFunc(d rt.Duration, f func()) *Timer {
	t := time.AfterFunc(d, f)
	return &Timer{C: t.C}
}
func (simClock) Now() rt.Time                      { return time.Now() }
func (simClock) Since(t rt.Time) rt.Duration       { return time.Since(t) }
func (simClock) Until(t rt.Time) rt.Duration       { return time.Until(t) }
func (simClock) Sleep(d rt.Duration)               { time.Sleep(d) }
func (simClock) Tick(d rt.Duration) <-chan rt.Time { return time.Tick(d) }
func (simClock) Ticker(d rt.Duration) *Ticker      { return &Ticker{C: time.NewTicker(d).C} }
func (simClock) Timer(d rt.Duration) *Timer        { return &Timer{C: time.NewTimer(d).C} }
func (simClock) WithDeadline(p rc.Context, d rt.Time) (rc.Context, rc.CancelFunc) {
	return context.WithDeadline(p, d)
}
func (simClock) WithTimeout(p rc.Context, d rt.Duration) (rc.Context, rc.CancelFunc) {
	return context.WithTimeout(p, d)
}
