// Package time replaces time under the controlled scheduler: since any thread may be
// delayed as long as the scheduler likes, a timer may fire at any moment. What is missing
// here makes the instrumented copy unusable, which is reported as a limit.
package time

import (
	"time"

	"vsched"
)

// Types of time.
type (
	Duration   = time.Duration
	Time       = time.Time
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

// Constants of time.
const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
)

// Functions of time.
var (
	Now           = time.Now
	Since         = time.Since
	Until         = time.Until
	Unix          = time.Unix
	Date          = time.Date
	Parse         = time.Parse
	ParseDuration = time.ParseDuration
	UTC           = time.UTC
	Local         = time.Local
)

// Sleep lets others run.
func Sleep(d Duration) {
	if !vsched.Active() {
		time.Sleep(d)
		return
	}
	vsched.Yield()
}

// Timer is time.Timer.
type Timer struct {
	C    <-chan Time
	c    chan Time
	f    func()
	real *time.Timer
	n    int // firings set
	on   bool
}

func (t *Timer) set() {
	t.n++
	t.on = true
	n := t.n
	vsched.Go(func() {
		vsched.Yield()
		if !t.on || t.n != n {
			return
		}
		t.on = false
		if t.f != nil {
			t.f()
			return
		}
		vsched.Select(true, vsched.SSend[Time](t.c)(Time{}))
	})
}

// NewTimer is time.NewTimer.
func NewTimer(d Duration) *Timer {
	if !vsched.Active() {
		r := time.NewTimer(d)
		return &Timer{C: r.C, real: r}
	}
	t := &Timer{c: make(chan Time, 1)}
	t.C = t.c
	t.set()
	return t
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d Duration, f func()) *Timer {
	if !vsched.Active() {
		return &Timer{real: time.AfterFunc(d, f)}
	}
	t := &Timer{f: f}
	t.set()
	return t
}

// After is time.After.
func After(d Duration) <-chan Time { return NewTimer(d).C }

// Stop is the method of time.Timer.
func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	vsched.Point()
	was := t.on
	t.on = false
	return was
}

// Reset is the method of time.Timer.
func (t *Timer) Reset(d Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	vsched.Point()
	was := t.on
	t.set()
	return was
}
