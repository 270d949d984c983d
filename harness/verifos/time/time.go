// Package time stands in for the standard package: waiting ends when the harness says so.
package time

import (
	"sync"
	rt "time"
)

type (
	Duration = rt.Duration
	Time     = rt.Time
	Month    = rt.Month
	Weekday  = rt.Weekday
	Location = rt.Location
)

const (
	Nanosecond  = rt.Nanosecond
	Microsecond = rt.Microsecond
	Millisecond = rt.Millisecond
	Second      = rt.Second
	Minute      = rt.Minute
	Hour        = rt.Hour
	RFC3339     = rt.RFC3339
	RFC3339Nano = rt.RFC3339Nano
	RFC1123     = rt.RFC1123
	Kitchen     = rt.Kitchen
)

var UTC, Local = rt.UTC, rt.Local

// VerifNow, if set, is the clock. Set it before anything runs.
var VerifNow func() Time

func Now() Time {
	if VerifNow != nil {
		return VerifNow()
	}
	return rt.Now()
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

func Unix(s, n int64) Time                            { return rt.Unix(s, n) }
func Parse(l, v string) (Time, error)                 { return rt.Parse(l, v) }
func ParseDuration(s string) (Duration, error)        { return rt.ParseDuration(s) }
func Date(y int, m Month, d, h, mi, s, n int, l *Location) Time {
	return rt.Date(y, m, d, h, mi, s, n, l)
}

type waiter struct {
	ch     chan Time
	f      func()
	repeat bool
	done   bool
}

var (
	mu      sync.Mutex
	waiters []*waiter
)

func add(w *waiter) *waiter {
	mu.Lock()
	waiters = append(waiters, w)
	mu.Unlock()
	return w
}

// VerifWaiting is the number of running timers.
func VerifWaiting() int {
	mu.Lock()
	defer mu.Unlock()
	return len(waiters)
}

// VerifFire lets all running timers expire and tells how many there were.
func VerifFire() int {
	mu.Lock()
	l := waiters
	waiters = nil
	n := 0
	var fs []func()
	for _, w := range l {
		if w.done {
			continue
		}
		n++
		if w.f != nil {
			fs = append(fs, w.f)
		} else {
			select {
			case w.ch <- rt.Now():
			default:
			}
		}
		if w.repeat {
			waiters = append(waiters, w)
		} else {
			w.done = true
		}
	}
	mu.Unlock()
	for _, f := range fs {
		go f()
	}
	return n
}

func newWaiter() *waiter { return &waiter{ch: make(chan Time, 1)} }

func After(d Duration) <-chan Time { return add(newWaiter()).ch }

func Sleep(d Duration) {
	if d > 0 {
		<-After(d)
	}
}

func Tick(d Duration) <-chan Time {
	w := newWaiter()
	w.repeat = true
	return add(w).ch
}

// Timer is a timer.
type Timer struct {
	C <-chan Time
	w *waiter
}

func NewTimer(d Duration) *Timer {
	w := add(newWaiter())
	return &Timer{w.ch, w}
}

func AfterFunc(d Duration, f func()) *Timer {
	w := add(&waiter{f: f})
	return &Timer{nil, w}
}

func (t *Timer) Stop() bool {
	mu.Lock()
	defer mu.Unlock()
	was := !t.w.done
	t.w.done = true
	return was
}

func (t *Timer) Reset(d Duration) bool {
	mu.Lock()
	defer mu.Unlock()
	was := !t.w.done
	if !was {
		t.w.done = false
		waiters = append(waiters, t.w)
	}
	return was
}

// Ticker is a ticker.
type Ticker struct {
	C <-chan Time
	w *waiter
}

func NewTicker(d Duration) *Ticker {
	w := newWaiter()
	w.repeat = true
	add(w)
	return &Ticker{w.ch, w}
}

func (t *Ticker) Stop() {
	mu.Lock()
	t.w.done = true
	mu.Unlock()
}

func (t *Ticker) Reset(d Duration) {}
