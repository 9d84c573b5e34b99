// Package stime stands in for package time: the same types, a virtual clock.
package stime

import (
	"time"

	"github.com/childe/healer/zz_sim/sim"
)

// Skew is added to the wall clock readings (a fault the scenarios inject).
var Skew time.Duration

func Now() time.Time { return time.Unix(0, sim.EpochNS+sim.Now()).Add(Skew).UTC() }

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) { sim.Sleep(int64(d)) }

type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	ev *sim.Event
	f  func()
}

func (t *Timer) arm(d time.Duration) {
	if t.f != nil {
		f := t.f
		t.ev = sim.After(int64(d), func() { sim.GoEvent("AfterFunc", f) })
		return
	}
	t.ev = sim.After(int64(d), func() { sim.TrySend[time.Time](t.c, Now()) })
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	owner := sim.Owner()
	t := &Timer{f: func() {
		if !sim.Killed(owner) {
			sim.SetOwner(owner)
			f()
		}
	}}
	t.arm(d)
	return t
}

func (t *Timer) drain() {
	if t.c != nil {
		sim.TryRecv[time.Time](t.c)
	}
}

func (t *Timer) Stop() bool {
	ok := t.ev.Cancel()
	t.drain() // go 1.23 semantics: no stale value after Stop
	return ok
}

func (t *Timer) Reset(d time.Duration) bool {
	ok := t.ev.Cancel()
	t.drain()
	t.arm(d)
	return ok
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	d    time.Duration
	ev   *sim.Event
	stop bool
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}

func (t *Ticker) arm() {
	t.ev = sim.After(int64(t.d), func() {
		if t.stop {
			return
		}
		sim.TrySend[time.Time](t.c, Now())
		t.arm()
	})
}

func (t *Ticker) Stop() {
	t.stop = true
	t.ev.Cancel()
	sim.TryRecv[time.Time](t.c)
}

func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.ev.Cancel()
	sim.TryRecv[time.Time](t.c)
	t.stop = false
	t.d = d
	t.arm()
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// AfterEvent runs f as a scheduler event (f must not block).
func AfterEvent(d time.Duration, f func()) *Timer {
	t := &Timer{}
	t.ev = sim.After(int64(d), f)
	return t
}
