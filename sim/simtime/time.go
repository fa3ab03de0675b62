// Package simtime is simulated time: it passes only when every task waits.
package simtime

import (
	"time"

	"recengine/internal/zzsim/rt"
)

var epoch = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

// Sleep is time.Sleep.
func Sleep(d time.Duration) { rt.Yield(11); rt.Sleep(d) }

// Now is time.Now.
func Now() time.Time {
	if rt.S == nil {
		return epoch
	}
	return epoch.Add(rt.S.Now())
}

// Since is time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Timer is time.Timer.
type Timer struct {
	C <-chan time.Time
	c chan time.Time
	t *rt.Timer
	f func()
	p *rt.Proc
}

func (t *Timer) arm(d time.Duration) {
	s := rt.S
	if rt.Killed() {
		return
	}
	p := t.p
	t.t = s.AfterTimer(d, func() {
		if p != nil && p.Dead {
			return
		}
		if t.f != nil {
			s.GoProc(p, "timer", t.f)
			return
		}
		s.TrySend(t.c, Now())
	})
}

func curProc() *rt.Proc {
	if p := rt.CurProc(); p != nil {
		return p
	}
	return rt.S.Root
}

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c, p: curProc()}
	t.arm(d)
	return t
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f, p: curProc()}
	t.arm(d)
	return t
}

// After is time.After.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Stop is (*time.Timer).Stop.
func (t *Timer) Stop() bool { rt.Yield(12); return t.t != nil && t.t.Stop() }

// Reset is (*time.Timer).Reset.
func (t *Timer) Reset(d time.Duration) bool {
	rt.Yield(12)
	was := t.t != nil && t.t.Stop()
	t.arm(d)
	return was
}

// Ticker is time.Ticker.
type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	t    *rt.Timer
	p    *rt.Proc
	d    time.Duration
	dead bool
}

// NewTicker is time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, p: curProc(), d: d}
	t.arm()
	return t
}
func (t *Ticker) arm() {
	s := rt.S
	t.t = s.AfterTimer(t.d, func() {
		if t.dead || t.p.Dead {
			return
		}
		s.TrySend(t.c, Now())
		t.arm()
	})
}

// Stop is (*time.Ticker).Stop.
func (t *Ticker) Stop() { t.dead = true; t.t.Stop() }

// Reset is (*time.Ticker).Reset.
func (t *Ticker) Reset(d time.Duration) { t.t.Stop(); t.d = d; t.dead = false; t.arm() }

// Tick is time.Tick.
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
