// Package vtime replaces the clock and timers of time under the scheduler.
package vtime

import (
	"time"

	"verif/vsched"
)

var epoch = time.Date(2030, 1, 1, 0, 0, 0, 123456789, time.UTC)

func at() time.Time { return epoch.Add(time.Duration(vsched.Now())) }

// Nanos is the virtual time that corresponds to t.
func Nanos(t time.Time) int64 { return int64(t.Sub(epoch)) }

// Now is the virtual time.
func Now() time.Time {
	vsched.ClockPoint("now")
	return at()
}

// Since is time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Timer is time.Timer.
type Timer struct {
	C    *vsched.Chan[time.Time]
	core *vsched.TimerCore
	f    func()
}

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	t := &Timer{C: vsched.MakeChan[time.Time](1)}
	t.C.SetName("timer")
	t.core = &vsched.TimerCore{Fire: func(h uint64) { t.C.TrySendNow(at(), h) }}
	vsched.ClockPoint("newtimer")
	if vsched.R == nil && d <= 0 {
		t.C.TrySendNow(at(), 0)
	}
	t.core.Start(int64(d))
	return t
}

// Stop is Timer.Stop.
func (t *Timer) Stop() bool {
	if vsched.Dead() {
		return false
	}
	vsched.ClockPoint("stoptimer")
	was := t.core.Stop()
	if t.f == nil {
		if t.pending() {
			was = true
		}
		t.C.Drain()
	}
	return was
}

func (t *Timer) pending() bool { return t.C != nil && t.C.Pending() }

// Reset is Timer.Reset.
func (t *Timer) Reset(d time.Duration) bool {
	if vsched.Dead() {
		return false
	}
	vsched.ClockPoint("resettimer")
	was := t.core.Stop()
	if t.f == nil {
		if t.pending() {
			was = true
		}
		t.C.Drain()
	}
	t.core.Start(int64(d))
	return was
}

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.core = &vsched.TimerCore{Fire: func(h uint64) { vsched.SpawnTimer(f, h) }}
	vsched.ClockPoint("afterfunc")
	t.core.Start(int64(d))
	return t
}

// After is time.After.
func After(d time.Duration) *vsched.Chan[time.Time] { return NewTimer(d).C }

// Sleep is time.Sleep.
func Sleep(d time.Duration) {
	if vsched.R == nil {
		return
	}
	if d <= 0 {
		vsched.Yield()
		return
	}
	NewTimer(d).C.Recv()
}

// Ticker is time.Ticker.
type Ticker struct {
	C    *vsched.Chan[time.Time]
	core *vsched.TimerCore
	d    time.Duration
}

// NewTicker is time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{C: vsched.MakeChan[time.Time](1), d: d}
	t.core = &vsched.TimerCore{}
	t.core.Fire = func(h uint64) {
		t.C.TrySendNow(at(), h)
		t.core.Start(int64(t.d))
	}
	vsched.ClockPoint("newticker")
	t.core.Start(int64(d))
	return t
}

// Stop is Ticker.Stop.
func (t *Ticker) Stop() {
	if vsched.Dead() {
		return
	}
	vsched.ClockPoint("stopticker")
	t.core.Stop()
	t.C.Drain()
}

// Reset is Ticker.Reset.
func (t *Ticker) Reset(d time.Duration) {
	t.d = d
	vsched.ClockPoint("resetticker")
	t.core.Stop()
	t.C.Drain()
	t.core.Start(int64(d))
}

// Tick is time.Tick.
func Tick(d time.Duration) *vsched.Chan[time.Time] { return NewTicker(d).C }
