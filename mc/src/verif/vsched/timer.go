package vsched

import "sort"

// TimerCore is a virtual timer.
type TimerCore struct {
	When   int64
	seq    int
	Fire   func(h uint64)
	active bool
	Auto   bool // may be fired automatically at quiescence
	O      Obj
}

// Now is the virtual time in nanoseconds.
func Now() int64 {
	if R == nil {
		return 0
	}
	return R.now
}

// ClockPoint is performed by operations that depend on the clock.
func ClockPoint(op string) {
	if R == nil || R.dead {
		return
	}
	if R.Timed {
		Point(op, &R.clock, nil)
	}
	Event(op, &R.clock, false)
}

// Start arms the timer.
func (tc *TimerCore) Start(d int64) {
	r := R
	if d < 0 {
		d = 0
	}
	if r == nil {
		return
	}
	if d > 1<<60 {
		d = 1 << 60
	}
	tc.Stop()
	tc.When = r.now + d
	if d == 0 {
		h := Event("fire", &tc.O, true)
		tc.Fire(h)
		return
	}
	tc.active = true
	r.timerSeq++
	tc.seq = r.timerSeq
	r.timers = append(r.timers, tc)
	sort.SliceStable(r.timers, func(i, j int) bool {
		a, b := r.timers[i], r.timers[j]
		if a.When != b.When {
			return a.When < b.When
		}
		return a.seq < b.seq
	})
}

// Stop disarms the timer.
func (tc *TimerCore) Stop() bool {
	was := tc.active
	tc.active = false
	if R != nil {
		for i, x := range R.timers {
			if x == tc {
				R.timers = append(append([]*TimerCore{}, R.timers[:i]...), R.timers[i+1:]...)
				break
			}
		}
	}
	return was
}

func (r *Run) fireFirst() {
	tc := r.timers[0]
	r.timers = append([]*TimerCore{}, r.timers[1:]...)
	tc.active = false
	if tc.When > r.now {
		r.now = tc.When
	}
	r.timerHit++
	h := mix(mix(r.sum, 0x71), uint64(r.timerHit))
	r.sum += mix(h, 17)
	r.clock.touch(r)
	r.clock.hW = h
	r.clock.reads = 0
	tc.Fire(h)
}

// fireAuto fires the next timer if it is due within the automatic horizon.
func (r *Run) fireAuto(q *Thread) bool {
	if r.Timed || len(r.timers) == 0 {
		return false
	}
	if q != nil {
		if q.quFires > 20 || r.timers[0].When > q.quLimit {
			return false
		}
		q.quFires++
	} else {
		if r.autoFire > 200 || r.timers[0].When > r.now+autoHorizon {
			return false
		}
		r.autoFire++
	}
	r.fireFirst()
	return true
}

// AdvanceNext moves the clock to the next timer due at or before limit and
// fires it; without one the clock moves to limit. It reports whether a timer
// fired. It is a scheduling point.
func AdvanceNext(limit int64) bool {
	fired := false
	Op("clock", &R.clock, nil, func() {
		if len(R.timers) > 0 && R.timers[0].When <= limit {
			R.fireFirst()
			fired = true
			return
		}
		if limit > R.now {
			R.now = limit
		}
	})
	return fired
}

// NextTimer returns the due time of the earliest armed timer (-1: none).
func NextTimer() int64 {
	if len(R.timers) == 0 {
		return -1
	}
	return R.timers[0].When
}

// SpawnTimer starts the thread of an AfterFunc timer.
func SpawnTimer(f func(), h uint64) {
	r := R
	if r == nil || r.dead {
		return
	}
	nt := r.newThread("", f)
	nt.hash = mix(h, 0xfeed)
	nt.vc.set(nt.ID, 1)
	if r.cur != nil {
		nt.vc.join(r.cur.vc)
	}
}
