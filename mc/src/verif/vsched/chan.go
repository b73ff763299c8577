package vsched

import (
	"iter"
	"runtime"
)

type waiter struct {
	t   *Thread
	idx int
	cs  selCase
}

// Chan models a Go channel.
type Chan[T any] struct {
	o      Obj
	cap    int
	buf    []T
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

// MakeChan makes a channel.
func MakeChan[T any](n ...int) *Chan[T] {
	c := &Chan[T]{}
	if len(n) > 0 {
		if n[0] < 0 {
			panic("makechan: size out of range")
		}
		c.cap = n[0]
	}
	return c
}

// Ch converts a value of a (named) channel type.
func Ch[T any](c *Chan[T]) *Chan[T] { return c }

// SetName names the channel in traces.
func (c *Chan[T]) SetName(s string) *Chan[T] { c.o.Name = s; return c }

type selCase interface {
	obj() *Obj
	ready() bool
	exec(t *Thread, h uint64)
	enqueue(w *waiter)
	dequeue(w *waiter)
}

// RecvC is a receive case.
type RecvC[T any] struct {
	c   *Chan[T]
	Val T
	Ok  bool
}

// SendC is a send case.
type SendC[T any] struct {
	c *Chan[T]
	v T
}

// RecvCase makes a receive case.
func (c *Chan[T]) RecvCase() *RecvC[T] { return &RecvC[T]{c: c} }

// SendCase makes a send case.
func (c *Chan[T]) SendCase(v T) *SendC[T] { return &SendC[T]{c: c, v: v} }

func (s *RecvC[T]) obj() *Obj {
	if s.c == nil {
		return nil
	}
	return &s.c.o
}

func (s *SendC[T]) obj() *Obj {
	if s.c == nil {
		return nil
	}
	return &s.c.o
}

func (s *RecvC[T]) ready() bool {
	return len(s.c.buf) > 0 || s.c.closed || len(s.c.sendq) > 0
}

func (s *SendC[T]) ready() bool {
	return s.c.closed || len(s.c.recvq) > 0 || len(s.c.buf) < s.c.cap
}

func removeW(q []*waiter, w *waiter) []*waiter {
	for i, x := range q {
		if x == w {
			return append(append([]*waiter{}, q[:i]...), q[i+1:]...)
		}
	}
	return q
}

func (s *RecvC[T]) enqueue(w *waiter) { s.c.recvq = append(s.c.recvq, w) }
func (s *SendC[T]) enqueue(w *waiter) { s.c.sendq = append(s.c.sendq, w) }
func (s *RecvC[T]) dequeue(w *waiter) { s.c.recvq = removeW(s.c.recvq, w) }
func (s *SendC[T]) dequeue(w *waiter) { s.c.sendq = removeW(s.c.sendq, w) }

// complete finishes a parked select.
func complete(w *waiter, h uint64) {
	for _, x := range w.t.waiters {
		x.cs.dequeue(x)
	}
	w.t.waiters = nil
	w.t.selDone = w.idx
	w.t.unpark(h)
	if R.cur != nil && R.cur != w.t {
		w.t.vc.join(R.cur.vc)
		R.cur.vc.join(w.t.vc)
	}
}

func (s *RecvC[T]) exec(t *Thread, h uint64) {
	c := s.c
	if len(c.buf) > 0 {
		s.Val = c.buf[0]
		s.Ok = true
		c.buf = append([]T{}, c.buf[1:]...)
		if len(c.sendq) > 0 { // a parked sender takes the free place
			w := c.sendq[0]
			c.buf = append(c.buf, w.cs.(*SendC[T]).v)
			complete(w, h)
		}
		return
	}
	if len(c.sendq) > 0 {
		w := c.sendq[0]
		s.Val = w.cs.(*SendC[T]).v
		s.Ok = true
		complete(w, h)
		return
	}
	// closed
	var z T
	s.Val = z
	s.Ok = false
}

func (s *SendC[T]) exec(t *Thread, h uint64) {
	c := s.c
	if c.closed {
		panic("send on closed channel")
	}
	if len(c.recvq) > 0 {
		w := c.recvq[0]
		rc := w.cs.(*RecvC[T])
		rc.Val = s.v
		rc.Ok = true
		complete(w, h)
		return
	}
	c.buf = append(c.buf, s.v)
}

// Select performs a select statement; -1 means the default case.
func Select(hasDefault bool, cases ...selCase) int {
	r := R
	if r == nil {
		for i, cs := range cases {
			if cs.obj() != nil && cs.ready() {
				cs.exec(nil, 0)
				return i
			}
		}
		if hasDefault {
			return -1
		}
		panic("vsched: channel operation blocks outside of a scheduled execution")
	}
	if r.dead {
		runtime.Goexit()
	}
	op := "select"
	var o *Obj
	if len(cases) == 1 {
		o = cases[0].obj()
		op = "chan"
		if hasDefault {
			op = "chan-nb"
		}
	}
	t := Point(op, o, nil)
	var ready [8]int
	rd := ready[:0]
	live := 0
	h := uint64(0)
	for i, cs := range cases {
		co := cs.obj()
		if co == nil {
			continue
		}
		live++
		h = Event(op, co, true)
		Acq(co)
		if cs.ready() {
			rd = append(rd, i)
		}
	}
	if live == 0 {
		h = Event(op, nil, true)
	}
	idx := -1
	if len(rd) > 0 {
		idx = rd[0]
		if len(rd) > 1 {
			idx = rd[Choose(len(rd))]
			h = t.hash
		}
		cases[idx].exec(t, h)
	} else if !hasDefault {
		if live == 0 {
			t.pend = "blocking forever"
			t.park()
		}
		for i, cs := range cases {
			if cs.obj() == nil {
				continue
			}
			w := &waiter{t, i, cs}
			cs.enqueue(w)
			t.waiters = append(t.waiters, w)
		}
		for _, cs := range cases {
			if co := cs.obj(); co != nil {
				co.vc.join(t.vc)
			}
		}
		t.vc.set(t.ID, t.vc.get(t.ID)+1)
		t.selPanic = false
		t.pend = op + " (parked)"
		t.park()
		idx = t.selDone
		if t.selPanic {
			panic("send on closed channel")
		}
		Acq(cases[idx].obj())
		return idx
	}
	for _, cs := range cases {
		if co := cs.obj(); co != nil {
			co.vc.join(t.vc)
		}
	}
	t.vc.set(t.ID, t.vc.get(t.ID)+1)
	return idx
}

// Recv receives.
func (c *Chan[T]) Recv() T {
	s := &RecvC[T]{c: c}
	Select(false, s)
	return s.Val
}

// Recv2 receives with the ok flag.
func (c *Chan[T]) Recv2() (T, bool) {
	s := &RecvC[T]{c: c}
	Select(false, s)
	return s.Val, s.Ok
}

// Send sends.
func (c *Chan[T]) Send(v T) {
	s := &SendC[T]{c: c, v: v}
	Select(false, s)
}

// Close closes.
func (c *Chan[T]) Close() {
	if c == nil {
		panic("close of nil channel")
	}
	if R == nil {
		if c.closed {
			panic("close of closed channel")
		}
		c.closed = true
		return
	}
	if R.dead {
		return
	}
	Point("close", &c.o, nil)
	c.closeNow()
}

func (c *Chan[T]) closeNow() {
	h := Event("close", &c.o, true)
	Acq(&c.o)
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	Rel(&c.o)
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		rc := w.cs.(*RecvC[T])
		var z T
		rc.Val, rc.Ok = z, false
		complete(w, h)
	}
	for len(c.sendq) > 0 {
		w := c.sendq[0]
		w.t.selPanic = true
		complete(w, h)
	}
}

// CloseNow closes without a scheduling point (for shims).
func (c *Chan[T]) CloseNow() {
	if R == nil || R.dead {
		c.closed = true
		return
	}
	c.closeNow()
}

// TrySendNow delivers without a scheduling point if possible (for timers).
func (c *Chan[T]) TrySendNow(v T, h uint64) {
	if len(c.recvq) > 0 {
		w := c.recvq[0]
		rc := w.cs.(*RecvC[T])
		rc.Val, rc.Ok = v, true
		complete(w, h)
		return
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
	}
}

// Drain empties the buffer (for timers).
func (c *Chan[T]) Drain() { c.buf = nil }

// Len is len(c).
func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	if R != nil && !R.dead {
		Point("len", &c.o, nil)
		Event("len", &c.o, true)
	}
	return len(c.buf)
}

// Cap is cap(c).
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.cap
}

// All ranges over the channel.
func (c *Chan[T]) All() iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := c.Recv2()
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Pending tells whether a value is buffered.
func (c *Chan[T]) Pending() bool { return len(c.buf) > 0 }

// MakeChanLike makes a channel of a named channel type.
func MakeChanLike[C ~*Chan[T], T any](_ C, n ...int) C { return C(MakeChan[T](n...)) }
