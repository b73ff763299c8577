// Package vctx replaces context under the scheduler.
package vctx

import (
	"context"
	"errors"
	"time"

	"verif/vsched"
	"verif/vsched/vtime"
)

// Errors of package context.
var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

// Context is context.Context.
type Context interface {
	Deadline() (deadline time.Time, ok bool)
	Done() *vsched.Chan[struct{}]
	Err() error
	Value(key any) any
}

// CancelFunc is context.CancelFunc.
type CancelFunc = func()

// CancelCauseFunc is context.CancelCauseFunc.
type CancelCauseFunc = func(cause error)

type empty struct{ name string }

func (*empty) Deadline() (deadline time.Time, ok bool) { return }
func (*empty) Done() *vsched.Chan[struct{}]            { return nil }
func (*empty) Err() error                              { return nil }
func (*empty) Value(key any) any                       { return nil }
func (e *empty) String() string                        { return e.name }

var bg = &empty{"context.Background"}
var todo = &empty{"context.TODO"}

// Background is context.Background.
func Background() Context { return bg }

// TODO is context.TODO.
func TODO() Context { return todo }

type valueCtx struct {
	Context
	k, v any
}

func (c *valueCtx) Value(k any) any {
	if k == c.k {
		return c.v
	}
	return c.Context.Value(k)
}

// WithValue is context.WithValue.
func WithValue(p Context, k, v any) Context { return &valueCtx{p, k, v} }

type cancelCtx struct {
	parent   Context
	o        vsched.Obj
	done     *vsched.Chan[struct{}]
	err      error
	cause    error
	deadline time.Time
	timer    *vtime.Timer
	children []*cancelCtx
	hooks    []*afterHook
}

type afterHook struct {
	f    func()
	dead bool
}

type keyT struct{}

var selfKey keyT

func (c *cancelCtx) Deadline() (time.Time, bool) {
	if !c.deadline.IsZero() {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *cancelCtx) Done() *vsched.Chan[struct{}] { return c.done }
func (c *cancelCtx) Err() (err error) {
	if vsched.R == nil {
		return c.err
	}
	vsched.AtomicOp("ctx.err", &c.o, false, func() { err = c.err })
	return
}
func (c *cancelCtx) Value(k any) any {
	if k == selfKey {
		return c
	}
	return c.parent.Value(k)
}

func (c *cancelCtx) cancel(err, cause error) {
	if vsched.Dead() {
		return
	}
	vsched.AtomicOp("ctx.cancel", &c.o, true, func() { c.cancelNow(err, cause) })
}

func (c *cancelCtx) cancelNow(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	c.cause = cause
	if cause == nil {
		c.cause = err
	}
	c.done.CloseNow()
	for _, h := range c.hooks {
		if !h.dead {
			h.dead = true
			vsched.Go(h.f)
		}
	}
	for _, k := range c.children {
		k.cancelNow(err, c.cause)
	}
}

func newCancel(p Context) *cancelCtx {
	c := &cancelCtx{parent: p, done: vsched.MakeChan[struct{}]()}
	c.done.SetName("ctx.Done")
	if pc, ok := p.Value(selfKey).(*cancelCtx); ok && pc != nil {
		if pc.err != nil {
			c.cancelNow(pc.err, pc.cause)
		} else {
			pc.children = append(pc.children, c)
		}
	}
	return c
}

// WithCancel is context.WithCancel.
func WithCancel(p Context) (Context, CancelFunc) {
	c := newCancel(p)
	return c, func() { c.cancel(Canceled, nil) }
}

// WithCancelCause is context.WithCancelCause.
func WithCancelCause(p Context) (Context, CancelCauseFunc) {
	c := newCancel(p)
	return c, func(e error) { c.cancel(Canceled, e) }
}

// WithTimeout is context.WithTimeout.
func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(p, vtime.Now().Add(d))
}

// WithDeadline is context.WithDeadline.
func WithDeadline(p Context, t time.Time) (Context, CancelFunc) {
	c := newCancel(p)
	if cur, ok := p.Deadline(); ok && cur.Before(t) {
		t = cur
	}
	c.deadline = t
	d := vtime.Until(t)
	if d <= 0 {
		c.cancel(DeadlineExceeded, nil)
		return c, func() {}
	}
	c.timer = vtime.AfterFunc(d, func() { c.cancel(DeadlineExceeded, nil) })
	return c, func() { c.timer.Stop(); c.cancel(Canceled, nil) }
}

// Cause is context.Cause.
func Cause(c Context) error {
	if cc, ok := c.Value(selfKey).(*cancelCtx); ok && cc != nil {
		return cc.cause
	}
	return c.Err()
}

type withoutCancel struct{ c Context }

func (withoutCancel) Deadline() (deadline time.Time, ok bool) { return }
func (withoutCancel) Done() *vsched.Chan[struct{}]            { return nil }
func (withoutCancel) Err() error                              { return nil }
func (w withoutCancel) Value(key any) any {
	if key == selfKey {
		return nil
	}
	return w.c.Value(key)
}

// WithoutCancel is context.WithoutCancel.
func WithoutCancel(p Context) Context { return withoutCancel{p} }

// AfterFunc is context.AfterFunc.
func AfterFunc(c Context, f func()) func() bool {
	h := &afterHook{f: f}
	if cc, ok := c.Value(selfKey).(*cancelCtx); ok && cc != nil {
		if cc.err != nil {
			h.dead = true
			vsched.Go(f)
		} else {
			cc.hooks = append(cc.hooks, h)
		}
	}
	return func() bool {
		was := !h.dead
		h.dead = true
		return was
	}
}

var _ = errors.New
