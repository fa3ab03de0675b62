// Package simcontext is package context under the simulated scheduler.
package simcontext

import (
	"context"
	"time"

	"recengine/internal/zzsim/rt"
	"recengine/internal/zzsim/simtime"
)

type key int

const selfKey key = 1

type ctx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	kids     []*ctx
	deadline time.Time
	hasDl    bool
	timer    *simtime.Timer
	onDone   func()
	vc       rt.VC // of the canceller
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error            { rt.Acquire(c.vc); return c.err }
func (c *ctx) Value(k interface{}) interface{} {
	if k == selfKey {
		return c
	}
	return c.parent.Value(k)
}

func (c *ctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	rt.Release(&c.vc)
	rt.S.CloseChan(c.done)
	if c.timer != nil {
		c.timer.Stop()
	}
	if c.onDone != nil {
		f := c.onDone
		rt.Go(f)
	}
	kids := c.kids
	c.kids = nil
	for _, k := range kids {
		k.cancel(err, cause)
	}
}

func newCtx(parent context.Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(selfKey).(*ctx); ok {
		if p.err != nil {
			rt.Acquire(p.vc)
			c.cancel(p.err, p.cause)
		} else {
			p.kids = append(p.kids, c)
		}
	} else if err := parent.Err(); err != nil {
		c.cancel(err, err)
	}
	return c
}

func canceller(c *ctx) context.CancelFunc {
	return func() {
		if rt.Killed() {
			return
		}
		rt.Yield(31)
		c.cancel(context.Canceled, nil)
	}
}

// WithCancel is context.WithCancel.
func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, canceller(c)
}

// WithCancelCause is context.WithCancelCause.
func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) {
		if !rt.Killed() {
			rt.Yield(31)
			c.cancel(context.Canceled, cause)
		}
	}
}

// WithDeadline is context.WithDeadline.
func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

// WithTimeoutCause is context.WithTimeoutCause.
func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, simtime.Now().Add(d), cause)
}

// WithDeadlineCause is context.WithDeadlineCause.
func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return c, canceller(c)
	}
	c.deadline, c.hasDl = d, true
	if c.err == nil {
		c.timer = simtime.AfterFunc(simtime.Until(d), func() { c.cancel(context.DeadlineExceeded, cause) })
	}
	return c, canceller(c)
}

// WithTimeout is context.WithTimeout.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, simtime.Now().Add(d))
}

// Cause is context.Cause.
func Cause(c context.Context) error {
	if x, ok := c.Value(selfKey).(*ctx); ok {
		rt.Acquire(x.vc)
		return x.cause
	}
	return c.Err()
}

// AfterFunc is context.AfterFunc.
func AfterFunc(parent context.Context, f func()) func() bool {
	c := &ctx{parent: parent, done: make(chan struct{})}
	fired := false
	c.onDone = func() { fired = true; f() }
	stopped := false
	if p, ok := parent.Value(selfKey).(*ctx); ok {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.kids = append(p.kids, c)
		}
	}
	return func() bool {
		if fired || stopped || c.err != nil {
			return false
		}
		stopped = true
		c.onDone = nil
		return true
	}
}

type without struct{ context.Context }

func (without) Deadline() (time.Time, bool) { return time.Time{}, false }
func (without) Done() <-chan struct{}       { return nil }
func (without) Err() error                  { return nil }
func (w without) Value(k interface{}) interface{} {
	if k == selfKey {
		return nil
	}
	return w.Context.Value(k)
}

// WithoutCancel is context.WithoutCancel.
func WithoutCancel(parent context.Context) context.Context { return without{parent} }
