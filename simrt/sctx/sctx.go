// Package sctx stands in for package context inside the simulation.
package sctx

import (
	"context"
	"errors"
	"time"

	"simrt/sim"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context { return context.Background() }
func TODO() Context       { return context.TODO() }

func WithValue(p Context, k, v any) Context { return &valueCtx{p, k, v} }

type valueCtx struct {
	Context
	k, v any
}

func (c *valueCtx) Value(k any) any {
	if c.k == k {
		return c.v
	}
	return c.Context.Value(k)
}

type keyT struct{}

type cancelCtx struct {
	parent   Context
	done     chan struct{}
	err      error
	cause    error
	kids     []*cancelCtx
	hasDL    bool
	deadline time.Time
	timer    *sim.Timer
	after    func()
	node     int
}

func (c *cancelCtx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *cancelCtx) Done() <-chan struct{} { return c.done }
func (c *cancelCtx) Err() error {
	sim.Yield("ctxerr")
	return c.err
}
func (c *cancelCtx) Value(k any) any {
	if _, ok := k.(keyT); ok {
		return c
	}
	return c.parent.Value(k)
}

func (c *cancelCtx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	sim.CloseQuiet(c.done)
	for _, k := range c.kids {
		k.cancel(err, cause)
	}
	c.kids = nil
	c.timer.Stop()
	if c.after != nil {
		sim.GoNode("ctxafter", c.node, c.after)
	}
}

func newCtx(parent Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{parent: parent, done: make(chan struct{}), node: sim.CurNode()}
	if p, ok := parent.Value(keyT{}).(*cancelCtx); ok {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.kids = append(p.kids, c)
		}
	} else if parent.Done() != nil {
		d := parent.Done()
		sim.Go(func() {
			switch r, q := sim.RecvCase(d), sim.RecvCase(c.done); sim.Select(false, r, q) {
			case 0:
				c.cancel(parent.Err(), nil)
			}
		})
	}
	return c
}

func (c *cancelCtx) detach() {
	if p, ok := c.parent.Value(keyT{}).(*cancelCtx); ok {
		for i, k := range p.kids {
			if k == c {
				p.kids = append(p.kids[:i:i], p.kids[i+1:]...)
				return
			}
		}
	}
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCtx(parent)
	return c, func() {
		sim.Yield("cancel")
		c.cancel(Canceled, nil)
		c.detach()
	}
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(e error) {
		sim.Yield("cancel")
		c.cancel(Canceled, e)
		c.detach()
	}
}

func Cause(c Context) error {
	if p, ok := c.Value(keyT{}).(*cancelCtx); ok && p.err != nil {
		return p.cause
	}
	return c.Err()
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	if pd, ok := parent.Deadline(); ok && pd.Before(d) {
		return WithCancel(parent)
	}
	c := newCtx(parent)
	c.hasDL, c.deadline = true, d
	if c.err == nil {
		dur := d.Sub(sim.Wall())
		if dur <= 0 {
			c.cancel(DeadlineExceeded, cause)
			c.detach()
		} else {
			c.timer = sim.After(int64(dur), func() { c.cancel(DeadlineExceeded, cause); c.detach() })
		}
	}
	return c, func() {
		sim.Yield("cancel")
		c.cancel(Canceled, nil)
		c.detach()
	}
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, sim.Wall().Add(d))
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, sim.Wall().Add(d), cause)
}

type noCancel struct{ c Context }

func (noCancel) Deadline() (time.Time, bool) { return time.Time{}, false }
func (noCancel) Done() <-chan struct{}       { return nil }
func (noCancel) Err() error                  { return nil }
func (n noCancel) Value(k any) any {
	if _, ok := k.(keyT); ok {
		return nil
	}
	return n.c.Value(k)
}

func WithoutCancel(p Context) Context { return noCancel{p} }

func AfterFunc(ctx Context, f func()) func() bool {
	c := newCtx(ctx)
	if c.err != nil {
		sim.GoNode("ctxafter", c.node, f)
		return func() bool { return false }
	}
	c.after = f
	return func() bool {
		sim.Yield("afterstop")
		if c.err != nil {
			return false
		}
		c.after = nil
		c.cancel(errors.New("stopped"), nil)
		c.detach()
		return true
	}
}
