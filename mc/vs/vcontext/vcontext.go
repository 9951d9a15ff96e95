// Package vcontext stands in for context in code that runs on the controlled
// runtime. Deadlines never expire by themselves.
package vcontext

import (
	"context"
	"time"

	"verif/mc/vs"
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

// Context stands in for context.Context.
type Context interface {
	Deadline() (deadline time.Time, ok bool)
	Done() *vs.Chan[struct{}]
	Err() error
	Value(key interface{}) interface{}
}

type (
	CancelFunc      func()
	CancelCauseFunc func(cause error)
)

type bg struct{}

func (bg) Deadline() (t time.Time, ok bool) { return }
func (bg) Done() *vs.Chan[struct{}]         { return nil }
func (bg) Err() error                       { return nil }
func (bg) Value(interface{}) interface{}    { return nil }

func Background() Context { return bg{} }
func TODO() Context       { return bg{} }

type valueCtx struct {
	Context
	k, v interface{}
}

func (c valueCtx) Value(k interface{}) interface{} {
	if c.k == k {
		return c.v
	}
	return c.Context.Value(k)
}

func WithValue(p Context, k, v interface{}) Context { return valueCtx{p, k, v} }

type cancelKey struct{}

type cancelCtx struct {
	parent Context
	ev     *vs.Event
	err    error
	cause  error
	kids   []*cancelCtx
}

func (c *cancelCtx) Deadline() (time.Time, bool) { return c.parent.Deadline() }
func (c *cancelCtx) Done() *vs.Chan[struct{}]    { return c.ev.C }
func (c *cancelCtx) Err() error {
	c.ev.Peek()
	return c.err
}
func (c *cancelCtx) Value(k interface{}) interface{} {
	if _, ok := k.(cancelKey); ok {
		return c
	}
	return c.parent.Value(k)
}

func (c *cancelCtx) all(es []*vs.Event) []*vs.Event {
	es = append(es, c.ev)
	for _, k := range c.kids {
		es = k.all(es)
	}
	return es
}

func (c *cancelCtx) set(err, cause error) {
	if c.err != nil {
		return
	}
	c.err, c.cause = err, cause
	c.ev.Mark()
	for _, k := range c.kids {
		k.set(err, cause)
	}
}

func (c *cancelCtx) cancel(cause error) {
	if cause == nil {
		cause = Canceled
	}
	vs.Atomic(func() { c.set(Canceled, cause) }, func() []*vs.Event { return c.all(nil) })
}

func newCancel(p Context) *cancelCtx {
	c := &cancelCtx{parent: p, ev: vs.NewEvent()}
	if pc, ok := p.Value(cancelKey{}).(*cancelCtx); ok {
		pc.ev.Peek()
		pc.kids = append(pc.kids, c)
		if pc.err != nil {
			c.set(pc.err, pc.cause)
		}
	}
	return c
}

func WithCancel(p Context) (Context, CancelFunc) {
	c := newCancel(p)
	return c, func() { c.cancel(nil) }
}

func WithCancelCause(p Context) (Context, CancelCauseFunc) {
	c := newCancel(p)
	return c, func(e error) { c.cancel(e) }
}

func Cause(c Context) error {
	if cc, ok := c.Value(cancelKey{}).(*cancelCtx); ok {
		cc.ev.Peek()
		return cc.cause
	}
	return c.Err()
}

func WithDeadline(p Context, d time.Time) (Context, CancelFunc)    { return WithCancel(p) }
func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) { return WithCancel(p) }
func WithoutCancel(p Context) Context                              { return withoutCancel{p} }

type withoutCancel struct{ p Context }

func (withoutCancel) Deadline() (t time.Time, ok bool) { return }
func (withoutCancel) Done() *vs.Chan[struct{}]         { return nil }
func (withoutCancel) Err() error                       { return nil }
func (c withoutCancel) Value(k interface{}) interface{} {
	if _, ok := k.(cancelKey); ok {
		return nil
	}
	return c.p.Value(k)
}
