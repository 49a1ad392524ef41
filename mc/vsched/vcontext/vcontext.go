// Package vcontext mirrors the parts of context the checked code may use, under the controlled scheduler.
package vcontext

import (
	"context"
	"time"

	"verif.local/mc/vsched"
)

type (
	// Context is context.Context.
	Context = context.Context
	// CancelFunc is context.CancelFunc.
	CancelFunc = context.CancelFunc
	// CancelCauseFunc is context.CancelCauseFunc.
	CancelCauseFunc = context.CancelCauseFunc
)

// Errors of package context.
var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

// Ctx is a cancellable context whose channel belongs to the scheduler.
type Ctx struct {
	parent context.Context
	done   chan struct{}
	err    error
	cause  error
	kids   []*Ctx
	after  []func()
}

func (c *Ctx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (c *Ctx) Done() <-chan struct{}       { return c.done }
func (c *Ctx) Err() error                  { vsched.Op(nil, "ctx err"); return c.err }
func (c *Ctx) Value(k any) any             { return c.parent.Value(k) }

// Cancel cancels.
func (c *Ctx) Cancel(cause error) {
	vsched.Op(nil, "cancel")
	c.cancel(cause)
}

func (c *Ctx) cancel(cause error) {
	if c.err != nil {
		return
	}
	c.err, c.cause = context.Canceled, cause
	vsched.Close(c.done)
	for _, f := range c.after {
		vsched.Go(f)
	}
	for _, k := range c.kids {
		k.cancel(cause)
	}
}

func owner(p context.Context) *Ctx {
	for p != nil {
		switch x := p.(type) {
		case *Ctx:
			return x
		case *val:
			p = x.Context
		default:
			return nil
		}
	}
	return nil
}

// New makes a context.
func New(parent context.Context) *Ctx {
	c := &Ctx{parent: parent, done: make(chan struct{})}
	if o := owner(parent); o != nil {
		if o.err != nil {
			c.cancel(o.cause)
		} else {
			o.kids = append(o.kids, c)
		}
	} else if parent.Done() != nil {
		panic("vsched: foreign context")
	}
	return c
}

// Background is context.Background.
func Background() Context { return context.Background() }

// TODO is context.TODO.
func TODO() Context { return context.TODO() }

// WithCancel is context.WithCancel.
func WithCancel(parent Context) (Context, CancelFunc) {
	c := New(parent)
	return c, func() { c.Cancel(context.Canceled) }
}

// WithCancelCause is context.WithCancelCause.
func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := New(parent)
	return c, func(e error) { c.Cancel(e) }
}

// Cause is context.Cause.
func Cause(c Context) error {
	if o := owner(c); o != nil {
		vsched.Point()
		if o.cause == nil {
			return o.err
		}
		return o.cause
	}
	return c.Err()
}

type val struct {
	Context
	k, v any
}

func (c *val) Value(k any) any {
	if k == c.k {
		return c.v
	}
	return c.Context.Value(k)
}

// WithValue is context.WithValue.
func WithValue(parent Context, k, v any) Context { return &val{parent, k, v} }

// WithoutCancel is context.WithoutCancel.
func WithoutCancel(Context) Context { return context.Background() }

// AfterFunc is context.AfterFunc.
func AfterFunc(ctx Context, f func()) func() bool {
	o := owner(ctx)
	if o == nil {
		return func() bool { return true }
	}
	vsched.Point()
	if o.err != nil {
		vsched.Go(f)
		return func() bool { return false }
	}
	i := len(o.after)
	ran, stopped := false, false
	o.after = append(o.after, func() {
		if !stopped {
			ran = true
			f()
		}
	})
	_ = i
	return func() bool {
		vsched.Point()
		if ran || stopped || o.err != nil {
			return false
		}
		stopped = true
		return true
	}
}
