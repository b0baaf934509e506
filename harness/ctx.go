package main

import (
	"context"
	"time"

	g "github.com/rossmerr/graphblas"
)

type plainKey int

// lazyCtx is a context of the user's own: it can never be cancelled, but says
// so with a channel instead of nil, and has a deadline far away.
type lazyCtx struct {
	context.Context
	done chan struct{}
}

func (x *lazyCtx) Done() <-chan struct{}       { return x.done }
func (x *lazyCtx) Err() error                  { return nil }
func (x *lazyCtx) Deadline() (time.Time, bool) { return time.Now().Add(1000 * time.Hour), true }

// Ctx is a context that is not cancelled, of any kind a caller may pass: what
// an operation computes must not depend on it.
func (c *Case) Ctx() context.Context {
	x := context.Background()
	if c.p(0.5) {
		return x
	}
	switch c.n(4) {
	case 0:
		x = context.TODO()
	case 1:
		y, cancel := context.WithCancel(x)
		c.cancels = append(c.cancels, cancel)
		x = y
	case 2:
		x = &lazyCtx{x, make(chan struct{})}
	}
	if c.p(0.3) {
		x = context.WithValue(x, plainKey(c.n(3)), c.n(100))
	}
	if c.p(0.6) {
		x = g.NewContext(x, pick(c, g.Blocking, g.NonBlocking))
	}
	if c.p(0.2) {
		x = context.WithoutCancel(x)
	}
	return x
}
