//go:build all || c30

package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"time"

	g "github.com/rossmerr/graphblas"
)

func init() {
	register("C30", 72000, 1440000, "a case builds a chain of plain and mode-carrying contexts and compares what the outermost reports (mode, value, deadline, error, cancellation signal) with its parents, before and after a cancellation from another goroutine; distinct by chain", c30)
}

type ctxKey int

// c30Keys are keys a caller may well use: a mode context must have no values
// of its own under them.
var c30Keys = []any{"mode", "Mode", "graphblas", "graphblas.mode", "context", "blocking", "", 0, 1, g.Blocking, g.NonBlocking, struct{}{}, "key",
	'm', true, reflect.TypeOf(0), reflect.TypeOf((*g.Context)(nil)).Elem()}

// c30Own answers for itself what may be asked of a context, except values.
type c30Own struct {
	context.Context
	done     <-chan struct{}
	err      error
	deadline time.Time
	has      bool
}

func (s *c30Own) Done() <-chan struct{}       { return s.done }
func (s *c30Own) Err() error                  { return s.err }
func (s *c30Own) Deadline() (time.Time, bool) { return s.deadline, s.has }

type c30Err string

func (s c30Err) Error() string { return string(s) }

func c30(c *Case) {
	ctx := context.Background()
	if c.p(0.2) {
		ctx = context.TODO()
	}
	type rec struct {
		ctx    context.Context
		parent context.Context
		mode   g.Mode
		has    bool
	}
	if m, ok := g.BlockingMode(ctx); ok || m != g.Blocking {
		c.Fail("C30/plain", "a plain context reports %v, %v", m, ok)
	}
	var chain []rec
	var cancels []context.CancelFunc
	cause := errors.New("cause")
	var causes []context.CancelCauseFunc
	vals := map[ctxKey]int{}
	depth := 1 + c.n(6)
	desc := ""
	for i := 0; i < depth; i++ {
		parent := ctx
		op := c.n(9)
		if c.p(0.06) {
			op = 9
		}
		switch op {
		case 0:
			if c.p(0.5) {
				k := pick(c, c30Keys...)
				ctx = context.WithValue(ctx, k, i+1)
				desc += fmt.Sprintf("value of %v ", k)
				break
			}
			k := ctxKey(c.n(3))
			vals[k] = i + 1
			ctx = context.WithValue(ctx, k, i+1)
			desc += "value "
		case 1:
			var f context.CancelFunc
			ctx, f = context.WithCancel(ctx)
			cancels = append(cancels, f)
			desc += "cancel "
		case 2:
			var f context.CancelFunc
			ctx, f = context.WithDeadline(ctx, time.Now().Add(time.Duration(1+c.n(100))*time.Hour))
			cancels = append(cancels, f)
			desc += "deadline "
		case 3:
			var f context.CancelCauseFunc
			ctx, f = context.WithCancelCause(ctx)
			causes = append(causes, f)
			desc += "cause "
		case 4:
			// (below a context of the user's that says its deadline has passed, but goes on, there is no timer)
			if d, ok := ctx.Deadline(); c.p(0.2) && !(ok && d.Before(time.Now()) && ctx.Err() == nil) {
				var f context.CancelFunc
				ctx, f = context.WithTimeout(ctx, time.Duration(c.n(3))*time.Microsecond)
				cancels = append(cancels, f)
				<-ctx.Done()
				desc += "expired "
				break
			}
			if c.p(0.1) {
				// cancelled in time, and looked at only after the deadline
				var f context.CancelFunc
				d := time.Duration(200+c.n(1000)) * time.Microsecond
				ctx, f = context.WithTimeout(ctx, d)
				f()
				time.Sleep(d + 100*time.Microsecond)
				desc += "cancelled in time "
				break
			}
			fallthrough
		case 5, 6, 7, 8:
			mode := pick(c, g.Blocking, g.NonBlocking)
			ctx = g.NewContext(ctx, mode)
			desc += pick(c, "mode ") + []string{"blocking ", "nonblocking "}[mode]
			chain = append(chain, rec{ctx, parent, mode, true})
			c.Count("mode contexts", 1)
		case 9:
			// the user's own kind of context, which never changes
			own := &c30Own{Context: ctx}
			if c.p(0.5) {
				done := make(chan struct{})
				own.done = done
				if c.p(0.6) {
					close(done)
					own.err = pick(c, error(c30Err("own")), context.Canceled, context.DeadlineExceeded)
					desc += "done "
				}
			}
			if c.p(0.5) {
				own.has, own.deadline = true, time.Now().Add(time.Duration(c.n(3)-1)*time.Hour)
				desc += "with a deadline "
			}
			ctx = own
			desc += "own "
			c.Count("contexts of a type of the user's", 1)
		}
	}
	if len(chain) == 0 {
		c.Trivial()
	}
	c.Note("%s", desc)
	c.Sig(desc)
	check := func(when string) {
		for i, r := range chain {
			c.Ev(6)
			if m, ok := g.BlockingMode(r.ctx); m != r.mode || !ok {
				c.Fail("C30/mode", "%s: context %d of %q reports mode %v, %v, want %v", when, i, desc, m, ok, r.mode)
			}
			gc, ok := r.ctx.(g.Context)
			if !ok || gc.Mode() != r.mode {
				c.Fail("C30/mode", "%s: context %d is not a Context of mode %v", when, i, r.mode)
			}
			for k := ctxKey(0); k < 4; k++ {
				if r.ctx.Value(k) != r.parent.Value(k) {
					c.Fail("C30/value", "%s: value %v is %v, the parent's %v", when, k, r.ctx.Value(k), r.parent.Value(k))
				}
			}
			for _, k := range c30Keys {
				if r.ctx.Value(k) != r.parent.Value(k) {
					c.Fail("C30/value", "%s: value of key %#v (%T) is %v, the parent's %v", when, k, k, r.ctx.Value(k), r.parent.Value(k))
				}
			}
			d, ok := r.ctx.Deadline()
			pd, pok := r.parent.Deadline()
			if ok != pok || !d.Equal(pd) {
				c.Fail("C30/deadline", "%s: deadline %v %v, the parent's %v %v", when, d, ok, pd, pok)
			}
			if r.ctx.Err() != r.parent.Err() {
				c.Fail("C30/err", "%s: error %v, the parent's %v", when, r.ctx.Err(), r.parent.Err())
			}
			if context.Cause(r.ctx) != context.Cause(r.parent) {
				c.Fail("C30/err", "%s: cause %v, the parent's %v", when, context.Cause(r.ctx), context.Cause(r.parent))
			}
			closed := func(x context.Context) bool {
				select {
				case <-x.Done():
					return true
				default:
					return false
				}
			}
			if closed(r.ctx) != closed(r.parent) {
				c.Fail("C30/done", "%s: done %v, the parent's %v", when, closed(r.ctx), closed(r.parent))
			}
		}
	}
	check("before")
	for _, plain := range []context.Context{context.Background(), context.TODO()} {
		p, f := context.WithCancel(context.WithValue(plain, ctxKey(1), 1))
		if m, ok := g.BlockingMode(p); ok || m != g.Blocking {
			c.Fail("C30/plain", "a context without a mode reports %v, %v", m, ok)
		}
		f()
	}
	// cancel one ancestor from another goroutine while the contexts wait
	if n := len(cancels) + len(causes); n > 0 && len(chain) > 0 {
		w := c.n(n)
		if w < len(cancels) {
			go cancels[w]()
		} else {
			go causes[w-len(cancels)](cause)
		}
		// the innermost plain context below the cancelled one decides which end
		for _, r := range chain {
			if r.parent.Done() == nil {
				continue
			}
			select {
			case <-r.ctx.Done():
				<-r.parent.Done()
				c.Count("cancellations received", 1)
				if r.ctx.Err() == nil && r.parent.Err() != nil {
					c.Fail("C30/err", "no error after the cancellation")
				}
			case <-time.After(2 * time.Millisecond):
			}
		}
		time.Sleep(50 * time.Microsecond)
	}
	for _, f := range cancels {
		f()
	}
	for _, f := range causes {
		f(cause)
	}
	check("after")
}
