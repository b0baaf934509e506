//go:build all || c28

package main

import (
	"errors"
	"fmt"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/unaryop"
)

func init() {
	register("C28", 234000, 1560000, "a case is one operation whose user-supplied function (update, map, unary operator, mask, search callback) panics at a chosen call, followed by random later operations; monitors record every call of the function, the value that reaches the caller, every cell, the enumeration and the later history; distinct by operation, format, content and panicking call", perType(c28T[int], c28T[int8], c28T[int16], c28T[int32], c28T[int64], c28T[uint], c28T[uint8], c28T[uint16], c28T[uint32], c28T[uint64], c28T[uintptr], c28T[float32], c28T[float64]))
}

// bomb panics at its at-th call.
type bomb struct {
	at, calls int
	val       any
	fired     bool
}

type customPanic struct{ n int }

func newBomb(c *Case, est int) *bomb {
	b := &bomb{at: 1 + c.n(max(est, 1))}
	if c.p(0.2) {
		b.at = 1
	}
	switch c.n(4) {
	case 0:
		b.val = errors.New("callback failed")
	case 1:
		b.val = "callback failed"
	case 2:
		b.val = &customPanic{7}
	default:
		b.val = nil // a run-time error
	}
	return b
}

func (b *bomb) call() {
	b.calls++
	if b.calls == b.at {
		b.fired = true
		if b.val == nil {
			var m map[string]int
			m["x"] = 1
		}
		panic(b.val)
	}
}

// expect checks that the panic, and only the panic, reached the caller.
func (b *bomb) expect(c *Case, what string, f func()) {
	did, val := panics(f)
	c.Ev(1 + b.calls)
	switch {
	case b.fired && !did:
		c.Fail("C28/swallowed", "%s: the callback panicked at call %d but the caller saw no panic", what, b.at)
	case !b.fired && did:
		c.Fail("C28/panic", "%s panicked with %v although the callback did not", what, val)
	case b.fired && b.val != nil && val != b.val:
		c.Fail("C28/replaced", "%s: the callback panicked with %v, the caller got %v", what, b.val, val)
	case b.fired && b.val == nil && fmt.Sprint(val) != "assignment to entry in nil map":
		c.Fail("C28/replaced", "%s: the callback failed with a run-time error, the caller got %v", what, val)
	}
	if b.fired {
		c.Count("panics injected", 1)
		c.Count("panics in "+what, 1)
	} else {
		c.Count("calls that ended before the chosen panic", 1)
	}
}

func c28T[T Num](c *Case) {
	switch c.n(10) {
	case 0, 1:
		c28Update[T](c)
	case 2, 3:
		c28Map[T](c)
	case 4, 5:
		c28Apply[T](c)
	case 6, 7:
		c28Mask[T](c)
	case 8:
		c28Reduce[T](c)
	default:
		c28BFS[T](c)
	}
}

// c28After checks the content and that later operations work on it.
func c28After[T Num](c *Case, what string, x g.Matrix[T], got *Ref[T]) {
	want[T](c, "C28/inconsistent", x, got)
	nnz := got.NNZ()
	if g.IsSparseMatrix[T](x) && x.Values() != nnz {
		c.Fail("C28/inconsistent", "%s: %d values reported, %d non-zero cells", what, x.Values(), nnz)
	}
	for i := 0; i < got.R && i < 3; i++ {
		r := c.n(got.R)
		row := x.RowsAtToArray(r)
		for j, v := range row {
			if !same(v, got.At(r, j)) {
				c.Fail("C28/inconsistent", "%s: row %d is %v, want %v", what, r, row, got)
			}
		}
	}
	cp, cref := x.Copy(), got.Clone()
	for n := 0; n < 2+c.n(10); n++ {
		j := c.n(len(got.D))
		a, b := j/got.C, j%got.C
		v := small[T](c, 4)
		switch c.n(9) {
		case 0:
			x.Clear()
			got = newRef[T](got.R, got.C)
		case 1:
			for m := x.Map(); m.HasNext(); {
				m.Map(func(r, k int, w T) T { return w + w })
			}
			got = mapRef(got, func(w T) T { return w + w })
		case 2:
			got = mapRef(got, func(w T) T { return -w })
			g.Negative[T](c.Ctx(), x.Copy(), nil, x)
		case 3, 4:
			x.Update(a, b, func(w T) T { return w + v })
			got.D[j] += v
		default:
			x.Set(a, b, v)
			got.D[j] = v
		}
		want[T](c, "C28/later", x, got)
	}
	want[T](c, "C28/copy", cp, cref)
}

type ptrUpdater[T Num] interface {
	UpdateReturnPointer(r, c int, f func(T) T) (int, int)
}

func c28Start[T Num](c *Case) (int, *Ref[T], g.Matrix[T]) {
	r, k := c.dim(12), c.dim(12)
	if c.p(0.25) {
		k = 1
	}
	kind := c.kind(k, false)
	a := genRef(c, r, k, func() T { return sumVal[T](c) })
	x := build(c, kind, a)
	c.Note("%s[%s] %v", kindName[kind], tname[T](), a)
	c.Sig(kind, tname[T](), a.R, a.C, a.D)
	return kind, a, x
}

func c28Update[T Num](c *Case) {
	kind, a, x := c28Start[T](c)
	wrapped := c.p(0.2)
	mx := g.NewMutexMatrix[T](x)
	for n := 0; n < 1+c.n(4); n++ {
		j := c.n(len(a.D))
		if c.p(0.4) { // an occupied cell
			for t := 0; t < 50 && a.D[j] == 0; t++ {
				j = c.n(len(a.D))
			}
		}
		r, k := j/a.C, j%a.C
		b := newBomb(c, 1)
		seen := false
		f := func(v T) T {
			if !same(v, a.D[j]) {
				seen = true
			}
			b.call()
			return v
		}
		what := "Update"
		p, ok := x.(ptrUpdater[T])
		switch {
		case wrapped:
			what = "MutexMatrix.Update"
			b.expect(c, what, func() { mx.Update(r, k, f) })
		case ok && c.p(0.4):
			what = "UpdateReturnPointer"
			b.expect(c, what, func() { p.UpdateReturnPointer(r, k, f) })
		default:
			b.expect(c, what, func() { x.Update(r, k, f) })
		}
		c.Note("%s at (%d,%d)", what, r, k)
		c.Sig(what, j)
		c.Count(what+" "+kindName[kind], 1)
		if seen {
			c.Fail("C28/argument", "%s at (%d,%d) was given another value than %v", what, r, k, a.D[j])
		}
		if wrapped { // a lock left held would block here for ever
			if v := mx.At(r, k); !same(v, a.D[j]) {
				c.Fail("C28/changed", "%s: cell (%d,%d) %v became %v", what, r, k, a.D[j], v)
			}
			mx.Set(r, k, a.D[j])
		}
		want[T](c, "C28/changed", x, a)
	}
	c28After(c, "after Update", x, a.Clone())
}

// mapFn is a function that maps some values to zero.
func c28Fn[T Num](c *Case) func(r, k int, v T) T {
	z := c.n(5)
	add := T(1 + c.n(3))
	return func(r, k int, v T) T {
		switch {
		case v == 0:
			return 0
		case (r+2*k)%5 < z:
			return 0
		}
		return v + add
	}
}

func c28Map[T Num](c *Case) {
	kind, a, x := c28Start[T](c)
	est := a.NNZ()
	if !isSparseKind(kind) {
		est = len(a.D)
	}
	if est == 0 {
		c.Trivial()
	}
	b := newBomb(c, est)
	fn := c28Fn[T](c)
	done := map[[2]int]bool{}
	at := [2]int{-1, -1}
	b.expect(c, "Map", func() {
		for m := x.Map(); m.HasNext(); {
			m.Map(func(r, k int, v T) T {
				at = [2]int{r, k}
				b.call()
				done[at] = true
				return fn(r, k, v)
			})
		}
	})
	c.Note("Map panics at call %d", b.at)
	c.Sig("map", b.at)
	c.Count("Map "+kindName[kind], 1)
	got := a.Clone()
	for p := range done {
		got.Set(p[0], p[1], fn(p[0], p[1], a.At(p[0], p[1])))
	}
	if b.fired {
		if done[at] {
			c.Fail("C28/twice", "Map visited (%d,%d) twice", at[0], at[1])
		}
		if v := x.At(at[0], at[1]); !same(v, a.At(at[0], at[1])) {
			c.Fail("C28/changed", "Map: the element (%d,%d) being processed changed from %v to %v", at[0], at[1], a.At(at[0], at[1]), v)
		}
		// elements whose result was computed hold the old or the new value
		for i := range got.D {
			v := x.At(i/a.C, i%a.C)
			if !same(v, a.D[i]) && !same(v, got.D[i]) {
				c.Fail("C28/torn", "Map: element (%d,%d) is %v, neither the old %v nor the new %v", i/a.C, i%a.C, v, a.D[i], got.D[i])
			}
			got.D[i] = v
		}
	}
	c28After[T](c, "after Map", x, got)
}

func c28Apply[T Num](c *Case) {
	op := opApply[T]()
	x := genOp(c, op, opOpt{max: 12, stale: 0.7, alias: 0.5, mask: 0.3})
	est := x.in[0].NNZ()
	if !isSparseKind(x.kinds[0]) {
		est = len(x.in[0].D)
	}
	b := newBomb(c, est)
	u := x.u
	x.u = unaryop.NewUnaryOp(func(v T) T { b.call(); return u.Apply(v) })
	what := "Apply to an output"
	if x.aliased {
		what = "Apply in place"
	}
	b.expect(c, what, func() { x.run(c.Ctx()) })
	x.u = u
	c.Note("operator panics at call %d", b.at)
	c.Sig("apply", b.at)
	c28Cells(c, x, what, b, b.at-1)
}

// c28Cells: every cell holds its old or its final value, and at most most
// cells changed.
func c28Cells[T Num](c *Case, x *OpCase[T], what string, b *bomb, most int) {
	c.checkLeak("C28/leak")
	if !b.fired {
		x.check(c, "C28")
		return
	}
	cells := x.op.spec(x.u, x.in)
	got := newRef[T](x.old.R, x.old.C)
	changed := 0
	for i := range got.D {
		v := x.out.At(i/got.C, i%got.C)
		got.D[i] = v
		if same(v, x.old.D[i]) {
			continue
		}
		changed++
		if !oneOf(v, x.allowed(cells, i)) {
			c.Fail("C28/torn", "%s: cell (%d,%d) is %v, neither the old %v nor a final one %v", what, i/got.C, i%got.C, v, x.old.D[i], x.allowed(cells, i))
		}
	}
	if most >= 0 && changed > most {
		c.Fail("C28/changed", "%s: %d cells changed although the operator only returned %d times", what, changed, most)
	}
	for i, m := range x.inM {
		if m != x.out {
			want[T](c, "C28/input", m, x.in[i])
		}
	}
	c28After[T](c, "after "+what, x.out, got)
}

func c28Mask[T Num](c *Case) {
	ops := allOps[T]()
	x := genOp(c, ops[c.n(len(ops))], opOpt{max: 9, stale: 0.7, alias: 0.35, users: true})
	p := c.pattern(x.old.R, x.old.C)
	b := newBomb(c, len(p))
	x.sel = p
	x.mask = &FnMask{x.old.R, x.old.C, func(r, k int) bool { b.call(); return p[r*x.old.C+k] }}
	b.expect(c, x.op.name+" mask", func() { x.run(c.Ctx()) })
	c.Note("mask %s panics at call %d", patStr(p, x.old.C), b.at)
	c.Sig("mask", b.at)
	c28Cells(c, x, x.op.name, b, -1)
}

func c28Reduce[T Num](c *Case) {
	kind, a, x := c28Start[T](c)
	ctx := c.Ctx()
	p := c.pattern(a.R, a.C)
	b := newBomb(c, len(p))
	w := a.C
	mask := &FnMask{a.R, a.C, func(r, k int) bool { b.call(); return p[r*w+k] }}
	mon := g.DefaultMonoIDAddition[T]()
	what := ""
	switch c.n(5) {
	case 0:
		what = "ReduceMatrixToScalar"
		b.expect(c, what, func() { g.ReduceMatrixToScalar[T](ctx, x, mask) })
	case 1:
		what = "ReduceMatrixToScalarWithMonoID"
		b.expect(c, what, func() { g.ReduceMatrixToScalarWithMonoID[T](ctx, x, mon, mask) })
	case 2:
		what = "ReduceMatrixToVectorWithMonoID"
		pc := c.pattern(a.R, 1)
		mc := &FnMask{a.R, 1, func(r, k int) bool { b.call(); return pc[r] }}
		b.expect(c, what, func() { g.ReduceMatrixToVectorWithMonoID[T](ctx, x, mon, mc) })
	default:
		what = "ReduceVectorToScalar"
		j := c.n(a.C)
		v := x.ColumnsAt(j)
		pc := c.pattern(a.R, 1)
		mc := &FnMask{a.R, 1, func(r, k int) bool { b.call(); return pc[r] }}
		if c.p(0.5) {
			b.expect(c, what, func() { g.ReduceVectorToScalar[T](ctx, v, mc) })
		} else {
			what = "ReduceVectorToScalarWithMonoID"
			b.expect(c, what, func() { g.ReduceVectorToScalarWithMonoID[T](ctx, v, mon, mc) })
		}
	}
	c.Note("%s, mask panics at call %d", what, b.at)
	c.Sig(what, b.at)
	c.checkLeak("C28/leak")
	want[T](c, "C28/input", x, a)
	// the same monoid and matrix work afterwards
	sum := mon.Zero()
	for i, v := range a.D {
		if !p[i] {
			sum += v
		}
	}
	fine := &FnMask{a.R, a.C, func(r, k int) bool { return p[r*w+k] }}
	if !isFloat[T]() {
		if got := g.ReduceMatrixToScalarWithMonoID[T](ctx, x, mon, fine); got != sum {
			c.Fail("C28/later", "%s: a later sum over the same matrix is %v, want %v", what, got, sum)
		}
	}
	_ = kind
	c28After[T](c, "after "+what, x, a.Clone())
	c.checkLeak("C28/leak")
}

var _ binaryop.MonoID[int]

func c28BFS[T Num](c *Case) {
	n := 1 + c.n(9)
	kind := pick(c, KDense, KCSR, KCSC)
	a := newRef[T](n, n)
	for i, o := range c.pattern(n, n) {
		if o {
			a.D[i] = 1
		}
	}
	x := build(c, kind, a)
	b := newBomb(c, min(n, 3))
	src := c.n(n)
	c.Note("search from %d of %s[%s] %v panics at call %d", src, kindName[kind], tname[T](), a, b.at)
	c.Sig("bfs", kind, a.D, src, b.at)
	b.expect(c, "search", func() {
		breadthfirst.Search[T](c.Ctx(), x, src, func(v g.Vector[T]) bool { b.call(); return false })
	})
	c.checkLeak("C28/leak")
	c28After[T](c, "after a search", x, a.Clone())
}
