//go:build all || c03 || c32

package main

import (
	"math"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/unaryop"
)

func init() {
	register("C03", 93600, 1872000, "a case is one matrix or vector of one format, type and pattern, taken through writes, with complete (and pairs of interleaved) enumerations checked element by element against a model; non-trivial if it has at least one cell; distinct by format, type and content", perType(c03T[int], c03T[int8], c03T[int16], c03T[int32], c03T[int64], c03T[uint], c03T[uint8], c03T[uint16], c03T[uint32], c03T[uint64], c03T[uintptr], c03T[float32], c03T[float64]))
}

func c03T[T Num](c *Case) {
	if vast[T](c, 0, 4, 7) {
		return
	}
	if n := c.marathon(); n > 0 {
		c03Marathon[T](c, n)
		return
	}
	r, k := c.dim(24), c.dim(24)
	if c.p(0.2) {
		k = 1
	}
	if c.p(0.01) {
		r = 0
	} else if c.p(0.01) {
		k = 0
	}
	kind := c.kind(k, false)
	ref := genRef(c, r, k, func() T { return anyNZ[T](c, true) })
	x := build(c, kind, ref)
	c.Note("%s[%s] %v", kindName[kind], tname[T](), ref)
	c.Sig(kind, tname[T](), r, k, ref.D)
	c.Count("format "+kindName[kind], 1)
	if r*k == 0 {
		c.Trivial()
	}
	if r*k > 0 && c.p(0.3) { // the result of some operations
		for n := 1 + c.n(2); n > 0; n-- {
			x = c03Derive(c, x)
		}
		kind = KDense
		if sparseFormat(x) {
			kind = KCSR
		}
		r, k = x.Rows(), x.Columns()
		ref = newRef[T](r, k)
		for i := range ref.D {
			ref.D[i] = x.At(i/k, i%k)
		}
		c.Count("results of operations", 1)
	}
	for round := 0; round < 4; round++ {
		c03Check[T](c, kind, x, ref)
		if r*k == 0 {
			break
		}
		// two enumerations in progress at once, with reads in between
		a, b := x.Enumerate(), x.Enumerate()
		ca, cb := newCover(c, ref, isSparseKind(kind)), newCover(c, ref, isSparseKind(kind))
		for n := 0; (a.HasNext() || b.HasNext()) && n < 4*r*k+8; n++ {
			if c.p(0.5) {
				if a.HasNext() {
					ca.next(a)
				}
			} else if b.HasNext() {
				cb.next(b)
			}
			if c.p(0.1) && (!c.slow || c.p(0.01)) {
				x.At(c.n(r), c.n(k))
				if k < 64 || c.n(k) < 64 {
					x.RowsAt(c.n(r))
				}
			}
		}
		for n := 0; a.HasNext() && n <= r*k; n++ {
			ca.next(a)
		}
		for n := 0; b.HasNext() && n <= r*k; n++ {
			cb.next(b)
		}
		ca.done()
		cb.done()
		// enumerations begun later, and left unfinished, do not revive finished ones
		for n := c.n(3); n > 0; n-- {
			late := x.Enumerate()
			cl := newCover(c, ref, isSparseKind(kind))
			for s := c.n(3); s > 0 && late.HasNext(); s-- {
				cl.next(late)
			}
			if a.HasNext() || b.HasNext() {
				c.Fail("C03/revived", "a finished enumeration has elements again after another was begun, in %v", ref)
			}
		}
		// further writes
		for s := 0; s < 1+c.n(12); s++ {
			j := c.n(r * k)
			v := anyVal[T](c, true)
			if c.p(0.45) {
				v = 0
			}
			x.Set(j/k, j%k, v)
			ref.D[j] = v
			c.Sig(j, v)
		}
		if c.p(0.05) {
			x.Clear()
			ref = newRef[T](r, k)
		}
		if c.p(0.05) { // empty one row
			i := c.n(r)
			for j := 0; j < k; j++ {
				x.Set(i, j, 0)
				ref.Set(i, j, 0)
			}
		}
	}
}

type cover[T Num] struct {
	c      *Case
	ref    *Ref[T]
	seen   []bool
	n      int
	sparse bool
}

func newCover[T Num](c *Case, ref *Ref[T], sparse bool) *cover[T] {
	return &cover[T]{c, ref, make([]bool, len(ref.D)), 0, sparse}
}
func (v *cover[T]) next(e g.Enumerate[T]) {
	r, k, x := e.Next()
	c, m := v.c, v.ref
	c.Ev(1)
	if r < 0 || k < 0 || r >= m.R || k >= m.C {
		c.Fail("C03/range", "enumeration yields (%d,%d) outside %dx%d of %v", r, k, m.R, m.C, m)
	}
	if v.seen[r*m.C+k] {
		c.Fail("C03/twice", "enumeration yields (%d,%d) twice in %v", r, k, m)
	}
	v.seen[r*m.C+k] = true
	if !same(x, m.At(r, k)) {
		c.Fail("C03/value", "enumeration yields (%d,%d)=%v, want %v in %v", r, k, x, m.At(r, k), m)
	}
	if v.sparse && x == 0 {
		c.Fail("C03/zero", "sparse enumeration yields zero at (%d,%d) of %v", r, k, m)
	}
	v.n++
}
func (v *cover[T]) done() {
	w := len(v.ref.D)
	if v.sparse {
		w = v.ref.NNZ()
	}
	if v.n != w {
		v.c.Fail("C03/missing", "enumeration yields %d elements, want %d of %v", v.n, w, v.ref)
	}
}

func c03Check[T Num](c *Case, kind int, x g.Matrix[T], ref *Ref[T]) {
	cov := newCover(c, ref, isSparseKind(kind))
	e := x.Enumerate()
	for e.HasNext() {
		if c.p(0.2) && !e.HasNext() {
			c.Fail("C03/hasnext", "HasNext changes its answer")
		}
		cov.next(e)
	}
	if e.HasNext() {
		c.Fail("C03/hasnext", "HasNext true again after the end")
	}
	cov.done()
	if x.Values() != cov.n {
		c.Fail("C03/values", "Values is %d, enumeration yields %d, in %v", x.Values(), cov.n, ref)
	}
	if x.Size() != ref.R*ref.C {
		c.Fail("C03/size", "Size is %d, want %d", x.Size(), ref.R*ref.C)
	}
	c.Count("enumerations", 1)
}

// c03Marathon begins many enumerations on a tiny object: of those in progress
// from before, each still yields every element once.
func c03Marathon[T Num](c *Case, n int) {
	r, k := 1+c.n(3), 1+c.n(3)
	if c.p(0.3) {
		k = 1
	}
	kind := c.kind(k, false)
	ref := genRef(c, r, k, func() T { return anyNZ[T](c, true) })
	x := build(c, kind, ref)
	mode := c.n(4)
	name := []string{"enumerate all", "begin and abandon", "begin, go one step and abandon", "write and enumerate"}[mode]
	c.Note("%s[%s] %d times %s on %v", kindName[kind], tname[T](), n, name, ref)
	c.Sig("marathon", kind, tname[T](), n, mode, r, k, ref.D)
	first := x.Enumerate()
	cf := newCover(c, ref, isSparseKind(kind))
	if first.HasNext() {
		cf.next(first)
	}
	for i := 0; i < n; i++ {
		switch mode {
		case 0:
			c03Check[T](c, kind, x, ref)
		case 1, 2:
			e := x.Enumerate()
			if mode == 2 && e.HasNext() {
				newCover(c, ref, isSparseKind(kind)).next(e)
			}
		default:
			j := c.n(r * k)
			v := T(i % 3)
			x.Set(j/k, j%k, v)
			ref.D[j] = v
			c03Check[T](c, kind, x, ref)
		}
		if c.full(i) {
			c03Check[T](c, kind, x, ref)
		}
	}
	if mode != 3 {
		for s := 0; first.HasNext() && s <= r*k; s++ {
			cf.next(first)
		}
		cf.done()
	}
	c03Check[T](c, kind, x, ref)
	c.ran(name, n)
}

// c03Derive computes something from x; what comes out is another property's
// business. Cells that become zero are frequent.
func c03Derive[T Num](c *Case, x g.Matrix[T]) g.Matrix[T] {
	r, k := x.Rows(), x.Columns()
	ctx := c.Ctx()
	other := func() g.Matrix[T] {
		if c.p(0.3) {
			return x
		}
		o := newRef[T](r, k)
		for i := range o.D {
			switch c.n(4) {
			case 0:
				o.D[i] = -x.At(i/k, i%k)
			case 1:
				o.D[i] = x.At(i/k, i%k)
			case 2:
				o.D[i] = anyVal[T](c, false)
			}
		}
		return build(c, c.kind(k, false), o)
	}
	y := x
	name := ""
	switch c.n(12) {
	case 0:
		name, y = "Copy", x.Copy()
	case 1:
		name, y = "Add", x.Add(other())
	case 2:
		name, y = "Subtract", x.Subtract(other())
	case 3:
		al := pick(c, 0, 1, T(16), T(64), maxOf[T]()/2+1, anyVal[T](c, false))
		if c.p(0.4) {
			al = vanish(c, x)
		}
		name, y = "Scalar", x.Scalar(al)
	case 4:
		if z, ok := x.Negative().(g.Matrix[T]); ok {
			name, y = "Negative", z
		}
	case 5:
		name, y = "TransposeToCSR", g.TransposeToCSR[T](ctx, x)
	case 6:
		name, y = "TransposeToCSC", g.TransposeToCSC[T](ctx, x)
	case 7:
		name, y = "add in place", x
		g.Add[T](ctx, x, other(), nil, x)
	case 8:
		name, y = "subtract in place", x
		g.Subtract[T](ctx, x, other(), nil, x)
	case 9:
		name, y = "element-wise multiply", empty[T](c.kind(k, false), r, k)
		g.ElementWiseMatrixMultiply[T](ctx, x, other(), nil, y)
	case 10:
		name, y = "element-wise multiply in place", x
		g.ElementWiseMatrixMultiply[T](ctx, x, other(), nil, x)
	default:
		name, y = "apply", empty[T](c.kind(k, false), r, k)
		in := x
		if c.p(0.5) {
			y = x
		}
		g.Apply[T](ctx, in, nil, unaryop.NewUnaryOp(func(v T) T {
			if c.p(0.3) {
				return 0
			}
			return v
		}), y)
	}
	c.Note("%s", name)
	c.Sig(name)
	return y
}

// vanish is a number, not zero, by which some element of x times it wraps round
// (or underflows) to zero, if there is one.
func vanish[T Num](c *Case, x g.Matrix[T]) T {
	al := T(1)
	if isFloat[T]() {
		if bitsOf[T]() == 32 {
			v := math.SmallestNonzeroFloat32
			return T(v)
		}
		v := math.SmallestNonzeroFloat64
		return T(v)
	}
	v := T(2)
	if n := x.Rows() * x.Columns(); n > 0 {
		j := c.n(n)
		if w := x.At(j/x.Columns(), j%x.Columns()); w != 0 {
			v = w
		}
	}
	for b := al; b != 0; b *= 2 {
		if al = b; al*v == 0 {
			break
		}
	}
	return al
}
