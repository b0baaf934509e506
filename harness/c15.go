//go:build all || c15

package main

import (
	"math"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/math/strassen"
)

func init() {
	register("C15", 156000, 3120000, "a case makes several calls with an index outside the matrix or vector, or one call on operands or a mask of a wrong shape; each must panic, leave every operand, mask and output as it was and no goroutine behind; distinct by call, indices or shapes, format, type and content", perType(c15T[int], c15T[int8], c15T[int16], c15T[int32], c15T[int64], c15T[uint], c15T[uint8], c15T[uint16], c15T[uint32], c15T[uint64], c15T[uintptr], c15T[float32], c15T[float64], c15Logical))
}

// badIndex is an index outside 0..n-1.
func badIndex(c *Case, n int) int {
	switch c.n(8) {
	case 0:
		return -1
	case 1, 2, 3:
		return n
	case 4:
		return n + 1 + c.n(5)
	case 5:
		return -1 - c.n(5)
	case 6:
		return math.MaxInt
	default:
		return math.MinInt
	}
}

func mustPanic(c *Case, key, what string, f func()) {
	c.Ev(1)
	if did, _ := panics(f); !did {
		c.Fail(key, "%s did not panic", what)
	}
}

func c15T[T Num](c *Case) {
	if vast[T](c, 21) {
		return
	}
	if c.p(0.5) {
		c15Index[T](c)
	} else {
		c15Shape[T](c)
	}
}

func c15Index[T Num](c *Case) {
	r, k := c.dim(10), c.dim(10)
	if c.p(0.3) {
		k = 1
	}
	kind := c.kind(k, false)
	ref := genRef(c, r, k, func() T { return anyNZ[T](c, true) })
	x := build(c, kind, ref)
	c.Note("%s[%s] %v", kindName[kind], tname[T](), ref)
	c.Sig(kind, tname[T](), r, k, ref.D)
	before := takeSnap[T](x)
	for n := 0; n < 12; n++ {
		i, j := c.n(r), c.n(k)
		br, bc := true, true
		switch c.n(3) {
		case 0:
			i = badIndex(c, r)
			bc = false
		case 1:
			j = badIndex(c, k)
			br = false
		default:
			i, j = badIndex(c, r), badIndex(c, k)
		}
		v := anyNZ[T](c, false)
		called := false
		op := c.n(12)
		c.Sig(op, i, j)
		name := ""
		switch op {
		case 0:
			name = "At"
			mustPanic(c, "C15/index", "At", func() { x.At(i, j) })
		case 1:
			name = "Set"
			mustPanic(c, "C15/index", "Set", func() { x.Set(i, j, v) })
		case 2:
			name = "Set of zero"
			mustPanic(c, "C15/index", "Set of zero", func() { x.Set(i, j, 0) })
		case 3:
			name = "Update"
			mustPanic(c, "C15/index", "Update", func() { x.Update(i, j, func(T) T { called = true; return v }) })
		case 4:
			name = "Element"
			mustPanic(c, "C15/index", "Element", func() { x.Element(i, j) })
		case 5:
			name = "RowsAt"
			if br {
				mustPanic(c, "C15/index", "RowsAt", func() { x.RowsAt(i) })
			}
		case 6:
			name = "ColumnsAt"
			if bc {
				mustPanic(c, "C15/index", "ColumnsAt", func() { x.ColumnsAt(j) })
			}
		case 7:
			name = "RowsAtToArray"
			if br {
				mustPanic(c, "C15/index", "RowsAtToArray", func() { x.RowsAtToArray(i) })
			}
		case 8, 9:
			if m, ok := x.(g.MatrixCompressed[T]); ok {
				name = "SetReturnPointer"
				mustPanic(c, "C15/index", "SetReturnPointer", func() { m.SetReturnPointer(i, j, v) })
				mustPanic(c, "C15/index", "UpdateReturnPointer", func() { m.UpdateReturnPointer(i, j, func(T) T { called = true; return v }) })
			}
		default:
			if m, ok := x.(g.Vector[T]); ok && br {
				name = "AtVec/SetVec"
				mustPanic(c, "C15/index", "AtVec", func() { m.AtVec(i) })
				mustPanic(c, "C15/index", "SetVec", func() { m.SetVec(i, v) })
				if m.Length() != r {
					c.Fail("C15/changed", "the length changed")
				}
			}
		}
		c.Count("invalid index calls", 1)
		if called {
			c.Fail("C15/index", "%s(%d,%d) of %dx%d called its function", name, i, j, r, k)
		}
		if d := before.diff(takeSnap[T](x)); d != "" {
			c.Fail("C15/changed", "%s(%d,%d) changed the matrix: %s", name, i, j, d)
		}
	}
	want[T](c, "C15/changed", x, ref)
	if c.p(0.3) { // and it goes on working
		j := c.n(r * k)
		x.Set(j/k, j%k, 5)
		ref.D[j] = 5
		want[T](c, "C15/after", x, ref)
	}
}

// bump returns another dimension than n.
func bump(c *Case, n int) int {
	if n > 1 && c.p(0.5) {
		return 1 + c.n(n-1)
	}
	return n + 1 + c.n(3)
}

// wrongShape is a shape that is not r by k, often one that looks like it.
func wrongShape(c *Case, r, k int) (int, int) {
	a, b := r, k
	switch c.n(6) {
	case 0:
		a = bump(c, r)
	case 1:
		b = bump(c, k)
	case 2:
		a, b = k, r
	case 3: // as many cells
		n := r * k
		if n == 0 {
			break
		}
		for a = 1 + c.n(n); n%a != 0; a-- {
		}
		b = n / a
		c.Count("wrong shapes with the right number of cells", 1)
	case 4: // what is one longer is the other shorter
		if r > 1 {
			a, b = r-1, k+1
		}
	default:
		a, b = bump(c, r), bump(c, k)
	}
	if a == r && b == k {
		a = bump(c, r)
	}
	return a, b
}

// common clears the elements of two matrices outside the part they share (or,
// of the operands of a product, the inner dimension they share).
func common[T Num](c *Case, x, y *Ref[T], product bool) {
	for _, p := range [2][2]*Ref[T]{{x, y}, {y, x}} {
		for i := range p[0].D {
			r, k := i/p[0].C, i%p[0].C
			in := r < p[1].R && k < p[1].C
			if product {
				n := min(x.C, y.R)
				in = p[0] == x && k < n || p[0] == y && r < n
			}
			if !in {
				p[0].D[i] = 0
			}
		}
	}
	c.Count("elements only in the common part", 1)
}

func c15Shape[T Num](c *Case) {
	ctx := c.Ctx()
	switch c.n(10) {
	case 0:
		c15Methods[T](c)
		return
	case 1:
		c15Reduce[T](c)
		return
	}
	ops := allOps[T]()
	op := ops[c.n(len(ops))]
	x := genOp(c, op, opOpt{max: 9, stale: 0.9, alias: 0.15, users: true, mask: 0.3})
	badMask := len(x.in) == 1 || c.p(0.5)
	what := "mask"
	if badMask {
		r, k := x.old.R, x.old.C
		r, k = wrongShape(c, r, k)
		x.maskDesc, x.mask, x.sel = "", nil, nil
		for x.mask == nil {
			x.maskDesc, x.mask, x.sel = genMask(c, r, k)
		}
		c.Note("mask of wrong shape %dx%d: %s", r, k, x.maskDesc)
		c.Sig("mask", r, k)
	} else {
		what = "operands"
		i := c.n(2)
		old := x.in[i]
		r, k := old.R, old.C
		switch {
		case op.product && op.name != "VectorMatrixMultiply" && i == 0, op.name == "VectorMatrixMultiply" && i == 1:
			k = bump(c, k) // the inner dimension
		case op.product:
			r = bump(c, r)
		case op.outVec:
			r = bump(c, r)
		default:
			r, k = wrongShape(c, r, k)
		}
		ref := genRef(c, r, k, func() T { return op.val(c) })
		if c.p(0.3) && op.name != "VectorMatrixMultiply" { // no element lies where the other operand has no cell
			o := x.in[1-i].Clone()
			if i == 0 {
				common(c, ref, o, op.product)
			} else {
				common(c, o, ref, op.product)
			}
			if !(x.aliased && x.inM[1-i] == x.out) {
				ok := c.kind(o.C, true)
				if op.vec[1-i] {
					ok = pick(c, KDVec, KSVec)
				}
				x.in[1-i], x.inM[1-i] = o, build(c, ok, o)
			}
		}
		kind := c.kind(k, true)
		if op.vec[i] {
			kind = pick(c, KDVec, KSVec)
		}
		if x.aliased && x.inM[i] == x.out { // keep the output's own shape
			ok := c.kind(x.old.C, true)
			if op.outVec {
				ok = pick(c, KDVec, KSVec)
			}
			x.out = build(c, ok, x.old)
		}
		x.in[i], x.inM[i] = ref, build(c, kind, ref)
		c.Note("operand %d of wrong shape: %s %v", i, kindName[kind], ref)
		c.Sig("operand", i, kind, r, k, ref.D)
	}
	var snaps []*snap[T]
	for _, m := range x.inM {
		snaps = append(snaps, takeSnap[T](m))
	}
	out := takeSnap[T](x.out)
	writes := 0
	if u, ok := x.out.(*UserMatrix[T]); ok {
		u.onWrite = func(int, int) { writes++ }
	}
	mustPanic(c, "C15/shape", op.name+" with "+what+" of a wrong shape", func() { x.run(ctx) })
	if writes > 0 {
		c.Fail("C15/shape-effect", "%s wrote to the output before refusing", op.name)
	}
	if d := out.diff(takeSnap[T](x.out)); d != "" {
		c.Fail("C15/shape-effect", "%s changed its output before refusing: %s", op.name, d)
	}
	for i, m := range x.inM {
		if d := snaps[i].diff(takeSnap[T](m)); d != "" {
			c.Fail("C15/shape-effect", "%s changed operand %d before refusing: %s", op.name, i, d)
		}
	}
	c.Count("refused "+op.name+" for its "+what, 1)
	if c.p(0.1) {
		c.checkLeak("C15/leak")
	}
}

func c15Methods[T Num](c *Case) {
	r, k := c.dim(8), c.dim(8)
	kind := c.kind(k, false)
	a := genRef(c, r, k, func() T { return mulVal[T](c) })
	x := build(c, kind, a)
	r2, k2 := r, k
	op := c.n(4)
	switch op {
	case 0: // product
		r2, k2 = bump(c, k), c.dim(8)
	case 3: // fast product
		r2, k2 = bump(c, k), c.dim(8)
	default:
		r2, k2 = wrongShape(c, r, k)
	}
	kd := c.kind(k2, true)
	b := genRef(c, r2, k2, func() T { return mulVal[T](c) })
	if c.p(0.3) {
		common(c, a, b, op == 0 || op == 3)
		x = build(c, kind, a)
	}
	y := build(c, kd, b)
	name := []string{"Multiply", "Add", "Subtract", "strassen.Multiply"}[op]
	c.Note("%s of %s[%s] %v and %s %v", name, kindName[kind], tname[T](), a, kindName[kd], b)
	c.Sig(op, kind, kd, tname[T](), r, k, r2, k2, a.D, b.D)
	mustPanic(c, "C15/method-shape", name, func() {
		switch op {
		case 0:
			x.Multiply(y)
		case 1:
			x.Add(y)
		case 2:
			x.Subtract(y)
		default:
			strassen.MultiplyCrossoverPoint(c.Ctx(), x, y, 1+c.n(3))
		}
	})
	want[T](c, "C15/shape-effect", x, a)
	want[T](c, "C15/shape-effect", y, b)
	if c.p(0.3) {
		c.checkLeak("C15/leak")
	}
	c.Count("refused method "+name, 1)
}

func c15Reduce[T Num](c *Case) {
	ctx := c.Ctx()
	r, k := c.dim(8), c.dim(8)
	if c.p(0.3) {
		k = 1
	}
	kind := c.kind(k, true)
	a := genRef(c, r, k, func() T { return mulVal[T](c) })
	x := build(c, kind, a)
	mr, mk := r, k
	if c.p(0.5) {
		mr = bump(c, r)
	} else {
		mk = bump(c, k)
	}
	var desc string
	var m g.Mask
	for m == nil {
		desc, m, _ = genMask(c, mr, mk)
	}
	c.Note("reduce %s[%s] %v with mask %dx%d %s", kindName[kind], tname[T](), a, mr, mk, desc)
	c.Sig("reduce", kind, tname[T](), r, k, a.D, mr, mk)
	mon := binaryop.NewMonoID(T(0), binaryop.Addition[T]())
	mustPanic(c, "C15/reduce-shape", "a reduction with a mask of a wrong shape", func() {
		if c.p(0.5) {
			g.ReduceMatrixToScalar[T](ctx, x, m)
		} else {
			g.ReduceMatrixToScalarWithMonoID[T](ctx, x, mon, m)
		}
	})
	want[T](c, "C15/shape-effect", x, a)
	if c.p(0.5) {
		c.checkLeak("C15/leak")
	}
	c.Count("refused reductions", 1)
}

func c15Logical(c *Case) {
	r, k := c.dim(6), c.dim(6)
	x := g.NewDenseMatrix[bool](r, k)
	v := g.NewDenseVector[bool](r)
	i, j := badIndex(c, r), badIndex(c, k)
	c.Note("logical %dx%d index %d %d", r, k, i, j)
	c.Sig("bool", r, k, i, j)
	a, b := c.n(r), c.n(k)
	for n, f := range []func(){
		func() { x.At(i, b) }, func() { x.At(a, j) }, func() { x.Set(i, b, true) }, func() { x.Set(a, j, true) },
		func() { x.Update(i, b, func(bool) bool { return true }) }, func() { x.Update(a, j, func(bool) bool { return true }) },
		func() { x.RowsAt(i) }, func() { x.ColumnsAt(j) }, func() { x.RowsAtToArray(i) },
		func() { v.AtVec(i) }, func() { v.SetVec(i, true) }, func() { v.At(i, 0) }, func() { v.At(a, badIndex(c, 1)) },
		func() { v.Set(i, 0, true) }, func() { v.Set(a, badIndex(c, 1), true) }, func() { v.RowsAt(i) }, func() { v.ColumnsAt(badIndex(c, 1)) },
		func() { v.Update(i, 0, func(bool) bool { return true }) }, func() { v.Update(a, badIndex(c, 1), func(bool) bool { return true }) }, func() { v.RowsAtToArray(i) },
	} {
		c.Ev(1)
		if did, _ := panics(f); !did {
			c.Fail("C15/index", "logical call %d did not panic (row %d column %d of %dx%d)", n, i, j, r, k)
		}
	}
	z := newRef[bool](r, k)
	if d := diff[bool](c, x, z, x.At, x.Enumerate()); d != "" {
		c.Fail("C15/changed", "logical: %s", d)
	}
}
