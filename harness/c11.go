//go:build all || c11 || c32

package main

import (
	g "github.com/rossmerr/graphblas"
)

func init() {
	register("C11", 249600, 2496000, "a case is one transposition (method, function with fresh or stale output, or conversion to a compressed form) of one matrix or vector, followed by transposing back; non-trivial if the operand holds a non-zero; distinct by entry point, format, type and content", perType(c11T[int], c11T[int8], c11T[int16], c11T[int32], c11T[int64], c11T[uint], c11T[uint8], c11T[uint16], c11T[uint32], c11T[uint64], c11T[uintptr], c11T[float32], c11T[float64], c11Logical))
}

func c11T[T Num](c *Case) {
	if vast[T](c, 17) {
		return
	}
	ctx := c.Ctx()
	if c.p(0.3) {
		x := genOp(c, opTranspose[T](), opOpt{max: 24, stale: 0.4, users: true, mask: 0.1})
		if x.in[0].NNZ() == 0 {
			c.Trivial()
		}
		x.run(ctx)
		x.check(c, "C11/function")
		return
	}
	r, k := c.dim(24), c.dim(24)
	if c.p(0.2) {
		k = 1
	} else if c.p(0.1) {
		r = 1
	}
	kind := c.kind(k, true)
	a := genRef(c, r, k, func() T { return anyNZ[T](c, true) })
	x := build(c, kind, a)
	if a.NNZ() == 0 {
		c.Trivial()
	}
	c.Note("%s[%s] %v", kindName[kind], tname[T](), a)
	c.Sig(kind, tname[T](), r, k, a.D)
	c.Count("operand "+kindName[kind], 1)
	t := a.T()
	z := x.Transpose()
	want[T](c, "C11/method", z, t)
	want[T](c, "C11/twice", z.Transpose(), a)
	csr := g.TransposeToCSR[T](ctx, x)
	csc := g.TransposeToCSC[T](ctx, x)
	want[T](c, "C11/to-csr", csr, t)
	want[T](c, "C11/to-csc", csc, t)
	if _, ok := csr.(*g.CSRMatrix[T]); !ok {
		c.Fail("C11/to-csr", "TransposeToCSR gives a %T", csr)
	}
	if _, ok := csc.(*g.CSCMatrix[T]); !ok {
		c.Fail("C11/to-csc", "TransposeToCSC gives a %T", csc)
	}
	want[T](c, "C11/twice", csr.Transpose(), a)
	want[T](c, "C11/twice", g.TransposeToCSR[T](ctx, csc), a)
	want[T](c, "C11/twice", g.TransposeToCSC[T](ctx, csr), a)
	want[T](c, "C11/operand", x, a)
	if !hasNaN(a) && !z.Transpose().Equal(x) {
		c.Fail("C11/twice", "the transpose of the transpose is not Equal to the matrix %v", a)
	}
	if len(t.D) == 0 {
		return
	}
	// the results go on working
	j := c.n(len(t.D))
	t.D[j] = 7
	csr.Set(j/t.C, j%t.C, 7)
	csc.Set(j/t.C, j%t.C, 7)
	want[T](c, "C11/result", csr, t)
	want[T](c, "C11/result", csc, t)
}

func c11Logical(c *Case) {
	r, k := c.dim(16), c.dim(16)
	a := newRef[rune](r, k)
	var x g.MatrixLogical[rune] = g.NewDenseMatrix[rune](r, k)
	if c.p(0.3) {
		k = 1
		a = newRef[rune](r, 1)
		x = g.NewDenseVector[rune](r)
	}
	for i := range a.D {
		a.D[i] = rune(c.n(1000))
		x.Set(i/k, i%k, a.D[i])
	}
	c.Note("rune %v", a)
	c.Sig("rune", r, k, a.D)
	z := x.Transpose()
	t := a.T()
	if d := diff[rune](c, z, t, z.At, z.Enumerate()); d != "" {
		c.Fail("C11/method", "rune: %s", d)
	}
	y := z.Transpose()
	if d := diff[rune](c, y, a, y.At, y.Enumerate()); d != "" {
		c.Fail("C11/twice", "rune: %s", d)
	}
}

func hasNaN[T Num](m *Ref[T]) bool {
	for _, v := range m.D {
		if v != v {
			return true
		}
	}
	return false
}
