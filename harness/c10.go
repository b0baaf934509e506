//go:build all || c10 || c32

package main

import (
	g "github.com/rossmerr/graphblas"
)

func init() {
	register("C10", 249600, 2496000, "a case is one scaling or negation, by method or function, of one matrix or vector; scalars include zero and ones that make integers wrap to zero; non-trivial if the operand holds a non-zero; distinct by entry point, format, type, scalar and content", perType(c10T[int], c10T[int8], c10T[int16], c10T[int32], c10T[int64], c10T[uint], c10T[uint8], c10T[uint16], c10T[uint32], c10T[uint64], c10T[uintptr], c10T[float32], c10T[float64]))
}

// evenVal is an integer with many factors of two, so that some scalars wrap
// its product to zero.
func evenVal[T Num](c *Case) T {
	if isFloat[T]() || c.p(0.5) {
		return anyNZ[T](c, false)
	}
	var v T = 1
	for i := c.n(bitsOf[T]()); i > 0; i-- {
		v += v
	}
	if v == 0 {
		v = 1
	}
	return v
}

func c10T[T Num](c *Case) {
	if vast[T](c, 10, 11) {
		return
	}
	ctx := c.Ctx()
	if c.p(0.3) {
		x := genOp(c, opNeg[T](), opOpt{max: 24, stale: 0.6, alias: 0.3, users: true, mask: 0.15})
		if x.in[0].NNZ() == 0 {
			c.Trivial()
		}
		x.run(ctx)
		x.check(c, "C10/negative-function")
		return
	}
	sh := oneShape(c, 24)
	k := c.kind(sh[0][1], true)
	a := genRef(c, sh[0][0], sh[0][1], func() T { return evenVal[T](c) })
	x := build(c, k, a)
	if a.NNZ() == 0 {
		c.Trivial()
	}
	c.Count("operand "+kindName[k], 1)
	if c.p(0.3) {
		c.Note("%s[%s] Negative of %v", kindName[k], tname[T](), a)
		c.Sig("neg", k, tname[T](), a.R, a.C, a.D)
		z := x.Negative()
		want[T](c, "C10/negative-method", z, mapRef(a, func(v T) T { return -v }))
		want[T](c, "C10/operand", x, a)
		return
	}
	var al T
	switch c.n(6) {
	case 0:
		al = 0
	case 1:
		al = 1
	case 2:
		al = small[T](c, 5)
	case 3:
		al = evenVal[T](c)
	default:
		al = anyVal[T](c, false)
	}
	c.Note("%s[%s] %v scaled by %v", kindName[k], tname[T](), a, al)
	c.Sig("scale", k, tname[T](), a.R, a.C, a.D, al)
	w := mapRef(a, func(v T) T { return al * v })
	var z g.Matrix[T]
	if c.p(0.5) {
		z = x.Scalar(al)
	} else {
		z = g.Scalar[T](ctx, x, al)
	}
	want[T](c, "C10/scalar", z, w)
	want[T](c, "C10/operand", x, a)
	if len(w.D) == 0 {
		return
	}
	// the result goes on working as a matrix
	j := c.n(len(w.D))
	z.Set(j/w.C, j%w.C, 1)
	w.D[j] = 1
	want[T](c, "C10/scalar-result", z, w)
}
