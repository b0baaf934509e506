//go:build all || c09 || c32

package main

import (
	g "github.com/rossmerr/graphblas"
)

func init() {
	register("C09", 249600, 2496000, "a case is one sum or difference of two operands of one shape in independently chosen formats, by method or by function, the function's output fresh, holding old content or being one of the operands; non-trivial if an operand holds a non-zero; distinct by entry point, formats, type and contents", perType(c09T[int], c09T[int8], c09T[int16], c09T[int32], c09T[int64], c09T[uint], c09T[uint8], c09T[uint16], c09T[uint32], c09T[uint64], c09T[uintptr], c09T[float32], c09T[float64]))
}

func c09T[T Num](c *Case) {
	if vast[T](c, 12, 13) {
		return
	}
	ctx := c.Ctx()
	if c.p(0.65) {
		x := genOp(c, pick(c, opAdd[T], opSub[T])(), opOpt{max: 22, stale: 0.5, alias: 0.35, users: true, mask: 0.1})
		if x.in[0].NNZ()+x.in[1].NNZ() == 0 {
			c.Trivial()
		}
		x.run(ctx)
		x.check(c, "C09/function")
		c.Count(x.op.name, 1)
		return
	}
	sh := sameShapes(c, 22)
	a := genRef(c, sh[0][0], sh[0][1], func() T { return sumVal[T](c) })
	b := genRef(c, sh[0][0], sh[0][1], func() T { return sumVal[T](c) })
	if c.p(0.15) {
		b = a.Clone()
	} else if c.p(0.35) {
		b = related(c, a, func() T { return sumVal[T](c) })
	}
	k0, k1 := c.kind(sh[0][1], false), c.kind(sh[0][1], true)
	x, y := build(c, k0, a), build(c, k1, b)
	if c.p(0.05) {
		y, b, k1 = x, a, k0
	}
	if a.NNZ()+b.NNZ() == 0 {
		c.Trivial()
	}
	sub := c.p(0.5)
	c.Note("%s[%s] %v method subtract=%v %s %v", kindName[k0], tname[T](), a, sub, kindName[k1], b)
	c.Sig("method", sub, k0, k1, tname[T](), a.R, a.C, a.D, b.D)
	c.Count("method of "+kindName[k0], 1)
	var z g.Matrix[T]
	if sub {
		z = x.Subtract(y)
		want[T](c, "C09/subtract-method", z, zipRef(a, b, func(p, q T) T { return p - q }))
	} else {
		z = x.Add(y)
		want[T](c, "C09/add-method", z, zipRef(a, b, func(p, q T) T { return p + q }))
	}
	want[T](c, "C09/operand", x, a)
	want[T](c, "C09/operand", y, b)
}
