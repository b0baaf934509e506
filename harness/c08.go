//go:build all || c08 || c32

package main

import (
	g "github.com/rossmerr/graphblas"
)

func init() {
	register("C08", 249600, 2496000, "a case is one product of two randomly patterned operands in independently chosen formats through one entry point (mxm, mxv, vxm or the Multiply method), the output fresh or holding old content, compared cell by cell with the schoolbook product; non-trivial if the product is non-zero; distinct by entry point, formats, type and contents", perType(c08T[int], c08T[int8], c08T[int16], c08T[int32], c08T[int64], c08T[uint], c08T[uint8], c08T[uint16], c08T[uint32], c08T[uint64], c08T[uintptr], c08T[float32], c08T[float64]))
}

func c08T[T Num](c *Case) {
	ctx := c.Ctx()
	switch c.n(5) {
	case 0, 1:
		x := genOp(c, pick(c, opMxm[T], opMxv[T], opVxm[T])(), opOpt{max: 20, stale: 0.6, users: true})
		if x.in[0].NNZ() == 0 || x.in[1].NNZ() == 0 {
			c.Trivial()
		}
		x.run(ctx)
		x.check(c, "C08/product")
		c.Count(x.op.name, 1)
	case 2:
		x := genOp(c, pick(c, opMxm[T], opMxv[T], opVxm[T])(), opOpt{max: 40, stale: 0.6, users: true})
		x.run(ctx)
		x.check(c, "C08/product")
		c.Count(x.op.name, 1)
	default: // the methods
		sh := prodShapes(c, 20)
		if c.p(0.35) { // a vector on the left
			n := c.dim(20)
			sh = [][2]int{{c.dim(20), 1}, {1, n}}
			if c.p(0.4) {
				sh[1][1] = 1
			}
		} else if c.p(0.3) {
			sh[1][1] = 1
		}
		k0, k1 := c.kind(sh[0][1], false), c.kind(sh[1][1], true)
		a := genRef(c, sh[0][0], sh[0][1], func() T { return mulVal[T](c) })
		b := genRef(c, sh[1][0], sh[1][1], func() T { return mulVal[T](c) })
		x, y := build(c, k0, a), build(c, k1, b)
		c.Note("%s[%s] %v Multiply %s %v", kindName[k0], tname[T](), a, kindName[k1], b)
		c.Sig("method", k0, k1, tname[T](), a.R, a.C, a.D, b.C, b.D)
		c.Count("method of "+kindName[k0], 1)
		p := mulRef(a, b)
		if p.NNZ() == 0 {
			c.Trivial()
		}
		var z g.Matrix[T] = x.Multiply(y)
		want[T](c, "C08/method", z, p)
		want[T](c, "C08/operand", x, a)
		want[T](c, "C08/operand", y, b)
	}
}
