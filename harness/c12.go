//go:build all || c12 || c32

package main

func init() {
	register("C12", 249600, 2496000, "a case is one element-wise multiply or add of two matrices or vectors of one shape (rectangular ones included) with overlapping patterns in independently chosen formats, the output fresh, stale or one of the operands; non-trivial if both operands hold a non-zero; distinct by entry point, formats, type and contents", perType(c12T[int], c12T[int8], c12T[int16], c12T[int32], c12T[int64], c12T[uint], c12T[uint8], c12T[uint16], c12T[uint32], c12T[uint64], c12T[uintptr], c12T[float32], c12T[float64]))
}

func c12T[T Num](c *Case) {
	if vast[T](c, 14, 15) {
		return
	}
	op := pick(c, opEWMultM[T], opEWMultV[T], opEWAddM[T], opEWAddV[T], opEWMultM[T], opEWAddM[T])()
	if c.p(0.25) {
		op.val = func(c *Case) T { return 1 } // logical AND and OR
	}
	x := genOp(c, op, opOpt{max: 22, stale: 0.3, alias: 0.4, users: true, mask: 0.1})
	if x.in[0].NNZ() == 0 || x.in[1].NNZ() == 0 {
		c.Trivial()
	}
	both := 0
	for i := range x.in[0].D {
		if x.in[0].D[i] != 0 && x.in[1].D[i] != 0 {
			both++
		}
	}
	c.Count("cells present in both operands", both)
	c.Count(op.name, 1)
	x.run(c.Ctx())
	x.check(c, "C12/"+op.name)
}
