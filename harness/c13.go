//go:build all || c13 || c32

package main

import (
	"github.com/rossmerr/graphblas/binaryop"

	g "github.com/rossmerr/graphblas"
)

func init() {
	register("C13", 312000, 3120000, "a case is one operation with one mask (none, empty, matrices and vectors of any format and several element types, or a user's own mask), the output fresh, stale or an operand, every output cell classified as masked (must keep its old content) or not (must hold the unmasked result); or one masked reduction; distinct by operation, formats, type, mask and contents", perType(c13T[int], c13T[int8], c13T[int16], c13T[int32], c13T[int64], c13T[uint], c13T[uint8], c13T[uint16], c13T[uint32], c13T[uint64], c13T[uintptr], c13T[float32], c13T[float64]))
}

func c13T[T Num](c *Case) {
	if vast[T](c, 11, 12, 13, 14, 15, 18, 20) {
		return
	}
	ctx := c.Ctx()
	if c.p(0.2) {
		c13Reduce[T](c)
		return
	}
	ops := allOps[T]()
	op := ops[c.n(len(ops))]
	x := genOp(c, op, opOpt{max: 14, stale: 0.85, alias: 0.25, users: true, mask: 1})
	if x.sel == nil {
		c.Trivial()
	}
	if op.alias && !x.aliased && x.sel == nil && c.p(0.5) && nonNegative(x.in[0]) && x.in[0].R == x.old.R && x.in[0].C == x.old.C {
		// an operand used as the mask
		x.mask = x.inM[0]
		x.sel = make([]bool, len(x.old.D))
		for i, v := range x.in[0].D {
			x.sel[i] = v > 0
		}
		c.Note("the first operand is the mask")
		c.Sig("operand mask")
	}
	c.Count("op "+op.name, 1)
	x.run(ctx)
	x.check(c, "C13/"+op.name)
}

func nonNegative[T Num](m *Ref[T]) bool {
	for _, v := range m.D {
		if !(v >= 0) {
			return false
		}
	}
	return true
}

func c13Reduce[T Num](c *Case) {
	ctx := c.Ctx()
	r, k := c.dim(12), c.dim(12)
	if c.p(0.3) {
		k = 1
	}
	kind := c.kind(k, true)
	ref := genRef(c, r, k, func() T { return mulVal[T](c) })
	x := build(c, kind, ref)
	desc, mask, sel := genMask(c, r, k)
	c.Note("reduce %s[%s] %v under %s", kindName[kind], tname[T](), ref, desc)
	c.Sig("reduce", kind, tname[T](), r, k, ref.D, desc)
	c.Count("op reduce", 1)
	if sel == nil {
		c.Trivial()
	}
	var sum, n T
	for i, v := range ref.D {
		if sel == nil || !sel[i] {
			sum += v
			if v != 0 {
				n++
			}
		}
	}
	c.Ev(len(ref.D))
	if got := g.ReduceMatrixToScalar[T](ctx, x, mask); !same(got, sum) {
		c.Fail("C13/reduce", "masked sum is %v, want %v", got, sum)
	}
	if vl, ok := x.(g.VectorLogial[T]); ok {
		if got := g.ReduceVectorToScalar[T](ctx, vl, mask); !same(got, sum) {
			c.Fail("C13/reduce", "masked vector sum is %v, want %v", got, sum)
		}
	}
	if r < 100 {
		count := binaryop.NewMonoID(T(0), binaryop.NewBinaryOp(func(a, b T) T {
			if b != 0 {
				return a + 1
			}
			return a
		}))
		if got := g.ReduceMatrixToScalarWithMonoID[T](ctx, x, count, mask); !same(got, n) {
			c.Fail("C13/reduce", "the monoid saw %v unmasked elements, want %v", got, n)
		}
	}
	// column by column: the mask has the shape of one column
	desc, vm, vsel := genMask(c, r, 1)
	c.Note("columns under %s", desc)
	c.Sig(desc)
	mon := binaryop.NewMonoID(T(0), binaryop.Addition[T]())
	got := g.ReduceMatrixToVectorWithMonoID[T](ctx, x, mon, vm)
	w := newRef[T](k, 1)
	for i := 0; i < r; i++ {
		if vsel == nil || !vsel[i] {
			for j := 0; j < k; j++ {
				w.D[j] += ref.At(i, j)
			}
		}
	}
	want[T](c, "C13/reduce-columns", got, w)
}
