//go:build all || c14

package main

import (
	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/math/reduced"
	"github.com/rossmerr/graphblas/math/skewsymmetric"
	"github.com/rossmerr/graphblas/math/strassen"
	"github.com/rossmerr/graphblas/math/symmetric"
	"github.com/rossmerr/graphblas/sort"
)

func init() {
	register("C14", 507000, 8112000, "a case is one operation, algorithm or group of reads whose every input (operands and masks) is photographed before and after: shape, cells, counts and enumeration; distinct by operation, formats, type and contents", perType(c14T[int], c14T[int8], c14T[int16], c14T[int32], c14T[int64], c14T[uint], c14T[uint8], c14T[uint16], c14T[uint32], c14T[uint64], c14T[uintptr], c14T[float32], c14T[float64], c14Rune))
}

type watched[T Num] struct {
	name string
	x    g.MatrixLogical[T]
	s    *snap[T]
}

func watch[T Num](name string, x g.MatrixLogical[T]) *watched[T] {
	return &watched[T]{name, x, takeSnap(x)}
}
func (w *watched[T]) check(c *Case, op string) {
	c.Ev(len(w.s.cells))
	if d := w.s.diff(takeSnap(w.x)); d != "" {
		c.Fail("C14/input-changed", "%s changed its %s: %s", op, w.name, d)
	}
}

func c14T[T Num](c *Case) {
	if vast[T](c, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20) {
		return
	}
	ctx := c.Ctx()
	if c.p(0.45) {
		ops := allOps[T]()
		x := genOp(c, ops[c.n(len(ops))], opOpt{max: 12, stale: 0.4, alias: 0.2, users: true, mask: 0.6})
		var ws []*watched[T]
		for _, m := range x.inM {
			if m != x.out {
				ws = append(ws, watch("operand", g.MatrixLogical[T](m)))
			}
		}
		if m := x.out; c.p(0.15) {
			// a mask with any values; what it selects is not looked at here
			kind := c.kind(m.Columns(), true)
			ref := genRef(c, m.Rows(), m.Columns(), func() T { return anyVal[T](c, true) })
			x.mask = build(c, kind, ref)
			c.Note("mask %s %v", kindName[kind], ref)
			c.Count("masks with negative values", 1)
		}
		checkMask := watchMask(x.mask)
		if m, ok := x.mask.(g.Matrix[T]); ok {
			checkMask = watch[T]("mask", m).check
		}
		x.run(ctx)
		for _, w := range ws {
			w.check(c, x.op.name)
		}
		checkMask(c, x.op.name)
		c.Count("op "+x.op.name, 1)
		return
	}
	r, k := c.dim(12), c.dim(12)
	if c.p(0.4) && c.thin == 0 {
		k = r
	} else if c.p(0.45) {
		k = 1
	}
	kind := c.kind(k, true)
	a := genRef(c, r, k, func() T { return mulVal[T](c) })
	if r == k && c.p(0.3) { // symmetric or skew-symmetric content
		neg := c.p(0.5)
		for i := 0; i < r; i++ {
			for j := 0; j <= i; j++ {
				v := a.At(i, j)
				if neg {
					if i == j {
						v = 0
					}
					a.Set(j, i, -v)
				} else {
					a.Set(j, i, v)
				}
				a.Set(i, j, v)
			}
		}
	}
	x := build(c, kind, a)
	k2 := c.kind(k, true)
	b := genRef(c, r, k, func() T { return mulVal[T](c) })
	if c.p(0.2) {
		b = a.Clone()
	} else if c.p(0.4) {
		b = related(c, a, func() T { return mulVal[T](c) })
	}
	y := build(c, k2, b)
	c.Sig(kind, k2, tname[T](), r, k, a.D, b.D)
	wx, wy := watch[T]("receiver", x), watch[T]("argument", y)
	op := ""
	switch c.n(17) {
	case 0:
		op = "Multiply"
		if r == k {
			x.Multiply(y)
		} else {
			t := build(c, c.kind(r, true), b.T())
			wt := watch[T]("argument", t)
			x.Multiply(t)
			wt.check(c, op)
		}
	case 1:
		op = "Add"
		x.Add(y)
	case 2:
		op = "Subtract"
		x.Subtract(y)
	case 3:
		op = "Scalar"
		x.Scalar(small[T](c, 3))
	case 4:
		op = "Negative"
		x.Negative()
	case 5:
		op = "Transpose"
		x.Transpose()
	case 6:
		op = "TransposeToCSR"
		g.TransposeToCSR[T](ctx, x)
	case 7:
		op = "TransposeToCSC"
		g.TransposeToCSC[T](ctx, x)
	case 8:
		op = "reductions"
		g.ReduceMatrixToScalar[T](ctx, x, nil)
		g.ReduceMatrixToVector[T](ctx, x)
		desc, m, _ := genMask(c, r, k)
		c.Note("%s", desc)
		chk := watchMask(m)
		g.ReduceMatrixToScalar[T](ctx, x, m)
		chk(c, "reduction")
	case 9:
		op = "Equal"
		x.Equal(y)
		x.NotEqual(y)
		g.Equal[T](ctx, y, x)
	case 10:
		op = "Reduced"
		if r*k > 64 {
			c.Trivial()
			break
		}
		reducedOf(x)
	case 11:
		op = "Symmetric"
		symmetric.Symmetric(x)
	case 12:
		op = "SkewSymmetric"
		skewsymmetric.SkewSymmetric(x)
	case 13:
		op = "Strassen"
		if r == k {
			strassen.MultiplyCrossoverPoint(ctx, x, y, 1+c.n(4))
		}
	case 14:
		op = "Search"
		if r == k && r > 0 {
			calls := 0
			stop := c.n(r + 1)
			breadthfirst.Search(ctx, x, c.n(r), func(v g.Vector[T]) bool { calls++; return calls > stop })
		}
	default:
		op = "reads"
		for n := 0; n < 30 && r*k > 0; n++ {
			i, j := c.n(r), c.n(k)
			switch c.n(8) {
			case 0:
				x.At(i, j)
			case 1:
				x.Element(i, j)
			case 2:
				x.RowsAt(i)
			case 3:
				x.ColumnsAt(j)
			case 4:
				x.RowsAtToArray(i)
			case 5:
				x.Copy()
				x.CopyLogical()
			case 6:
				for e := x.Enumerate(); e.HasNext(); {
					e.Next()
				}
			default:
				x.Values()
				x.Size()
				if v, ok := x.(g.Vector[T]); ok {
					v.AtVec(i)
					v.Length()
				}
			}
		}
	}
	c.Note("%s of %s[%s] %v and %s %v", op, kindName[kind], tname[T](), a, kindName[k2], b)
	c.Sig(op)
	c.Count("op "+op, 1)
	wx.check(c, op)
	wy.check(c, op)
	want[T](c, "C14/content", x, a)
	want[T](c, "C14/content", y, b)
}

// reducedOf runs the echelon reduction, which divides: integer types may
// divide by zero after rounding, which is not what is watched here.
func reducedOf[T Num](x g.Matrix[T]) {
	if isFloat[T]() {
		reduced.Reduced(x)
	}
}

// watchMask photographs a mask that is a matrix.
func watchMask(m g.Mask) func(c *Case, op string) {
	switch x := m.(type) {
	case g.Matrix[float64]:
		w := watch[float64]("mask", x)
		return w.check
	case g.Matrix[uint8]:
		w := watch[uint8]("mask", x)
		return w.check
	case g.Matrix[int64]:
		w := watch[int64]("mask", x)
		return w.check
	case g.Matrix[int]:
		w := watch[int]("mask", x)
		return w.check
	}
	return func(*Case, string) {}
}

func c14Rune(c *Case) {
	c.zero = false
	ctx := c.Ctx()
	r, k := c.dim(8), c.dim(8)
	mk := func() *g.DenseMatrix[rune] {
		x := g.NewDenseMatrix[rune](r, k)
		for i := 0; i < r; i++ {
			for j := 0; j < k; j++ {
				x.Set(i, j, rune('a'+c.n(3)))
			}
		}
		return x
	}
	x, y := mk(), mk()
	wx, wy := watch[rune]("input", x), watch[rune]("second input", y)
	c.Note("rune matrices %v %v", wx.s.cells, wy.s.cells)
	c.Sig("rune", r, k, wx.s.cells, wy.s.cells)
	op := ""
	what := c.n(4)
	if c.slow { // sorting takes a pass for every pair of lines
		what = 2 + c.n(2)
	}
	switch what {
	case 0:
		op = "BubbleRow"
		sort.BubbleRow(ctx, x)
	case 1:
		op = "BubbleColumns"
		sort.BubbleColumns(ctx, x)
	case 2:
		op = "Compare"
		g.Compare(ctx, x, y)
		g.Less(ctx, x, y)
		g.Greater(ctx, x, y)
		g.String(ctx, x)
	default:
		op = "Transpose"
		x.Transpose()
		x.CopyLogical()
		x.Equal(y)
	}
	c.Count("op "+op, 1)
	wx.check(c, op)
	wy.check(c, op)
}
