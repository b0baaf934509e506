//go:build all || c19

package main

import (
	"fmt"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/math/reduced"
	"github.com/rossmerr/graphblas/math/skewsymmetric"
	"github.com/rossmerr/graphblas/math/strassen"
	"github.com/rossmerr/graphblas/math/symmetric"
	gsort "github.com/rossmerr/graphblas/sort"
	"github.com/rossmerr/graphblas/unaryop"
)

func init() {
	register("C19", 26000, 260000, "a case shares a few matrices of one type, and operators, masks and monoids, between 2 to 6 goroutines that read them and use them as operands, each also writing matrices of its own; each answer is compared with the reference model's; distinct by formats, type and contents", perType(c19T[int], c19T[int8], c19T[int16], c19T[int32], c19T[int64], c19T[uint], c19T[uint8], c19T[uint16], c19T[uint32], c19T[uint64], c19T[uintptr], c19T[float32], c19T[float64], c19Rune))
}

func c19T[T Num](c *Case) {
	c.area = 400 // no size above 35: every answer is computed under the race detector
	r, k := c.length(8), c.length(8)
	if c.p(0.5) {
		k = r
	} else if c.p(0.4) {
		k = 1
	}
	var refs []*Ref[T]
	var ms []g.Matrix[T]
	var kinds []int
	for i := 0; i < 3; i++ {
		a := genRef(c, r, k, func() T { return mulVal[T](c) })
		if i > 0 && c.p(0.3) {
			a = refs[0].Clone()
		}
		kd := c.kind(k, true)
		refs, kinds, ms = append(refs, a), append(kinds, kd), append(ms, build(c, kd, a))
		c.Note("%s[%s] %v", kindName[kd], tname[T](), a)
		c.Sig(kd, tname[T](), r, k, a.D)
		c.Count("shared "+kindName[kd], 1)
	}
	// a shared transposed operand for products
	tr := refs[1].T()
	tk := c.kind(r, true)
	tm := build(c, tk, tr)
	prod := mulRef(refs[0], tr)
	desc, mask, sel := genMask(c, r, k)
	c.Note("%s", desc)
	c.Sig(desc)
	mon := binaryop.NewMonoID(T(0), binaryop.Addition[T]())
	_, u := unaryFn[T](c)
	n := 2 + c.n(5)
	focus := c.n(3) // some cases hammer a single kind of call
	what := c.n(24)
	var before []*snap[T]
	for _, m := range ms {
		before = append(before, takeSnap[T](m))
	}
	c.parallel(n, func(c *Case, t int) {
		ctx := c.Ctx()
		for q := 0; q < 8; q++ {
			i := c.n(3)
			a, x := refs[i], ms[i]
			j := c.n(3)
			b, y := refs[j], ms[j]
			p, s := c.n(r), c.n(k)
			op := c.n(24)
			if focus == 0 {
				op = what
			}
			fresh := func() g.Matrix[T] { return empty[T](pick(c, KDense, KCSR, KCSC), r, k) }
			masked := func(f func(e int) T, zero func(e int) bool) *Ref[T] {
				o := newRef[T](r, k)
				for e := range o.D {
					if !(sel != nil && sel[e]) && !zero(e) {
						o.D[e] = f(e)
					}
				}
				return o
			}
			never := func(int) bool { return false }
			switch op {
			case 0:
				if v := x.At(p, s); v != a.At(p, s) {
					c.Fail("C19/answer", "At(%d,%d) is %v, want %v", p, s, v, a.At(p, s))
				}
			case 1:
				if v := x.Element(p, s); v != (a.At(p, s) > 0) {
					c.Fail("C19/answer", "Element(%d,%d) is %v with %v there", p, s, v, a.At(p, s))
				}
			case 2:
				v := x.RowsAt(p)
				w := x.RowsAtToArray(p)
				for e := 0; e < k; e++ {
					if v.AtVec(e) != a.At(p, e) || w[e] != a.At(p, e) {
						c.Fail("C19/answer", "row %d column %d is %v and %v, want %v", p, e, v.AtVec(e), w[e], a.At(p, e))
					}
				}
			case 3:
				v := x.ColumnsAt(s)
				for e := 0; e < r; e++ {
					if v.AtVec(e) != a.At(e, s) {
						c.Fail("C19/answer", "column %d row %d is %v, want %v", s, e, v.AtVec(e), a.At(e, s))
					}
				}
			case 4:
				if x.Values() != before[i].values || x.Size() != r*k || x.Rows() != r || x.Columns() != k {
					c.Fail("C19/answer", "counts changed")
				}
			case 5:
				want[T](c, "C19/answer", x, a)
			case 6:
				z := x.Copy()
				want[T](c, "C19/answer", z, a)
				z.Set(p, s, 1)
				z.Clear()
			case 7:
				z := x.CopyLogical()
				want[T](c, "C19/answer", z, a)
				z.Set(p, s, 1)
			case 8:
				eq := a.same(b)
				if x.Equal(y) != eq || y.NotEqual(x) == eq {
					c.Fail("C19/answer", "equality of %v and %v is not %v", a, b, eq)
				}
			case 9:
				want[T](c, "C19/answer", x.Add(y), zipRef(a, b, func(x, y T) T { return x + y }))
			case 10:
				want[T](c, "C19/answer", x.Subtract(y), zipRef(a, b, func(x, y T) T { return x - y }))
			case 11:
				want[T](c, "C19/answer", x.Scalar(3), mapRef(a, func(x T) T { return 3 * x }))
			case 12:
				want[T](c, "C19/answer", x.Negative(), mapRef(a, func(x T) T { return -x }))
			case 13:
				want[T](c, "C19/answer", x.Transpose(), a.T())
			case 14:
				want[T](c, "C19/answer", ms[0].Multiply(tm), prod)
			case 15:
				z := empty[T](pick(c, KDense, KCSR, KCSC), r, r)
				g.MatrixMatrixMultiply[T](ctx, ms[0], tm, nil, z)
				want[T](c, "C19/answer", z, prod)
			case 16:
				z := fresh()
				g.Add[T](ctx, x, y, mask, z)
				want[T](c, "C19/answer", z, masked(func(e int) T { return a.D[e] + b.D[e] }, never))
			case 17:
				z := fresh()
				if c.p(0.5) {
					g.ElementWiseMatrixMultiply[T](ctx, x, y, mask, z)
					want[T](c, "C19/answer", z, masked(func(e int) T { return a.D[e] }, func(e int) bool { return a.D[e] != b.D[e] }))
				} else {
					g.Apply[T](ctx, x, mask, u, z)
					want[T](c, "C19/answer", z, masked(func(e int) T { return u.Apply(a.D[e]) }, func(e int) bool { return a.D[e] == 0 }))
				}
			case 18:
				z := fresh()
				g.Negative[T](ctx, x, mask, z)
				want[T](c, "C19/answer", z, masked(func(e int) T { return -a.D[e] }, never))
				z = empty[T](pick(c, KDense, KCSR, KCSC), k, r)
				g.Transpose[T](ctx, x, nil, z)
				want[T](c, "C19/answer", z, a.T())
			case 19:
				var sum T
				for e, v := range a.D {
					if !(sel != nil && sel[e]) {
						sum += v
					}
				}
				if got := g.ReduceMatrixToScalarWithMonoID[T](ctx, x, mon, mask); got != sum {
					c.Fail("C19/answer", "the reduction is %v, want %v", got, sum)
				}
				v := g.ReduceMatrixToVector[T](ctx, x)
				for e := 0; e < k; e++ {
					w := T(0)
					for l := 0; l < r; l++ {
						w = max(w, a.At(l, e))
					}
					if v.AtVec(e) != w {
						c.Fail("C19/answer", "the maximum of column %d is %v, want %v", e, v.AtVec(e), w)
					}
				}
			case 20:
				if r == k {
					want[T](c, "C19/answer", strassen.MultiplyCrossoverPoint(ctx, x, y, 2), mulRef(a, b))
				}
			case 21:
				if r == k {
					if got := symmetric.Symmetric(x); got != a.same(a.T()) {
						c.Fail("C19/answer", "symmetric is %v for %v", got, a)
					}
					if got := skewsymmetric.SkewSymmetric(x); got != a.same(mapRef(a.T(), func(v T) T { return -v })) {
						c.Fail("C19/answer", "skew-symmetric is %v for %v", got, a)
					}
				}
				if isFloat[T]() && r*k < 30 {
					reduced.Reduced(x)
				}
			case 22:
				if r == k {
					calls := 0
					breadthfirst.Search(ctx, x, p, func(v g.Vector[T]) bool { calls++; return false })
					if calls != r {
						c.Fail("C19/answer", "the search called back %d times, want %d", calls, r)
					}
				}
			default: // a private matrix, of this and of another type, written meanwhile
				kd := c.kind(k, false)
				o := genRef(c, r, k, func() T { return mulVal[T](c) })
				z := build(c, kd, o)
				g.Apply[T](ctx, z, nil, unaryop.NewUnaryOp(func(v T) T { return v + v }), z)
				for it := z.Map(); it.HasNext(); {
					it.Map(func(_, _ int, v T) T { return v * 3 })
				}
				want[T](c, "C19/private", z, mapRef(o, func(v T) T { return (v + v) * 3 }))
				f := genRef(c, r, k, func() float32 { return smallNZ[float32](c, 5) })
				want[float32](c, "C19/private", build(c, kd, f).Scalar(2), mapRef(f, func(v float32) float32 { return 2 * v }))
				g.IsSparseMatrix[T](z)
			}
			c.Ev(1)
			c.Count(fmt.Sprintf("call %02d", op), 1)
		}
	})
	for i, m := range ms {
		if d := before[i].diff(takeSnap[T](m)); d != "" {
			c.Fail("C19/changed", "concurrent readers changed a matrix: %s", d)
		}
	}
	want[T](c, "C19/changed", tm, tr)
}

func c19Rune(c *Case) {
	r, k := 1+c.n(5), 1+c.n(5)
	x := g.NewDenseMatrix[rune](r, k)
	y := g.NewDenseMatrix[rune](r, k)
	b := g.NewDenseMatrix[bool](r, k)
	for i := 0; i < r; i++ {
		for j := 0; j < k; j++ {
			x.Set(i, j, rune('a'+c.n(3)))
			y.Set(i, j, rune('a'+c.n(3)))
			b.Set(i, j, c.p(0.5))
		}
	}
	ctx := c.Ctx()
	all := func(m g.MatrixLogical[rune]) string {
		s := ""
		for i := 0; i < m.Rows(); i++ {
			for j := 0; j < m.Columns(); j++ {
				s += string(m.At(i, j))
			}
		}
		return s
	}
	xs, ys := all(x), all(y)
	c.Note("character matrices %dx%d %q and %q", r, k, xs, ys)
	c.Sig("rune", r, k, xs, ys)
	rows, cols := all(gsort.BubbleRow(ctx, x)), all(gsort.BubbleColumns(ctx, x))
	c.parallel(2+c.n(4), func(c *Case, _ int) {
		for q := 0; q < 6; q++ {
			c.Ev(1)
			ok := true
			switch c.n(7) {
			case 0:
				ok = all(gsort.BubbleRow(ctx, x)) == rows
			case 1:
				ok = all(gsort.BubbleColumns(ctx, x)) == cols
			case 2:
				cmp := g.Compare(ctx, x, y)
				ok = (cmp < 0) == (xs < ys) && (cmp > 0) == (xs > ys) && g.Less(ctx, x, y) == (xs < ys) && g.Greater(ctx, x, y) == (xs > ys)
			case 3:
				ok = g.String(ctx, x) == xs
			case 4:
				ok = x.Equal(y) == (xs == ys) && all(x.CopyLogical()) == xs && all(x.Transpose().Transpose()) == xs
			case 5:
				t := b.Transpose()
				for i := 0; i < r; i++ {
					ok = ok && t.At(0, i) == b.At(i, 0) && b.RowsAt(i).AtVec(0) == b.At(i, 0)
				}
				ok = ok && b.Equal(b.CopyLogical())
			default:
				ok = string(x.RowsAtToArray(0)) == xs[:k] && x.ColumnsAt(0).AtVec(0) == rune(xs[0])
			}
			if !ok {
				c.Fail("C19/answer", "a concurrent reader of a character matrix got another answer")
			}
		}
	})
}
