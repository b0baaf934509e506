//go:build all || c17

package main

import (
	"fmt"
	"math/rand/v2"
	"runtime"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
)

func init() {
	register("C17", 20800, 208000, "a case is one input matrix or vector reduced in several ways (default, collecting, minimum, product, maximum per column), often by several goroutines at once and with delays inside the monoid and the iteration; distinct by format, type, content and mask", perType(c17T[int], c17T[int8], c17T[int16], c17T[int32], c17T[int64], c17T[uint], c17T[uint8], c17T[uint16], c17T[uint32], c17T[uint64], c17T[uintptr], c17T[float32], c17T[float64]))
}

type bag[T Num] map[T]int

func (b bag[T]) diff(o bag[T]) string {
	for v, n := range b {
		if o[v] != n {
			return fmt.Sprintf("%v combined %d times, want %d", v, n, o[v])
		}
	}
	for v, n := range o {
		if b[v] != n {
			return fmt.Sprintf("%v combined %d times, want %d", v, b[v], n)
		}
	}
	return ""
}

// slowly delays inside a monoid's operator, on its own generator.
func slowly(c *Case) func() {
	if c.p(0.5) {
		return func() {}
	}
	r := rand.New(rand.NewPCG(c.R.Uint64(), 7))
	return func() {
		if r.IntN(4) == 0 {
			for i := r.IntN(20); i >= 0; i-- {
				runtime.Gosched()
			}
		}
	}
}

// c17Repeat: with numbers that are rounded the result is one of many, but the
// same every time.
func c17Repeat[T Num](c *Case) {
	r, k := c.dim(30), c.dim(12)
	kind := c.kind(k, true)
	a := genRef(c, r, k, func() T { return T(c.R.NormFloat64() * 1000) })
	x := build(c, kind, a)
	c.Note("repeated reductions of %s[%s] %v", kindName[kind], tname[T](), a)
	c.Sig("repeated", kind, tname[T](), r, k, a.D)
	mon := binaryop.NewMonoID(T(1), binaryop.Addition[T]())
	sums, cols := make([]T, 6), make([]g.Vector[T], 6)
	for from := 0; from < 6; from += 3 {
		c.parallel(3, func(c *Case, i int) { // at once, then once more
			sums[from+i] = g.ReduceMatrixToScalar[T](c.Ctx(), x, nil)
			cols[from+i] = g.ReduceMatrixToVectorWithMonoID[T](c.Ctx(), x, mon, nil)
		})
	}
	for i := range sums {
		if !same(sums[i], sums[0]) {
			c.Fail("C17/repeated", "the same reduction by addition gave %v and %v", sums[0], sums[i])
		}
		for j := 0; j < k; j++ {
			if !same(cols[i].AtVec(j), cols[0].AtVec(j)) {
				c.Fail("C17/repeated", "the same reduction of column %d by addition gave %v and %v", j, cols[0].AtVec(j), cols[i].AtVec(j))
			}
		}
	}
	c.Ev(6 * (k + 1))
	c.Count("repeated reductions of rounded numbers", 6)
	c.checkLeak("C17/leak")
}

func c17T[T Num](c *Case) {
	if vast[T](c, 18, 19) {
		return
	}
	if isFloat[T]() && c.p(0.2) {
		c17Repeat[T](c)
		return
	}
	r, k := c.dim(16), c.dim(16)
	if c.p(0.25) {
		k = 1
	}
	if c.p(0.03) {
		r = 1 + c.n(120)
	}
	kind := c.kind(k, true)
	distinct := c.p(0.5)
	next := 0
	a := genRef(c, r, k, func() T {
		if distinct {
			next++
			if bitsOf[T]() == 8 {
				return T(1 + next%120)
			}
			return T(next)
		}
		return mulVal[T](c)
	})
	x := build(c, kind, a)
	desc, mask, sel := "", g.Mask(nil), []bool(nil)
	if c.p(0.6) {
		desc, mask, sel = genMask(c, r, k)
	}
	c.Note("reduce %s[%s] %v %s", kindName[kind], tname[T](), a, desc)
	c.Sig(kind, tname[T](), r, k, a.D, desc)
	c.Count("input "+kindName[kind], 1)
	// the elements to be combined
	need := bag[T]{}
	var sum T
	for i, v := range a.D {
		if sel != nil && sel[i] || v == 0 && isSparseKind(kind) {
			continue
		}
		need[v]++
		sum += v
	}
	cmask, csel := g.Mask(nil), []bool(nil)
	cdesc := ""
	if c.p(0.3) {
		cdesc, cmask, csel = genMask(c, r, 1)
		c.Note("column %s", cdesc)
	}
	colNeed := func(j int) bag[T] {
		b := bag[T]{}
		for i := 0; i < r; i++ {
			v := a.At(i, j)
			if csel != nil && csel[i] || v == 0 && isSparseKind(kind) {
				continue
			}
			b[v]++
		}
		return b
	}
	n := 1
	if c.p(0.4) {
		n = 2 + c.n(3)
		c.Count("inputs reduced concurrently", 1)
	}
	shared := binaryop.NewMonoID(T(1), binaryop.Multiplication[T]())
	c.parallel(n, func(c *Case, _ int) {
		ctx := c.Ctx()
		y := x
		if u, ok := x.(*UserMatrix[T]); ok && c.p(0.7) {
			y = &UserMatrix[T]{Matrix: u.Matrix, onNext: slowly(c)}
		}
		asVec := func() (g.VectorLogial[T], bool) { v, ok := y.(g.VectorLogial[T]); return v, ok }
		for q := 0; q < 2; q++ {
			switch c.n(7) {
			case 0:
				var got T
				if v, ok := asVec(); ok {
					got = g.ReduceVectorToScalar[T](ctx, v, mask)
				} else {
					got = g.ReduceMatrixToScalar[T](ctx, y, mask)
				}
				c.Ev(1)
				c.Count("default sums", 1)
				if got != sum {
					c.Fail("C17/sum", "the reduction by addition is %v, want %v", got, sum)
				}
			case 1, 2:
				seen := bag[T]{}
				unit := small[T](c, 4)
				order := []T{}
				slow := slowly(c)
				mon := binaryop.NewMonoID(unit, binaryop.NewBinaryOp(func(p, v T) T {
					slow()
					seen[v]++
					order = append(order, v)
					return p + v
				}))
				var got T
				if v, ok := asVec(); ok {
					got = g.ReduceVectorToScalarWithMonoID[T](ctx, v, mon, mask)
				} else {
					got = g.ReduceMatrixToScalarWithMonoID[T](ctx, y, mon, mask)
				}
				c.Ev(len(order) + 1)
				c.Count("elements seen by a collecting monoid", len(order))
				if d := seen.diff(need); d != "" {
					c.Fail("C17/exactly-once", "%s; combined %v", d, order)
				}
				if got != unit+sum {
					c.Fail("C17/result", "the reduction from %v is %v, want %v", unit, got, unit+sum)
				}
			case 3:
				want := T(1)
				for v, m := range need {
					for ; m > 0; m-- {
						if isFloat[T]() && v != 0 {
							continue // signs only: the magnitude would be rounded
						}
						want *= v
					}
				}
				if isFloat[T]() {
					sg := binaryop.NewMonoID(T(1), binaryop.NewBinaryOp(func(p, v T) T {
						if v == 0 {
							return 0
						}
						return p
					}))
					if got := g.ReduceMatrixToScalarWithMonoID[T](ctx, y, sg, mask); got != want {
						c.Fail("C17/product", "the all-nonzero reduction is %v, want %v", got, want)
					}
				} else if got := g.ReduceMatrixToScalarWithMonoID[T](ctx, y, shared, mask); got != want {
					c.Fail("C17/product", "the reduction by multiplication is %v, want %v", got, want)
				}
				c.Ev(1)
				c.Count("products", 1)
			case 4:
				want := maxOf[T]()
				for v := range need {
					want = min(want, v)
				}
				mon := binaryop.NewMonoID(maxOf[T](), binaryop.Minimum[T]())
				if got := g.ReduceMatrixToScalarWithMonoID[T](ctx, y, mon, mask); got != want {
					c.Fail("C17/minimum", "the reduction by minimum is %v, want %v", got, want)
				}
				c.Ev(1)
				c.Count("minima", 1)
			case 5:
				v := g.ReduceMatrixToVector[T](ctx, y)
				if v.Length() != k || v.Rows() != k {
					c.Fail("C17/vector-length", "the reduction to a vector has length %d, want %d", v.Length(), k)
				}
				for j := 0; j < k; j++ {
					want := T(0)
					for i := 0; i < r; i++ {
						want = max(want, a.At(i, j))
					}
					if got := v.AtVec(j); got != want {
						c.Fail("C17/vector", "the maximum from zero of column %d is %v, want %v", j, got, want)
					}
				}
				c.Ev(k)
				c.Count("columns reduced by default", k)
			default:
				unit := small[T](c, 3)
				var cols []bag[T]
				slow := slowly(c)
				all := bag[T]{}
				mon := binaryop.NewMonoID(unit, binaryop.NewBinaryOp(func(p, v T) T {
					slow()
					all[v]++
					return p + v
				}))
				v := g.ReduceMatrixToVectorWithMonoID[T](ctx, y, mon, cmask)
				if v.Length() != k {
					c.Fail("C17/vector-length", "the reduction to a vector has length %d, want %d", v.Length(), k)
				}
				tot := bag[T]{}
				for j := 0; j < k; j++ {
					b := colNeed(j)
					cols = append(cols, b)
					want := unit
					for e, m := range b {
						tot[e] += m
						for ; m > 0; m-- {
							want += e
						}
					}
					if got := v.AtVec(j); got != want {
						c.Fail("C17/vector", "the reduction of column %d from %v is %v, want %v", j, unit, got, want)
					}
				}
				if d := all.diff(tot); d != "" {
					c.Fail("C17/exactly-once", "reducing to a vector: %s", d)
				}
				c.Ev(2 * k)
				c.Count("columns reduced by a collecting monoid", k)
			}
		}
	})
	want[T](c, "C17/input-changed", x, a)
	c.checkLeak("C17/leak")
}
