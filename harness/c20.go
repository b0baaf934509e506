//go:build all || c20

package main

import (
	"fmt"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/math/strassen"
)

func init() {
	register("C20", 9900, 99000, "a case is one fast product of two matrices of integers or exactly computed floating-point numbers of any shapes that fit, at a chosen or the default crossover, sometimes several at once, compared with the mathematical product; distinct by shapes, formats, type, crossover and contents", perType(c20T[int], c20T[int8], c20T[int16], c20T[int32], c20T[int64], c20T[uint], c20T[uint8], c20T[uint16], c20T[uint32], c20T[uint64], c20T[uintptr], c20T[float32], c20T[float64]))
}

func c20T[T Num](c *Case) {
	var m, l, n int
	c.area = 280 // no size above 50 here: the crossover may be 1
	switch c.n(10) {
	case 0, 1, 2: // squares that divide several times
		m = pick(c, 2, 4, 4, 8, 8, 12, 16, 20, 24)
		l, n = m, m
	case 3, 4: // any square
		m = c.length(20)
		l, n = m, m
	case 5: // even inner, other shapes around
		l = 2 * (1 + c.n(8))
		m, n = 1+c.n(16), 1+c.n(16)
	case 6: // one side differs by little
		l = 2 * (1 + c.n(8))
		m, n = l, l
		if c.p(0.5) {
			m += pick(c, -1, 1)
		} else {
			n += pick(c, -1, 1, 2)
		}
	case 7: // odd squares that do not divide, and those that do once
		m = pick(c, 3, 5, 6, 7, 9, 10, 11, 14, 15, 17, 18, 22)
		l, n = m, m
	default:
		m, l, n = c.dim(18), c.dim(18), c.dim(18)
	}
	big := c.Idx%300 == 7 || c.Tier == "thorough" && c.Idx%90 == 7
	cross := 0
	def := c.p(0.08)
	if big {
		m = pick(c, 66, 68, 70, 96, 128, 65, 64, 130)
		l, n = m, m
		if c.p(0.3) {
			n++
		}
		def = c.p(0.8)
		cross = pick(c, 16, 32, 33, 40, 64, 65)
	} else {
		switch c.n(6) {
		case 0:
			cross = pick(c, 0, -1, -5)
		case 1:
			cross = l - 1 + c.n(3)
		case 2:
			cross = 1 + c.n(30)
		default:
			cross = 1 + c.n(4)
		}
	}
	val := func() T { return mulVal[T](c) }
	if isFloat[T]() {
		val = func() T { return small[T](c, 2) } // exact at every step
		if c.p(0.4) {
			c20Repeat[T](c, m, l, n, cross, def)
			return
		}
	}
	a := genRef(c, m, l, val)
	b := genRef(c, l, n, val)
	ka, kb := c.kind(l, true), c.kind(n, true)
	x, y := build(c, ka, a), build(c, kb, b)
	if c.p(0.06) && m == l && l == n {
		b, y, kb = a, x, ka
	}
	c.Note("%dx%d times %dx%d [%s] %s %s crossover %d default %v: %v and %v", m, l, l, n, tname[T](), kindName[ka], kindName[kb], cross, def, a, b)
	c.Sig(tname[T](), m, l, n, ka, kb, cross, def, a.D, b.D)
	w := mulRef(a, b)
	threads := 1
	if c.p(0.15) && !big {
		threads = 2 + c.n(3)
	}
	c.parallel(threads, func(c *Case, _ int) {
		// delays inside the accesses of user formats disturb the order of
		// the sub-products
		x, y := x, y
		slow := func(m g.Matrix[T]) g.Matrix[T] {
			if u, ok := m.(*UserMatrix[T]); ok && threads == 1 {
				return &UserMatrix[T]{Matrix: u.Matrix, onRead: func(int, int) { c.yield() }}
			}
			return m
		}
		if m*l+l*n < 300 && cross >= l { // read by this goroutine only
			x, y = slow(x), slow(y)
		}
		var z g.Matrix[T]
		ctx := c.Ctx()
		if c.p(0.2) {
			ctx = g.NewContext(ctx, pick(c, g.Blocking, g.NonBlocking))
		}
		if def {
			z = strassen.Multiply(ctx, x, y)
		} else {
			z = strassen.MultiplyCrossoverPoint(ctx, x, y, cross)
		}
		want[T](c, "C20/product", z, w)
		if len(w.D) == 0 {
			return
		}
		z.Set(0, 0, 1) // the result is the caller's own
	})
	depth := 0
	if m == l && l == n {
		lim := cross
		if def {
			lim = 64
		}
		for s := l; s > lim && s >= 2 && s%2 == 0; s /= 2 {
			depth++
		}
	}
	c.Count(fmt.Sprintf("recursion depth %d", depth), 1)
	if threads > 1 {
		c.Count("concurrent fast products", threads)
	}
	want[T](c, "C20/operand-changed", x, a)
	want[T](c, "C20/operand-changed", y, b)
	c.checkLeak("C20/leak")
}

// c20Repeat: with numbers that are rounded the result is one of many, but the
// same every time.
func c20Repeat[T Num](c *Case, m, l, n, cross int, def bool) {
	val := func() T { return T(c.R.NormFloat64()) }
	a, b := genRef(c, m, l, val), genRef(c, l, n, val)
	ka, kb := c.kind(l, true), c.kind(n, true)
	c.Note("repeated %dx%d times %dx%d [%s] %s %s crossover %d default %v: %v and %v", m, l, l, n, tname[T](), kindName[ka], kindName[kb], cross, def, a, b)
	c.Sig("repeated", tname[T](), m, l, n, ka, kb, cross, def, a.D, b.D)
	x, y := build(c, ka, a), build(c, kb, b)
	var first *Ref[T]
	for i := 0; i < 3; i++ {
		var z g.Matrix[T]
		if def {
			z = strassen.Multiply(c.Ctx(), x, y)
		} else {
			z = strassen.MultiplyCrossoverPoint(c.Ctx(), x, y, cross)
		}
		got := newRef[T](z.Rows(), z.Columns())
		for j := range got.D {
			got.D[j] = z.At(j/got.C, j%got.C)
		}
		c.Ev(len(got.D))
		if first == nil {
			first = got
		} else if !first.same(got) {
			c.Fail("C20/repeated", "the same product computed again is %v, before %v", got, first)
		}
		if got.R != m || got.C != n {
			c.Fail("C20/product", "the product is %dx%d, want %dx%d", got.R, got.C, m, n)
		}
		c.yield()
	}
	c.Count("repeated products of rounded numbers", 1)
	c.checkLeak("C20/leak")
}
