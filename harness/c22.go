//go:build all || c22 || c32

package main

import (
	"math"

	"github.com/rossmerr/graphblas/math/skewsymmetric"
	"github.com/rossmerr/graphblas/math/symmetric"
)

func init() {
	register("C22", 312000, 6240000, "a case is one matrix, usually symmetric or skew-symmetric by construction or one element away from it, put to both predicates; distinct by format, type, shape and content", perType(c22T[int], c22T[int8], c22T[int16], c22T[int32], c22T[int64], c22T[uint], c22T[uint8], c22T[uint16], c22T[uint32], c22T[uint64], c22T[uintptr], c22T[float32], c22T[float64]))
}

func c22T[T Num](c *Case) {
	n := c.dim(14)
	r, k := n, n
	if c.p(0.12) {
		k = bumpDim(c, r)
	}
	a := genRef(c, r, k, func() T { return anyNZ[T](c, true) })
	form := c.n(6)
	if r == k {
		for i := 0; i < n; i++ {
			for j := 0; j <= i; j++ {
				v := a.At(i, j)
				switch form {
				case 0, 1:
					a.Set(j, i, v)
				case 2, 3:
					if i == j {
						v = 0
						if c.p(0.05) && !isFloat[T]() && isSigned[T]() {
							v = minOf[T]() // its own negative
						}
					}
					a.Set(i, j, v)
					a.Set(j, i, -v)
				case 4:
					if v != 0 && c.p(0.9) {
						a.Set(j, i, v)
					}
				}
			}
		}
		if form < 5 && n > 0 && c.p(0.6) { // break it at one element
			i, j := c.n(n), c.n(n)
			if c.p(0.3) {
				i, j = n-1, c.n(n)
			}
			switch c.n(6) {
			case 5: // by as little as the type allows
				v := a.At(i, j)
				if isFloat[T]() && v != 0 && v-v == 0 {
					if bitsOf[T]() == 32 {
						v = T(math.Nextafter32(float32(v), 0))
					} else {
						v = T(math.Nextafter(float64(v), 0))
					}
				} else {
					v++
				}
				a.Set(i, j, v)
			case 0:
				a.Set(i, j, 0)
			case 1:
				a.Set(i, j, a.At(i, j)+1)
			case 2:
				a.Set(i, j, -a.At(i, j))
			case 3:
				v := a.At(i, j)
				a.Set(i, j, 0)
				a.Set(c.n(n), c.n(n), v) // same count of elements
			default:
				if isFloat[T]() && c.p(0.3) {
					q := math.NaN()
					a.Set(i, j, T(q))
				} else {
					a.Set(i, j, anyNZ[T](c, true))
				}
			}
		}
	}
	sym, skew, nan := r == k, r == k, false
	for i := 0; i < r && r == k; i++ {
		for j := 0; j < k; j++ {
			if v := a.At(i, j); i != j || v == v { // a NaN on the diagonal may count as its own mirror image or not
				sym = sym && v == a.At(j, i)
			} else {
				nan = true
			}
			skew = skew && a.At(i, j) == -a.At(j, i)
		}
	}
	kind := c.kind(k, true)
	x := build(c, kind, a)
	c.Note("%s[%s] %v", kindName[kind], tname[T](), a)
	c.Sig(kind, tname[T](), r, k, a.D)
	c.Ev(2)
	c.Count("symmetric inputs", bint(sym))
	c.Count("skew-symmetric inputs", bint(skew))
	c.Count("square inputs that are neither", bint(!sym && !skew && r == k))
	c.Count("input "+kindName[kind], 1)
	if got := symmetric.Symmetric(x); got != sym && !(nan && sym) {
		c.Report("C22/symmetric", "symmetric is %v, want %v for %v", got, sym, a)
	}
	if got := skewsymmetric.SkewSymmetric(x); got != skew {
		c.Report("C22/skew", "skew-symmetric is %v, want %v for %v", got, skew, a)
	}
	want[T](c, "C22/input-changed", x, a)
	if r != k || nan || c.slow || !sym && !skew || !c.p(0.03) && !(c.big && c.p(0.3)) {
		return
	}
	// each element on its own breaks it
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if n > 16 && c.n(n*n) > 20*16/min(n, 100)+2 {
				continue
			}
			v := a.At(i, j)
			y := v + 1
			if y == v {
				continue
			}
			x.Set(i, j, y)
			c.Ev(2)
			wantSym, wantSkew := sym && i == j, skew && y == -a.At(j, i)
			if i == j {
				wantSkew = skew && y == -y
			}
			if got := symmetric.Symmetric(x); sym && got != wantSym {
				c.Fail("C22/symmetric", "symmetric is %v with the element (%d,%d) set to %v in %v", got, i, j, y, a)
			}
			if got := skewsymmetric.SkewSymmetric(x); skew && got != wantSkew {
				c.Fail("C22/skew", "skew-symmetric is %v with the element (%d,%d) set to %v in %v", got, i, j, y, a)
			}
			x.Set(i, j, v)
		}
	}
	c.Count("elements broken one at a time", n*n)
}

func bint(b bool) int {
	if b {
		return 1
	}
	return 0
}

func bumpDim(c *Case, n int) int {
	if n > 1 && c.p(0.5) {
		return 1 + c.n(n-1)
	}
	return n + 1 + c.n(3)
}
