//go:build all || c21 || c32

package main

import (
	"math"
	"math/big"
	"slices"

	"github.com/rossmerr/graphblas/math/reduced"
)

func init() {
	register("C21", 120000, 2400000, "a case is one floating-point matrix whose echelon form is known in rational arithmetic: either one whose whole reduction is exact in binary (no room for rounding; includes rank-deficient ones, zero rows and columns, row exchanges), or a well-conditioned one of full rank (compared up to rounding); distinct by shape, format, type and content", perType(c21T[float64], c21T[float32]))
}

// rref is the reduced row echelon form in rational arithmetic, with the facts
// that decide how far floating point can be trusted on the same input.
type rref struct {
	m        [][]*big.Rat
	rank     int
	pivots   []int
	exact    bool    // every value met is a short binary fraction
	searched bool    // some pivot was not in the first row looked at
	minPivot float64 // smallest pivot
	growth   float64 // biggest value met
}

func ratOf(v float64) *big.Rat { return new(big.Rat).SetFloat64(v) }

func short(x *big.Rat) bool {
	d := x.Denom()
	if d.BitLen() > 8 || new(big.Int).And(d, new(big.Int).Sub(d, big.NewInt(1))).Sign() != 0 {
		return false
	}
	return x.Num().BitLen() < 15
}

func echelon(a [][]float64) *rref {
	e := &rref{exact: true, minPivot: math.Inf(1)}
	note := func(x *big.Rat) *big.Rat {
		f, _ := x.Float64()
		e.growth = math.Max(e.growth, math.Abs(f))
		e.exact = e.exact && short(x)
		return x
	}
	for _, row := range a {
		var o []*big.Rat
		for _, v := range row {
			o = append(o, note(ratOf(v)))
		}
		e.m = append(e.m, o)
	}
	m := e.m
	rows, cols := len(m), len(m[0])
	r := 0
	for lead := 0; lead < cols && r < rows; lead++ {
		p := r
		for p < rows && m[p][lead].Sign() == 0 {
			p++
		}
		if p != r {
			e.searched = true
		}
		if p == rows {
			continue
		}
		m[p], m[r] = m[r], m[p]
		pv := new(big.Rat).Set(m[r][lead])
		f, _ := pv.Float64()
		e.minPivot = math.Min(e.minPivot, math.Abs(f))
		inv := note(new(big.Rat).Inv(pv))
		for c := range m[r] {
			m[r][c] = note(new(big.Rat).Mul(m[r][c], inv))
		}
		for i := range m {
			if i == r || m[i][lead].Sign() == 0 {
				continue
			}
			k := m[i][lead]
			row := make([]*big.Rat, cols)
			for c := range row {
				if m[r][c].Sign() == 0 {
					row[c] = m[i][c]
					continue
				}
				t := note(new(big.Rat).Mul(m[r][c], k))
				row[c] = note(new(big.Rat).Sub(m[i][c], t))
			}
			m[i] = row
		}
		e.pivots = append(e.pivots, lead)
		r++
	}
	e.rank = r
	return e
}

func c21T[T float32 | float64](c *Case) {
	var a [][]float64
	var e *rref
	exact := c.p(0.65)
	large := c.Prop == "C21" && c.Idx%400 < 2 // one of each type
	if large {
		exact = true
		c.Count("matrices of more than seven lines", 1)
	}
	for try := 0; ; try++ {
		lim := 7
		if try > 20 {
			lim = 4
		}
		r, k := 1+c.n(lim), 1+c.n(lim)
		switch c.n(8) {
		case 0:
			k = 1
		case 1:
			r = 1
		case 2:
			k = r
		}
		if large {
			r, k = 8+c.n(30), 8+c.n(30)
			if c.p(0.4) {
				r, k = 30+c.n(100), 30+c.n(100)
			}
		}
		if exact {
			a = c21Exact(c, r, k)
		} else {
			a = make([][]float64, r)
			for i := range a {
				a[i] = make([]float64, k)
				for j := range a[i] {
					a[i][j] = float64(c.n(15) - 7)
					if c.p(0.2) {
						a[i][j] /= 4
					}
					if i == j && c.p(0.8) {
						a[i][j] += float64(pick(c, 9, -9, 14))
					}
				}
			}
		}
		e = echelon(a)
		if exact && e.exact {
			break
		}
		if !exact && !e.searched && e.rank == min(r, k) && e.minPivot > 0.2 && e.growth < 300 {
			break
		}
		if try > 200 {
			c.Trivial()
			return
		}
	}
	r, k := len(a), len(a[0])
	ref := newRef[T](r, k)
	// Multiplying rows by powers of two changes no rounding and leaves the
	// echelon form as it is.
	top := 400
	if bitsOf[T]() == 32 {
		top = 50
	}
	exp := make([]int, r)
	switch c.n(8) {
	case 0, 1: // the whole matrix
		s := c.n(2*top+1) - top
		for i := range exp {
			exp[i] = s
		}
		c.Count("scaled matrices", 1)
	case 2: // each row its own
		for i := range exp {
			exp[i] = c.n(81) - 40
		}
		c.Count("scaled rows", 1)
	}
	for i := range a {
		for j, v := range a[i] {
			ref.Set(i, j, T(math.Ldexp(v, exp[i])))
		}
	}
	kind := c.kind(k, true)
	x := build(c, kind, ref)
	c.Note("echelon form (exact %v) of %s[%s] %v", exact, kindName[kind], tname[T](), ref)
	c.Sig(kind, tname[T](), r, k, ref.D)
	y := reduced.Reduced[T](x)
	if y.Rows() != r || y.Columns() != k {
		c.Fail("C21/shape", "the echelon form of a %dx%d matrix has shape %dx%d", r, k, y.Rows(), y.Columns())
	}
	tol := 1e-8
	if bitsOf[T]() == 32 {
		tol = 2e-2
	}
	if exact {
		tol /= 100
	}
	got := newRef[T](r, k)
	for i := 0; i < r; i++ {
		for j := 0; j < k; j++ {
			got.Set(i, j, y.At(i, j))
		}
	}
	for i := 0; i < r; i++ {
		for j := 0; j < k; j++ {
			w, _ := e.m[i][j].Float64()
			v := float64(got.At(i, j))
			unit := math.Max(1, math.Abs(w))
			if !exact && i >= e.rank { // what rounding leaves of a row keeps the row's scale
				unit = math.Max(1, math.Ldexp(1, slices.Max(exp)))
			}
			if d := math.Abs(v - w); !(d <= tol*unit) {
				c.Fail("C21/cell", "cell (%d,%d) of the echelon form is %v, want %v; got %v of %v", i, j, v, w, got, ref)
			}
		}
	}
	c.Ev(r * k)
	want[T](c, "C21/result-inconsistent", y, got)
	want[T](c, "C21/input-changed", x, ref)
	if y == x {
		c.Fail("C21/input-changed", "the echelon form is the input itself")
	}
	c.Count("rank-deficient inputs", b2i(e.rank < min(r, k)))
	c.Count("inputs needing row exchanges", b2i(e.searched))
	c.Count("exact cases", b2i(exact))
	c.Count("input "+kindName[kind], 1)
	switch {
	case r < k:
		c.Count("wide", 1)
	case r > k:
		c.Count("tall", 1)
	default:
		c.Count("square", 1)
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// c21Exact makes a matrix from an echelon form of any rank by reversible row
// operations with short binary factors, or at random.
func c21Exact(c *Case, r, k int) [][]float64 {
	a := make([][]float64, r)
	for i := range a {
		a[i] = make([]float64, k)
	}
	if max(r, k) < 8 && c.p(0.3) {
		p := c.pattern(r, k)
		for i, o := range p {
			if o {
				a[i/k][i%k] = pick(c, 1., -1, 2, -2, 1, 4, 0.5)
			}
		}
		return a
	}
	rank := c.n(min(r, k) + 1)
	cols := c.R.Perm(k)[:rank]
	piv := make([]bool, k)
	for _, j := range cols {
		piv[j] = true
	}
	i := 0
	for j := 0; j < k; j++ {
		if piv[j] {
			for l := j; l < k; l++ {
				if l == j {
					a[i][l] = 1
				} else if !piv[l] && c.p(0.7) {
					a[i][l] = float64(c.n(5) - 2)
				}
			}
			i++
		}
	}
	ops := 3 * r
	if max(r, k) > 7 { // values stay short
		ops = r
		if rank < min(r, k)/2 && c.p(0.5) { // rather more than half of the rank there can be
			return c21Exact(c, r, k)
		}
		for l := range a { // fewer elements beside the pivots
			for j := range a[l] {
				if a[l][j] != 1 && c.p(0.7) {
					a[l][j] = 0
				}
			}
		}
	}
	for n := c.n(ops + 1); n > 0; n-- {
		x, y := c.n(r), c.n(r)
		switch c.n(4) {
		case 0:
			a[x], a[y] = a[y], a[x]
		case 1:
			f := pick(c, -1., 2, 0.5, -2, 4)
			for j := range a[x] {
				a[x][j] *= f
			}
		default:
			if x != y {
				f := pick(c, 1., -1, 2, -2)
				for j := range a[x] {
					a[x][j] += f * a[y][j]
				}
			}
		}
	}
	return a
}
