//go:build all || c07 || c32

package main

import (
	g "github.com/rossmerr/graphblas"
)

func init() {
	register("C07", 124800, 2496000, "a case is one pair of matrices or vectors in independently chosen formats, equal or differing in shape or a few cells, compared both ways through the methods and functions; non-trivial if a non-zero is present; distinct by formats, type and contents", perType(c07T[int], c07T[int8], c07T[int16], c07T[int32], c07T[int64], c07T[uint], c07T[uint8], c07T[uint16], c07T[uint32], c07T[uint64], c07T[uintptr], c07T[float32], c07T[float64], c07Logical))
}

func c07T[T Num](c *Case) {
	if vast[T](c, 16) {
		return
	}
	r, k := c.dim(16), c.dim(16)
	if c.p(0.25) {
		k = 1
	}
	ref := genRef(c, r, k, func() T { return anyNZ[T](c, false) })
	other := ref.Clone()
	what := "same"
	form := c.n(9)
	if r*k == 0 && form < 7 {
		form = 0
	}
	switch form {
	case 0, 1, 2:
	case 3: // one cell differs
		j := c.n(r * k)
		other.D[j] += T(1 + c.n(3))
		what = "one cell"
	case 4: // one entry missing
		for n, j := range c.R.Perm(r * k) {
			if other.D[j] != 0 || n > 40 {
				other.D[j] = 0
				break
			}
		}
		what = "entry missing"
	case 5: // one extra entry
		for _, j := range c.R.Perm(r * k) {
			if other.D[j] == 0 {
				other.D[j] = smallNZ[T](c, 3)
				break
			}
		}
		what = "entry extra"
	case 6: // one entry moved (same count)
		p := c.R.Perm(r * k)
		for _, j := range p {
			if other.D[j] != 0 {
				l := p[c.n(len(p))]
				other.D[j], other.D[l] = other.D[l], other.D[j]
				break
			}
		}
		what = "entry moved"
	case 7: // different shape
		what = "shape"
		if c.p(0.4) {
			other = other.T()
		} else if c.p(0.5) {
			other = newRef[T](r+1, k)
			copy(other.D, ref.D)
		} else if r > 1 {
			other = &Ref[T]{r - 1, k, append([]T(nil), ref.D[:(r-1)*k]...)}
		}
	case 8:
		other = genRef(c, r, k, func() T { return anyNZ[T](c, false) })
		what = "unrelated"
	}
	k1, k2 := c.kind(ref.C, true), c.kind(other.C, true)
	a, b := build(c, k1, ref), build(c, k2, other)
	eq := ref.same(other)
	c.Note("%s %v against %s %v [%s] (%s)", kindName[k1], ref, kindName[k2], other, tname[T](), what)
	c.Sig(k1, k2, tname[T](), ref.R, ref.C, ref.D, other.R, other.C, other.D)
	c.Count("pair "+kindName[k1]+"/"+kindName[k2], 1)
	if eq {
		c.Count("equal pairs", 1)
	} else {
		c.Count("unequal pairs", 1)
	}
	if ref.NNZ()+other.NNZ() == 0 {
		c.Trivial()
	}
	c07Check[T](c, a, b, eq)
	c07Check[T](c, a, a, true)
	if !c.slow && (eq && c.p(0.06) || eq && c.thin > 0 && c.p(0.6)) {
		c07Sweep(c, a, b, ref, k2)
	}
}

// c07Sweep changes each cell of b on its own: places differ only there.
func c07Sweep[T Num](c *Case, a, b g.Matrix[T], ref *Ref[T], kind int) {
	ctx := c.Ctx()
	n := ref.R * ref.C
	for j := 0; j < n; j++ {
		r, k := j/ref.C, j%ref.C
		v := ref.D[j]
		x := v + 1
		if c.p(0.3) && v != 0 {
			x = 0
		}
		if x == v { // too large for one to count
			continue
		}
		b.Set(r, k, x)
		how, same := "", false
		switch c.n(4) {
		case 0:
			how, same = "a.Equal(b)", a.Equal(b)
		case 1:
			how, same = "b.Equal(a)", b.Equal(a)
		case 2:
			how, same = "Equal(a,b)", g.Equal[T](ctx, a, b)
		default:
			how, same = "NotEqual(b,a)", !g.NotEqual[T](ctx, b, a)
		}
		c.Ev(1)
		if same {
			c.Fail("C07/equal", "%s does not see that cell (%d,%d) is %v in one and %v in the other", how, r, k, v, x)
		}
		b.Set(r, k, v)
	}
	c.Count("cells changed one at a time", n)
	c07Check[T](c, a, b, true)
}

func c07Check[T Elem](c *Case, a, b g.MatrixLogical[T], eq bool) {
	ctx := c.Ctx()
	type q struct {
		name string
		got  bool
		want bool
	}
	for _, t := range []q{
		{"a.Equal(b)", a.Equal(b), eq}, {"b.Equal(a)", b.Equal(a), eq},
		{"a.NotEqual(b)", a.NotEqual(b), !eq}, {"b.NotEqual(a)", b.NotEqual(a), !eq},
		{"Equal(a,b)", g.Equal(ctx, a, b), eq}, {"Equal(b,a)", g.Equal(ctx, b, a), eq},
		{"NotEqual(a,b)", g.NotEqual(ctx, a, b), !eq},
		{"Equal(a,nil)", g.Equal(ctx, a, nil), false}, {"Equal(nil,a)", g.Equal(ctx, nil, a), false},
		{"NotEqual(nil,a)", g.NotEqual(ctx, nil, a), true},
		{"Equal(nil,nil)", g.Equal[T](ctx, nil, nil), true},
		{"NotEqual(nil,nil)", g.NotEqual[T](ctx, nil, nil), false},
	} {
		c.Ev(1)
		if t.got != t.want {
			c.Fail("C07/equal", "%s is %v, want %v", t.name, t.got, t.want)
		}
	}
}

func c07Logical(c *Case) {
	c.zero = false
	r, k := c.dim(8), c.dim(8)
	mk := func(ref *Ref[bool]) g.MatrixLogical[bool] {
		var x g.MatrixLogical[bool] = g.NewDenseMatrix[bool](ref.R, ref.C)
		if ref.C == 1 && c.p(0.5) {
			x = g.NewDenseVector[bool](ref.R)
		}
		for i, v := range ref.D {
			x.Set(i/ref.C, i%ref.C, v)
		}
		return x
	}
	a := newRef[bool](r, k)
	for i := range a.D {
		a.D[i] = c.p(0.5)
	}
	b := a.Clone()
	if c.p(0.5) {
		b.D[c.n(len(b.D))] = c.p(0.5)
	}
	if c.p(0.2) {
		b = b.T()
	}
	c.Note("logical %v against %v", a, b)
	c.Sig("bool", a.R, a.C, a.D, b.R, b.D)
	c07Check(c, mk(a), mk(b), a.same(b))
}
