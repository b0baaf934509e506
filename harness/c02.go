//go:build all || c02 || c32

package main

import (
	"math/rand/v2"

	g "github.com/rossmerr/graphblas"
)

func init() {
	register("C02", 46800, 936000, "a case is one write history on one dense or sparse vector (writes by index and by row/column, updates, maps, clears, resizes of dense vectors) checked against a plain slice after each step; distinct by format, type, length and operation sequence", perType(c02T[int], c02T[int8], c02T[int16], c02T[int32], c02T[int64], c02T[uint], c02T[uint8], c02T[uint16], c02T[uint32], c02T[uint64], c02T[uintptr], c02T[float32], c02T[float64], c02Bool))
}

func c02T[T Num](c *Case) {
	if vast[T](c, 4, 5, 7) {
		return
	}
	if n := c.marathon(); n > 0 {
		if c.p(0.5) {
			w := n &^ 255 // a run that is looked at after its end only, of every length about there
			what := c.R.Uint64()
			for n := w - 1; n <= w+2; n++ {
				c.R = rand.New(rand.NewPCG(what, 1))
				c02Marathon[T](c, n, true)
			}
			return
		}
		c02Marathon[T](c, n, false)
		return
	}
	kind := pick(c, KDVec, KSVec, KSVec)
	l := c.length(pick(c, 3, 12, 40))
	steps := 20 + c.n(80)
	if c.p(0.02) {
		l, steps = 200+c.n(1500), 2500
	}
	ref := newRef[T](l, 1)
	if c.p(0.5) {
		ref = genRef(c, l, 1, func() T { return anyNZ[T](c, true) })
	}
	x := build(c, kind, ref).(g.Vector[T])
	var y g.Vector[T]
	var yref *Ref[T]
	if kind == KDVec && c.p(0.3) {
		// two vectors made from neighbouring pieces of one array
		yref = genRef(c, 1+c.n(2*l), 1, func() T { return anyNZ[T](c, true) })
		all := piece(c, append(append([]T(nil), ref.D...), yref.D...))
		x = g.NewDenseVectorFromArrayN(all[:l])
		y = g.NewDenseVectorFromArrayN(all[l:])
	}
	c.Note("%s[%s] len %d %d steps from %v", kindName[kind], tname[T](), l, steps, ref)
	c.Sig(kind, tname[T](), l, ref.D)
	c.Count("format "+kindName[kind], 1)
	check := func(why string) {
		if x.Length() != len(ref.D) || x.Rows() != len(ref.D) || x.Columns() != 1 || x.Size() != len(ref.D) {
			c.Fail("C02/shape", "%s: length %d rows %d columns %d size %d, want %d", why, x.Length(), x.Rows(), x.Columns(), x.Size(), len(ref.D))
		}
		for i, w := range ref.D {
			if v := x.AtVec(i); !same(v, w) {
				c.Fail("C02/at", "%s: AtVec(%d) is %v, want %v; vector %v", why, i, v, w, ref)
			}
			if v := x.At(i, 0); !same(v, w) {
				c.Fail("C02/at", "%s: At(%d,0) is %v, want %v; vector %v", why, i, v, w, ref)
			}
		}
		c.Ev(len(ref.D))
	}
	check("after construction")
	hot := make([]int, 1+c.n(5))
	for i := range hot {
		hot[i] = c.n(l)
	}
	for s := 0; s < steps; s++ {
		if len(ref.D) == 0 {
			x.(*g.DenseVectorNumber[T]).ReSize(3)
			ref = newRef[T](3, 1)
			check("resize from empty")
			continue
		}
		i := c.n(len(ref.D))
		if c.p(0.4) {
			i = hot[c.n(len(hot))] % len(ref.D)
		} else if c.p(0.1) {
			i = len(ref.D) - 1
		}
		v := anyVal[T](c, true)
		if c.p(0.3) {
			v = 0
		}
		op := c.n(40)
		c.Sig(op, i, v)
		switch {
		case op < 12:
			c.Note("SetVec(%d,%v)", i, v)
			x.SetVec(i, v)
			ref.D[i] = v
		case op < 20:
			c.Note("Set(%d,0,%v)", i, v)
			x.Set(i, 0, v)
			ref.D[i] = v
		case op < 30:
			c.Note("Update(%d,0,->%v)", i, v)
			n := 0
			x.Update(i, 0, func(o T) T {
				n++
				if !same(o, ref.D[i]) {
					c.Fail("C02/update", "Update(%d) was given %v, want %v", i, o, ref.D[i])
				}
				if c.p(0.2) {
					readInside[T](c, "C02/inside", x, ref, i)
				}
				return v
			})
			if n != 1 {
				c.Fail("C02/update", "Update called its function %d times", n)
			}
			ref.D[i] = v
		case op < 33:
			if w := ref.D[i]; w >= 0 {
				if b := x.Element(i, 0); b != (w > 0) {
					c.Fail("C02/element", "Element(%d,0) is %v for %v", i, b, w)
				}
			}
		case op < 35:
			if dv, ok := x.(*g.DenseVectorNumber[T]); ok {
				n := c.n(2*len(ref.D) + 3)
				if c.p(0.3) {
					n = len(ref.D) + c.n(5) - 2
					if n < 0 {
						n = 0
					}
				}
				c.Note("ReSize(%d)", n)
				c.Count("resizes", 1)
				if got := dv.ReSize(n); got != n {
					c.Fail("C02/resize", "ReSize(%d) of a vector of length %d answers %d", n, len(ref.D), got)
				}
				d := make([]T, n)
				copy(d, ref.D)
				ref = &Ref[T]{n, 1, d}
				check("after ReSize")
			}
		case op == 35:
			zero := c.p(0.5)
			c.Note("Map(zero odd=%v)", zero)
			n := 0
			for it := x.Map(); it.HasNext() && n <= len(ref.D); n++ {
				it.Map(func(a, b int, v T) T {
					if zero && a%2 == 1 {
						return 0
					}
					return v
				})
			}
			if zero {
				for a := 1; a < len(ref.D); a += 2 {
					ref.D[a] = 0
				}
			}
		case op == 36:
			if c.p(0.2) {
				c.Note("Clear")
				x.Clear()
				ref = newRef[T](len(ref.D), 1)
			}
		}
		if len(ref.D) <= 60 || s%50 == 0 {
			check("step")
		} else if i >= len(ref.D) {
			continue
		} else if v := x.AtVec(i); !same(v, ref.D[i]) {
			c.Fail("C02/at", "AtVec(%d) is %v, want %v", i, v, ref.D[i])
		}
		c.Ev(1)
	}
	want[T](c, "C02/history", x, ref)
	if y != nil {
		want[T](c, "C02/neighbour", y, yref)
		c.Count("histories of vectors with a neighbour in the same array", 1)
	}
	c.checkRest("C02/array")
	c.Count("write steps", steps)
}

func c02Bool(c *Case) {
	l := c.length(20)
	var x *g.DenseVector[bool]
	ref := newRef[bool](l, 1)
	if c.p(0.5) {
		x = g.NewDenseVector[bool](l)
	} else {
		for i := range ref.D {
			ref.D[i] = c.p(0.5)
		}
		x = g.NewDenseVectorFromArray(append([]bool(nil), ref.D...))
	}
	c.Note("DenseVector[bool] len %d", l)
	for s := 0; s < 60; s++ {
		v := c.p(0.5)
		op := c.n(10)
		c.Sig(op, v)
		if op == 0 {
			n := 1 + c.n(2*len(ref.D))
			c.Note("ReSize %d", n)
			x.ReSize(n)
			d := make([]bool, n)
			copy(d, ref.D)
			ref = &Ref[bool]{n, 1, d}
		} else {
			i := c.n(len(ref.D))
			c.Sig(i)
			switch {
			case op < 4:
				x.SetVec(i, v)
			case op < 7:
				x.Set(i, 0, v)
			default:
				x.Update(i, 0, func(bool) bool { return v })
			}
			ref.D[i] = v
		}
		if d := diff[bool](c, x, ref, x.At, x.Enumerate()); d != "" {
			c.Fail("C02/history", "logical: %s", d)
		}
		for i := range ref.D {
			if x.AtVec(i) != ref.D[i] {
				c.Fail("C02/at", "logical AtVec(%d)", i)
			}
		}
	}
}

// c02Marathon repeats one kind of write on a tiny vector.
func c02Marathon[T Num](c *Case, n int, blind bool) {
	kind := pick(c, KDVec, KSVec)
	l := 1 + c.n(4)
	ref := genRef(c, l, 1, func() T { return anyNZ[T](c, true) })
	x := build(c, kind, ref).(g.Vector[T])
	mode := c.n(5)
	name := []string{"clear and set", "set and zero", "update", "set elsewhere", "resize"}[mode]
	only := c.n(3)
	c.Note("%s[%s] %d times %s (blind %v, cell %d) on %v", kindName[kind], tname[T](), n, name, blind, only, ref)
	c.Sig("marathon", kind, tname[T](), n, mode, blind, only, l, ref.D)
	stay := c.n(l) // a cell that is written at the start only
	for i := 0; i < n; i++ {
		j := c.n(ref.R)
		if blind {
			j = only % ref.R
		}
		v := T(i%100) + 1
		switch mode {
		case 0:
			x.Clear()
			ref = newRef[T](l, 1)
			x.SetVec(j, v)
			ref.D[j] = v
		case 1:
			x.SetVec(j, v)
			x.Set(j, 0, 0)
			ref.D[j] = 0
		case 2:
			x.Update(j, 0, func(o T) T {
				if !same(o, ref.D[j]) {
					c.Fail("C02/update", "repetition %d: Update was given %v, the cell holds %v", i, o, ref.D[j])
				}
				return v
			})
			ref.D[j] = v
		default:
			if dv, ok := x.(*g.DenseVectorNumber[T]); ok && mode == 4 {
				m := l + c.n(4)
				dv.ReSize(m)
				d := make([]T, m)
				copy(d, ref.D)
				ref = &Ref[T]{m, 1, d}
			} else if j != stay {
				x.SetVec(j, v-1)
				ref.D[j] = v - 1
			}
		}
		if blind && i < n-1 {
			continue
		}
		if j < ref.R && !same(x.AtVec(j), ref.D[j]) || !same(x.AtVec(stay), ref.D[stay]) {
			c.Fail("C02/at", "repetition %d of %s: the elements are not those of %v", i, name, ref)
		}
		if c.full(i) || i == n-1 {
			if x.Length() != ref.R || x.Rows() != ref.R || x.Size() != ref.R {
				c.Fail("C02/shape", "repetition %d of %s: length %d, want %d", i, name, x.Length(), ref.R)
			}
			want[T](c, "C02/history", x, ref)
		}
	}
	c.ran(name, n)
}
