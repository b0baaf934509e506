//go:build all || c01 || c32

package main

import (
	"math/rand/v2"

	g "github.com/rossmerr/graphblas"
)

func init() {
	register("C01", 46800, 936000, "a case is one write history (set, update, pointer-returning set/update, map, clear, zeroing, re-insertion) on one matrix of one format and element type, checked against a plain array after each step; non-trivial if it wrote at least two cells; distinct by format, type, shape and operation/cell sequence", perType(c01T[int], c01T[int8], c01T[int16], c01T[int32], c01T[int64], c01T[uint], c01T[uint8], c01T[uint16], c01T[uint32], c01T[uint64], c01T[uintptr], c01T[float32], c01T[float64], c01Bool))
}

func c01T[T Num](c *Case) {
	if vast[T](c, 4, 5, 7) {
		return
	}
	if n := c.marathon(); n > 0 {
		if c.p(0.5) {
			w := n &^ 255 // a run that is looked at after its end only, of every length about there
			what := c.R.Uint64()
			for n := w - 1; n <= w+2; n++ {
				c.R = rand.New(rand.NewPCG(what, 1))
				c01Marathon[T](c, n, true)
			}
			return
		}
		c01Marathon[T](c, n, false)
		return
	}
	kind := pick(c, KDense, KCSR, KCSC, KCSR, KCSC)
	r, k := c.dim(14), c.dim(14)
	steps := 20 + c.n(80)
	if c.p(0.02) { // long history on a larger matrix
		r, k = 20+c.n(60), 20+c.n(60)
		steps = 3000
	}
	ref := newRef[T](r, k)
	var x g.Matrix[T]
	if c.p(0.5) {
		ref = genRef(c, r, k, func() T { return anyNZ[T](c, true) })
	}
	x = build(c, kind, ref)
	c.Note("%s[%s] %dx%d %d steps from %v", kindName[kind], tname[T](), r, k, steps, ref)
	c.Sig(kind, tname[T](), r, k, ref.D)
	c.Count("format "+kindName[kind], 1)
	want[T](c, "C01/build", x, ref)
	hot := make([]int, 1+c.n(6))
	for i := range hot {
		hot[i] = c.n(r * k)
	}
	for s := 0; s < steps; s++ {
		j := c.n(r * k)
		switch c.n(6) {
		case 0, 1, 2:
			j = hot[c.n(len(hot))]
		case 3:
			j = (r-1)*k + c.n(k) // last row
		case 4:
			j = c.n(r)*k + k - 1 // last column
		}
		rr, cc := j/k, j%k
		v := anyVal[T](c, true)
		if c.p(0.3) {
			v = 0
		}
		op := c.n(40)
		c.Sig(op, j, v)
		switch {
		case op < 14:
			c.Note("Set(%d,%d,%v)", rr, cc, v)
			x.Set(rr, cc, v)
			ref.Set(rr, cc, v)
		case op < 24:
			c.Note("Update(%d,%d,->%v)", rr, cc, v)
			calls := 0
			x.Update(rr, cc, func(o T) T {
				calls++
				if !same(o, ref.At(rr, cc)) {
					c.Fail("C01/update", "Update(%d,%d) was given %v, the cell holds %v", rr, cc, o, ref.At(rr, cc))
				}
				if c.p(0.2) {
					readInside[T](c, "C01/inside", x, ref, j)
				}
				return v
			})
			if calls != 1 {
				c.Fail("C01/update", "Update called its function %d times", calls)
			}
			ref.Set(rr, cc, v)
		case op < 34:
			if mc, ok := x.(g.MatrixCompressed[T]); ok {
				if c.p(0.5) {
					c.Note("SetReturnPointer(%d,%d,%v)", rr, cc, v)
					mc.SetReturnPointer(rr, cc, v)
				} else {
					c.Note("UpdateReturnPointer(%d,%d,%v)", rr, cc, v)
					mc.UpdateReturnPointer(rr, cc, func(o T) T {
						if c.p(0.2) {
							readInside[T](c, "C01/inside", x, ref, j)
						}
						return v
					})
				}
			} else {
				x.Set(rr, cc, v)
			}
			ref.Set(rr, cc, v)
		case op < 37:
			if v2 := x.At(rr, cc); !same(v2, ref.At(rr, cc)) {
				c.Fail("C01/at", "At(%d,%d) is %v, want %v", rr, cc, v2, ref.At(rr, cc))
			}
			w := ref.At(rr, cc)
			if w >= 0 || w != w { // the truth of negative values is not claimed
				if b := x.Element(rr, cc); b != (w > 0) {
					c.Fail("C01/element", "Element(%d,%d) is %v for %v", rr, cc, b, w)
				}
			}
		case op == 37:
			zero := c.p(0.4)
			c.Note("Map(zero=%v)", zero)
			x.Map()
			n := 0
			for it := x.Map(); it.HasNext() && n <= r*k; n++ {
				it.Map(func(a, b int, v T) T {
					nv := v
					if zero && (a+b)%2 == 0 {
						nv = 0
					} else if c.p(0.1) { // cells that were visited may be zero by now
						x.At(c.n(r), c.n(k))
					}
					return nv
				})
			}
			if zero {
				for a := 0; a < r; a++ {
					for b := 0; b < k; b++ {
						if (a+b)%2 == 0 {
							ref.Set(a, b, 0)
						}
					}
				}
			}
		case op == 38:
			if c.p(0.2) {
				c.Note("Clear")
				x.Clear()
				ref = newRef[T](r, k)
			}
		default:
			want[T](c, "C01/history", x, ref)
		}
		if v2 := x.At(rr, cc); !same(v2, ref.At(rr, cc)) {
			c.Fail("C01/at", "after step %d At(%d,%d) is %v, want %v; matrix %v", s, rr, cc, v2, ref.At(rr, cc), ref)
		}
		if r*k <= 60 || s%64 == 0 {
			for a := 0; a < r; a++ {
				for b := 0; b < k; b++ {
					if v2 := x.At(a, b); !same(v2, ref.At(a, b)) {
						c.Fail("C01/at", "after step %d At(%d,%d) is %v, want %v; matrix %v", s, a, b, v2, ref.At(a, b), ref)
					}
				}
			}
			c.Ev(r * k)
		}
		c.Ev(1)
	}
	want[T](c, "C01/history", x, ref)
	for a := 0; a < r; a++ {
		row := x.RowsAtToArray(a)
		for b := range row {
			if !same(row[b], ref.At(a, b)) {
				c.Fail("C01/rowarray", "row array %d[%d] is %v, want %v", a, b, row[b], ref.At(a, b))
			}
		}
	}
	if rm, ok := x.(interface{ RawMatrix() [][]T }); ok {
		rows := rm.RawMatrix()
		if len(rows) != r {
			c.Fail("C01/raw", "the raw matrix has %d rows, want %d", len(rows), r)
		}
		for a := range rows {
			if len(rows[a]) != k {
				c.Fail("C01/raw", "raw row %d has %d cells, want %d", a, len(rows[a]), k)
			}
			for b, v := range rows[a] {
				if !same(v, ref.At(a, b)) {
					c.Fail("C01/raw", "raw cell (%d,%d) is %v, want %v", a, b, v, ref.At(a, b))
				}
			}
		}
		c.Count("raw matrices read", 1)
	}
	c.Count("write steps", steps)
}

// c01Bool: logical and character dense matrices.
func c01Bool(c *Case) {
	r, k := c.dim(14), c.dim(14)
	if c.p(0.5) {
		logicalHistory(c, r, k, func() bool { return c.p(0.5) })
	} else {
		logicalHistory(c, r, k, func() rune { return rune(c.n(3)) * 0x4e00 })
	}
}

func logicalHistory[T interface{ bool | rune }](c *Case, r, k int, val func() T) {
	x := g.NewDenseMatrix[T](r, k)
	ref := newRef[T](r, k)
	c.Note("Dense[%s] %dx%d", tname[T](), r, k)
	c.Count("format logical Dense", 1)
	var z T
	for s := 0; s < 60; s++ {
		j := c.n(r * k)
		v := val()
		c.Sig(j, v)
		switch c.n(12) {
		case 0:
			if c.p(0.3) {
				x.Clear()
				ref = newRef[T](r, k)
			}
		case 1, 2, 3:
			x.Update(j/k, j%k, func(o T) T {
				if o != ref.D[j] {
					c.Fail("C01/update", "Update given %v, want %v", o, ref.D[j])
				}
				return v
			})
			ref.D[j] = v
		case 4:
			x.Set(j/k, j%k, z)
			ref.D[j] = z
		default:
			x.Set(j/k, j%k, v)
			ref.D[j] = v
		}
		if d := diff[T](c, x, ref, x.At, x.Enumerate()); d != "" {
			c.Fail("C01/history", "logical dense: %s", d)
		}
	}
}

// c01Marathon repeats one kind of write on a tiny matrix.
func c01Marathon[T Num](c *Case, n int, blind bool) {
	kind := pick(c, KDense, KCSR, KCSC)
	r, k := 1+c.n(3), 1+c.n(3)
	ref := genRef(c, r, k, func() T { return anyNZ[T](c, true) })
	x := build(c, kind, ref)
	mode := c.n(6)
	name := []string{"clear and set", "set and zero", "update", "map", "set elsewhere", "clear"}[mode]
	only := c.n(3)
	c.Note("%s[%s] %d times %s (blind %v, cell %d) on %v", kindName[kind], tname[T](), n, name, blind, only, ref)
	c.Sig("marathon", kind, tname[T](), n, mode, blind, only, ref.R, ref.C, ref.D)
	stay := c.n(r * k) // a cell that is written at the start only
	for i := 0; i < n; i++ {
		j := c.n(r * k)
		if blind {
			j = only % (r * k)
		}
		v := T(i%100) + 1
		switch mode {
		case 0:
			x.Clear()
			ref = newRef[T](r, k)
			x.Set(j/k, j%k, v)
			ref.D[j] = v
		case 1:
			x.Set(j/k, j%k, v)
			x.Set(j/k, j%k, 0)
			ref.D[j] = 0
		case 2:
			x.Update(j/k, j%k, func(o T) T {
				if !same(o, ref.D[j]) {
					c.Fail("C01/update", "repetition %d: Update was given %v, the cell holds %v", i, o, ref.D[j])
				}
				return v
			})
			ref.D[j] = v
		case 3:
			for it := x.Map(); it.HasNext(); {
				it.Map(func(_, _ int, v T) T { return v })
			}
		case 4:
			if j != stay {
				x.Set(j/k, j%k, v-1)
				ref.D[j] = v - 1
			}
		default:
			if i == n-1 {
				x.Set(j/k, j%k, v)
				ref.D[j] = v
			} else {
				x.Clear()
				ref = newRef[T](r, k)
			}
		}
		if blind {
			continue
		}
		if !same(x.At(j/k, j%k), ref.D[j]) || !same(x.At(stay/k, stay%k), ref.D[stay]) {
			c.Fail("C01/at", "repetition %d of %s: the cells are %v and %v, want %v and %v", i, name, x.At(j/k, j%k), x.At(stay/k, stay%k), ref.D[j], ref.D[stay])
		}
		if c.full(i) {
			want[T](c, "C01/history", x, ref)
		}
	}
	want[T](c, "C01/history", x, ref)
	c.ran(name, n)
}
