//go:build all || c05 || c32

package main

import (
	g "github.com/rossmerr/graphblas"
)

func init() {
	register("C05", 93600, 1872000, "a case is one matrix or vector whose every row view, column view and row array is compared with its cells, then written on either side to check independence; non-trivial if it holds a non-zero; distinct by format, type and content", perType(c05T[int], c05T[int8], c05T[int16], c05T[int32], c05T[int64], c05T[uint], c05T[uint8], c05T[uint16], c05T[uint32], c05T[uint64], c05T[uintptr], c05T[float32], c05T[float64], c05Logical))
}

func colRef[T Elem](m *Ref[T], j int) *Ref[T] {
	o := newRef[T](m.R, 1)
	for i := range o.D {
		o.D[i] = m.At(i, j)
	}
	return o
}
func rowRef[T Elem](m *Ref[T], i int) *Ref[T] {
	o := newRef[T](m.C, 1)
	for j := range o.D {
		o.D[j] = m.At(i, j)
	}
	return o
}

// viewDiff compares a row or column view with the expected vector content.
func viewDiff[T Elem](c *Case, key string, v g.VectorLogial[T], want *Ref[T]) {
	if v.Length() != want.R {
		c.Fail(key, "view has length %d, want %d", v.Length(), want.R)
	}
	for i, w := range want.D {
		if x := v.AtVec(i); !same(x, w) {
			c.Fail(key, "view element %d is %v, want %v of %v", i, x, w, want)
		}
	}
	c.Ev(len(want.D))
	if d := diff[T](c, v, want, v.At, v.Enumerate()); d != "" {
		c.Fail(key, "view: %s", d)
	}
}

func c05T[T Num](c *Case) {
	if vast[T](c, 9) {
		return
	}
	if n := c.marathon(); n > 0 {
		c05Marathon[T](c, n)
		return
	}
	r, k := c.dim(20), c.dim(20)
	if c.p(0.25) {
		k = 1
	}
	kind := c.kind(k, false)
	ref := genRef(c, r, k, func() T { return anyNZ[T](c, true) })
	x := build(c, kind, ref)
	c.Note("%s[%s] %v", kindName[kind], tname[T](), ref)
	c.Sig(kind, tname[T](), ref.R, ref.C, ref.D)
	c.Count("format "+kindName[kind], 1)
	if ref.NNZ() == 0 {
		c.Trivial()
	}
	c05Views[T](c, x, ref, func() T { return anyVal[T](c, true) })
}

func c05Logical(c *Case) {
	r, k := c.dim(12), c.dim(12)
	if c.p(0.5) {
		ref := newRef[bool](r, k)
		x := g.NewDenseMatrix[bool](r, k)
		for i := range ref.D {
			ref.D[i] = c.p(0.4)
			x.Set(i/k, i%k, ref.D[i])
		}
		c.Note("Dense[bool] %v", ref)
		c.Sig("bool", r, k, ref.D)
		c05Views[bool](c, x, ref, func() bool { return c.p(0.5) })
	} else {
		ref := newRef[rune](r, 1)
		x := g.NewDenseVector[rune](r)
		for i := range ref.D {
			ref.D[i] = rune(c.n(0x3000))
			x.SetVec(i, ref.D[i])
		}
		c.Note("DenseVector[rune] %v", ref)
		c.Sig("rune", r, ref.D)
		c05Views[rune](c, x, ref, func() rune { return rune(c.n(300)) })
	}
}

func c05Views[T Elem](c *Case, x g.MatrixLogical[T], ref *Ref[T], val func() T) {
	r, k := ref.R, ref.C
	all := func() {
		for i := 0; i < r; i++ {
			viewDiff(c, "C05/row", x.RowsAt(i), rowRef(ref, i))
			a := x.RowsAtToArray(i)
			if len(a) != k {
				c.Fail("C05/array", "row array has length %d, want %d", len(a), k)
			}
			for j, v := range a {
				if !same(v, ref.At(i, j)) {
					c.Fail("C05/array", "row array %d element %d is %v, want %v", i, j, v, ref.At(i, j))
				}
			}
			c.Ev(k)
		}
		for j := 0; j < k; j++ {
			viewDiff(c, "C05/column", x.ColumnsAt(j), colRef(ref, j))
		}
	}
	all()
	// several at once, each on its own
	type held struct {
		what string
		v    g.VectorLogial[T]
		a    []T
		want *Ref[T]
	}
	var hold []held
	for n := 1 + c.n(6); n > 0; n-- {
		i, j := c.n(r), c.n(k)
		switch c.n(3) {
		case 0:
			hold = append(hold, held{"row view", x.RowsAt(i), nil, rowRef(ref, i)})
		case 1:
			hold = append(hold, held{"column view", x.ColumnsAt(j), nil, colRef(ref, j)})
		default:
			hold = append(hold, held{"row array", nil, x.RowsAtToArray(i), rowRef(ref, i)})
		}
		h := hold[c.n(len(hold))] // one of them is written now and then
		at := c.n(h.want.R)
		if !c.p(0.4) {
			continue
		}
		h.want.D[at] = val()
		if h.v != nil {
			h.v.SetVec(at, h.want.D[at])
		} else {
			h.a[at] = h.want.D[at]
		}
	}
	for n, h := range hold {
		if h.v != nil {
			viewDiff(c, "C05/held", h.v, h.want)
			continue
		}
		for b := range h.a {
			if !same(h.a[b], h.want.D[b]) {
				c.Fail("C05/held", "of %d views and arrays held at once, %s %d has element %d = %v, want %v", len(hold), h.what, n, b, h.a[b], h.want.D[b])
			}
		}
	}
	// views do not follow the matrix, nor the matrix its views
	i, j := c.n(r), c.n(k)
	rowV, colV, arr := x.RowsAt(i), x.ColumnsAt(j), x.RowsAtToArray(i)
	rowR, colR := rowRef(ref, i), colRef(ref, j)
	for n := 0; n < 6; n++ {
		a, b, v := c.n(r), c.n(k), val()
		switch c.n(3) {
		case 0:
			a = i
		case 1:
			b = j
		}
		x.Set(a, b, v)
		ref.Set(a, b, v)
		c.Sig(a, b, v)
	}
	viewDiff(c, "C05/row-follows-matrix", rowV, rowR)
	viewDiff(c, "C05/column-follows-matrix", colV, colR)
	for b := range arr {
		if !same(arr[b], rowR.D[b]) {
			c.Fail("C05/array-follows-matrix", "row array element %d changed with the matrix", b)
		}
	}
	for n := 0; n < 6; n++ {
		v := val()
		switch c.n(3) {
		case 0:
			rowV.SetVec(c.n(k), v)
		case 1:
			colV.SetVec(c.n(r), v)
		default:
			arr[c.n(k)] = v
		}
	}
	if d := diff[T](c, x, ref, x.At, x.Enumerate()); d != "" {
		c.Fail("C05/matrix-follows-view", "after writing to views: %s", d)
	}
	if c.p(0.3) {
		rowV.Clear()
		colV.Clear()
	}
	all()
}

// c05Marathon takes many views of a tiny matrix that is written in between;
// early ones are kept and compared again at the end.
func c05Marathon[T Num](c *Case, n int) {
	r, k := 1+c.n(3), 1+c.n(3)
	kind := c.kind(k, false)
	ref := genRef(c, r, k, func() T { return anyNZ[T](c, true) })
	x := build(c, kind, ref)
	write := c.p(0.5)
	c.Note("%s[%s] %d views, writing %v, of %v", kindName[kind], tname[T](), n, write, ref)
	c.Sig("marathon", kind, tname[T](), n, write, r, k, ref.D)
	type kept struct {
		i    int
		v    g.VectorLogial[T]
		want *Ref[T]
	}
	var keep []kept
	for i := 0; i < n; i++ {
		if write {
			j := c.n(r * k)
			v := T(i % 5)
			x.Set(j/k, j%k, v)
			ref.D[j] = v
		}
		a := c.n(r)
		v, w := x.RowsAt(a), rowRef(ref, a)
		if c.p(0.5) {
			a = c.n(k)
			v, w = x.ColumnsAt(a), colRef(ref, a)
		}
		full := c.full(i)
		if a = c.n(w.R); !same(v.AtVec(a), w.D[a]) {
			c.Fail("C05/view", "view %d: element %d is %v, want %v", i, a, v.AtVec(a), w.D[a])
		}
		if full {
			viewDiff(c, "C05/view", v, w)
			keep = append(keep, kept{i, v, w})
			want[T](c, "C05/matrix-follows-view", x, ref)
		} else if c.p(0.1) {
			v.Clear()
		}
	}
	for _, o := range keep {
		viewDiff(c, "C05/kept", o.v, o.want)
	}
	want[T](c, "C05/matrix-follows-view", x, ref)
	c.ran("views", n)
}
