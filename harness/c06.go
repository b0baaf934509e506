//go:build all || c06 || c32

package main

import (
	"runtime"
	"strings"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/math/reduced"
	"github.com/rossmerr/graphblas/math/strassen"
	gsort "github.com/rossmerr/graphblas/sort"
)

func init() {
	register("C06", 70200, 1404000, "a case takes copies and derived results of one matrix or vector and then writes at random to the source, the copies and the results, checking all of them against separate models; non-trivial if the source holds a non-zero; distinct by format, type, content and derivation", perType(c06T[int], c06T[int8], c06T[int16], c06T[int32], c06T[int64], c06T[uint], c06T[uint8], c06T[uint16], c06T[uint32], c06T[uint64], c06T[uintptr], c06T[float32], c06T[float64], c06Logical))
}

type tracked[T Elem] struct {
	name string
	x    g.MatrixLogical[T]
	ref  *Ref[T]
}

func c06T[T Num](c *Case) {
	if vast[T](c, 8) {
		return
	}
	if n := c.marathon(); n > 0 {
		c06Marathon[T](c, n)
		return
	}
	ctx := c.Ctx()
	r, k := c.dim(12), c.dim(12)
	if c.p(0.3) {
		k = 1
	} else if c.p(0.3) && c.thin == 0 {
		k = r
	}
	kind := c.kind(k, false)
	ref := genRef(c, r, k, func() T { return mulVal[T](c) })
	var x g.Matrix[T]
	if isSparseKind(kind) && c.p(0.3) {
		// from an array, which is changed afterwards
		rows := ref.Rows2()
		flat := append([]T(nil), ref.D...)
		switch kind {
		case KCSR:
			x = g.NewCSRMatrixFromArray(rows)
		case KCSC:
			x = g.NewCSCMatrixFromArray(rows)
		case KSVec:
			x = g.NewSparseVectorFromArray(flat)
		}
		for i := range flat {
			flat[i]++
		}
		for i := range rows {
			for j := range rows[i] {
				rows[i][j]++
			}
		}
		c.Count("built from an array changed later", 1)
	} else {
		x = build(c, kind, ref)
	}
	c.Note("source %s[%s] %v", kindName[kind], tname[T](), ref)
	c.Sig(kind, tname[T](), ref.R, ref.C, ref.D)
	c.Count("format "+kindName[kind], 1)
	if ref.NNZ() == 0 {
		c.Trivial()
	}
	pool := []*tracked[T]{{"source", x, ref}}
	add := func(name string, m g.MatrixLogical[T], w *Ref[T]) {
		c.Note("%s", name)
		c.Sig(name)
		c.Count(strings.Fields(name)[0], 1)
		if w == nil { // its content is another property's business
			w = newRef[T](m.Rows(), m.Columns())
			for i := range w.D {
				w.D[i] = m.At(i/w.C, i%w.C)
			}
		}
		pool = append(pool, &tracked[T]{name, m, w})
	}
	ok := c.kind(k, false)
	oref := genRef(c, r, k, func() T { return mulVal[T](c) })
	o := build(c, ok, oref)
	pool = append(pool, &tracked[T]{"other operand " + kindName[ok], o, oref})
	for n := 0; n < 2+c.n(5); n++ {
		src := pool[c.n(len(pool))]
		xs, isNum := src.x.(g.Matrix[T])
		if c.p(0.3) {
			add("CopyLogical of "+src.name, src.x.CopyLogical(), src.ref.Clone())
			continue
		}
		if !isNum {
			continue
		}
		sameShape := src.ref.R == r && src.ref.C == k
		switch c.n(13) {
		case 9:
			if rows := src.ref.R; rows > 0 {
				add("ReduceMatrixToVector of "+src.name, g.ReduceMatrixToVector(ctx, xs), nil)
			}
		case 10:
			if isFloat[T]() && src.ref.R > 0 && src.ref.C > 0 {
				add("Reduced of "+src.name, reduced.Reduced(xs), nil)
			}
		case 11, 12:
			if src.ref.R == src.ref.C && !isFloat[T]() && !c.slow && src.ref.R > 0 && (src.ref.R < 70 || c.p(0.1)) {
				if c.p(0.5) {
					add("Strassen of "+src.name, strassen.Multiply(ctx, xs, xs), mulRef(src.ref, src.ref))
				} else {
					add("Strassen of "+src.name, strassen.MultiplyCrossoverPoint(ctx, xs, xs, 1+c.n(2*src.ref.R)), mulRef(src.ref, src.ref))
				}
			}
		case 0, 1:
			add("Copy of "+src.name, xs.Copy(), src.ref.Clone())
		case 2:
			if sameShape {
				add("Add of "+src.name, xs.Add(o), zipRef(src.ref, oref, func(a, b T) T { return a + b }))
			}
		case 3:
			if sameShape {
				add("Subtract of "+src.name, xs.Subtract(o), zipRef(src.ref, oref, func(a, b T) T { return a - b }))
			}
		case 4:
			add("Transpose of "+src.name, src.x.Transpose(), src.ref.T())
		case 5:
			add("Negative of "+src.name, xs.Negative(), mapRef(src.ref, func(a T) T { return -a }))
		case 6:
			al := pick(c, T(0), T(1), T(1), T(2))
			add("Scalar of "+src.name, xs.Scalar(al), mapRef(src.ref, func(a T) T { return al * a }))
		case 7:
			if src.ref.R == src.ref.C {
				if !isFloat[T]() {
					add("Multiply of "+src.name, xs.Multiply(xs), mulRef(src.ref, src.ref))
				}
			}
		default:
			if c.p(0.5) {
				add("TransposeToCSR of "+src.name, g.TransposeToCSR[T](ctx, xs), src.ref.T())
			} else {
				add("TransposeToCSC of "+src.name, g.TransposeToCSC[T](ctx, xs), src.ref.T())
			}
		}
	}
	c06Mutate(c, pool, func() T { return anyVal[T](c, false) })
	c.checkRest("C06/array")
}

func c06Mutate[T Elem](c *Case, pool []*tracked[T], val func() T) {
	checkAll := func(why string) {
		for _, t := range pool {
			if d := diff[T](c, t.x, t.ref, t.x.At, t.x.Enumerate()); d != "" {
				c.Fail("C06/independence", "%s: %s: %s", why, t.name, d)
			}
		}
	}
	checkAll("before writing")
	var z T
	for n := 0; n < 14; n++ {
		t := pool[c.n(len(pool))]
		j := c.n(len(t.ref.D))
		a, b := j/t.ref.C, j%t.ref.C
		v := val()
		if c.p(0.3) {
			v = z
		}
		if rs, ok := t.x.(interface{ ReSize(int) int }); ok && c.p(0.15) {
			l := 1 + c.n(2*t.ref.R+2)
			rs.ReSize(l)
			d := make([]T, l)
			copy(d, t.ref.D)
			t.ref = &Ref[T]{l, 1, d}
			c.Count("resizes", 1)
			c.Sig("resize", l)
			checkAll("after resizing " + t.name)
			continue
		}
		switch c.n(12) {
		case 0, 1, 2:
			t.x.Update(a, b, func(T) T { return v })
			t.ref.D[j] = v
		case 3:
			if c.p(0.3) {
				t.x.Clear()
				t.ref = newRef[T](t.ref.R, t.ref.C)
			}
		default:
			t.x.Set(a, b, v)
			t.ref.D[j] = v
		}
		c.Sig(j, v)
		checkAll("after writing to " + t.name)
	}
}

func c06Logical(c *Case) {
	r, k := c.dim(10), c.dim(10)
	ref := newRef[rune](r, k)
	for i := range ref.D {
		ref.D[i] = rune(c.n(5))
	}
	var x g.MatrixLogical[rune] = g.NewDenseMatrix[rune](r, k)
	if c.p(0.4) {
		k = 1
		ref = &Ref[rune]{r, 1, ref.D[:r]}
		x = g.NewDenseVector[rune](r)
	}
	for i := range ref.D {
		x.Set(i/k, i%k, ref.D[i])
	}
	c.Note("source rune %v", ref)
	c.Sig("rune", r, k, ref.D)
	pool := []*tracked[rune]{{"source", x, ref}, {"copy", x.CopyLogical(), ref.Clone()}, {"transpose", x.Transpose(), ref.T()}}
	if dm, ok := x.(g.MatrixRune); ok && !c.slow && c.p(0.6) {
		// sorts, of sorted ones and single lines too
		in, iref := dm, ref
		for s := 1 + c.n(2); s > 0; s-- {
			name, y := "rows sorted", in
			if c.p(0.5) {
				y = gsort.BubbleRow(c.Ctx(), in)
			} else {
				name, y = "columns sorted", gsort.BubbleColumns(c.Ctx(), in)
			}
			w := newRef[rune](r, k)
			for i := range w.D {
				w.D[i] = y.At(i/k, i%k)
			}
			if d := diff[rune](c, in, iref, in.At, in.Enumerate()); d != "" {
				c.Fail("C06/independence", "sorting changed its input: %s", d)
			}
			pool = append(pool, &tracked[rune]{name, y, w})
			in, iref = y, w
			c.Count("sorts", 1)
		}
	}
	pool = append(pool, &tracked[rune]{"copy of copy", pool[1].x.CopyLogical(), ref.Clone()})
	c06Mutate(c, pool, func() rune { return rune(c.n(9)) })
}

// c06Marathon takes many copies (of the source, or each of the one before),
// keeps some, and then writes to all that are kept.
func c06Marathon[T Num](c *Case, n int) {
	r, k := 1+c.n(3), 1+c.n(3)
	kind := c.kind(k, false)
	ref := genRef(c, r, k, func() T { return mulVal[T](c) })
	x := build(c, kind, ref)
	chain, write, logical := c.p(0.4), c.p(0.4), c.p(0.3)
	c.Note("%s[%s] %d copies, chain %v, writing %v, of %v", kindName[kind], tname[T](), n, chain, write, ref)
	c.Sig("marathon", kind, tname[T](), n, chain, write, logical, r, k, ref.D)
	pool := []*tracked[T]{{"source", x, ref}}
	var last g.MatrixLogical[T] = x
	var all []g.MatrixLogical[T]
	hold := c.p(0.5) // keep every copy alive, as owners that counting would see
	for i := 0; i < n; i++ {
		var y g.MatrixLogical[T]
		if m, ok := last.(g.Matrix[T]); ok && !logical {
			y = m.Copy()
		} else {
			y = last.CopyLogical()
		}
		if chain {
			last = y
		}
		if hold {
			all = append(all, y)
		}
		if c.full(i) {
			if len(pool) > 60 {
				pool = append(pool[:1], pool[30:]...)
			}
			pool = append(pool, &tracked[T]{"a copy", y, ref.Clone()})
		} else if write { // a copy that nothing else refers to, and the source after it
			y.Set(0, 0, 7)
			if chain {
				last = x
			}
			j := c.n(r * k)
			v := T(i % 4)
			x.Set(j/k, j%k, v)
			ref.Set(j/k, j%k, v)
		}
	}
	pool[0].ref = ref
	c06Mutate(c, pool, func() T { return anyVal[T](c, false) })
	for _, t := range pool[max(0, len(pool)-8):] { // the last ones, each in turn
		j := c.n(len(t.ref.D)) // a dense vector may have been resized
		t.x.Set(j/t.ref.C, j%t.ref.C, 3)
		t.ref.D[j] = 3
		for _, o := range pool {
			if d := diff[T](c, o.x, o.ref, o.x.At, o.x.Enumerate()); d != "" {
				c.Fail("C06/independence", "after many copies, writing to one of them: %s: %s", o.name, d)
			}
		}
	}
	runtime.KeepAlive(all)
	c.ran("copies", n)
}
