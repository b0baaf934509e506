//go:build all || c29 || c32

package main

import (
	"context"
	"fmt"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/math/skewsymmetric"
	"github.com/rossmerr/graphblas/math/strassen"
	"github.com/rossmerr/graphblas/math/symmetric"
)

func init() {
	register("C29", 117000, 2340000, "a case is a random program of 12-45 library operations over a pool of up to nine matrices and vectors in mixed formats, run side by side on plain mathematical matrices; affected objects are compared after every step and the whole pool every few steps; distinct by program", perType(c29T[int], c29T[int8], c29T[int16], c29T[int32], c29T[int64], c29T[uint], c29T[uint8], c29T[uint16], c29T[uint32], c29T[uint64], c29T[uintptr], c29T[float32], c29T[float64]))
}

type cell29[T Num] struct {
	id  int
	x   g.Matrix[T]
	ref *Ref[T]
}

type prog[T Num] struct {
	c    *Case
	ctx  context.Context
	dims []int
	pool []*cell29[T]
	next int
	ops  []*Op[T]
}

func c29T[T Num](c *Case) {
	p := &prog[T]{c: c, ctx: c.Ctx(), ops: allOps[T]()}
	p.dims = []int{1, 1 + c.n(7), 1 + c.n(7)}
	if c.p(0.1) {
		p.dims = append(p.dims, 12+c.n(8))
	}
	if c.big {
		p.dims = append(p.dims, 20+c.n(30))
		c.Count("sizes above 16", 1)
	}
	if c.zero {
		p.dims = append(p.dims, 0)
		c.Count("sizes of zero", 1)
	}
	c.Note("%s", tname[T]())
	for i := 0; i < 3+c.n(3); i++ {
		p.fresh()
	}
	steps := 12 + c.n(34)
	for i := 0; i < steps; i++ {
		p.step()
		p.bound()
		if i%6 == 5 {
			p.checkAll("after step " + fmt.Sprint(i))
		}
	}
	p.checkAll("at the end")
	c.Count("steps", steps)
}

func (p *prog[T]) dim() int { return p.dims[p.c.n(len(p.dims))] }
func (p *prog[T]) any() *cell29[T] {
	return p.pool[p.c.n(len(p.pool))]
}
func (p *prog[T]) val() T {
	if isFloat[T]() {
		return smallNZ[T](p.c, 6)
	}
	if p.c.p(0.2) {
		return anyNZ[T](p.c, false)
	}
	return smallNZ[T](p.c, 6)
}

func (p *prog[T]) add(x g.Matrix[T], ref *Ref[T]) *cell29[T] {
	e := &cell29[T]{p.next, x, ref}
	p.next++
	p.c.Note("#%d:=", e.id)
	if len(p.pool) >= 9 {
		p.pool[p.c.n(len(p.pool))] = e
	} else {
		p.pool = append(p.pool, e)
	}
	return e
}

// result adds an operation's result to the pool if it is a full matrix, and
// checks it either way.
func (p *prog[T]) result(what string, y g.MatrixLogical[T], ref *Ref[T]) {
	want[T](p.c, "C29/result", y, ref)
	p.c.Count(what, 1)
	if m, ok := y.(g.Matrix[T]); ok {
		p.add(m, ref)
	}
}

func (p *prog[T]) fresh() {
	c := p.c
	r, k := p.dim(), p.dim()
	kind := c.kind(k, true)
	ref := genRef(c, r, k, p.val)
	c.Note("new %s %v", kindName[kind], ref)
	c.Sig(kind, ref.R, ref.C, ref.D)
	p.add(build(c, kind, ref), ref)
	c.Count("new "+kindName[kind], 1)
}

func (p *prog[T]) checkAll(why string) {
	for _, e := range p.pool {
		if d := diffM[T](p.c, e.x, e.ref); d != "" {
			p.c.Fail("C29/state", "%s: #%d: %s", why, e.id, d)
		}
		if g.IsSparseMatrix[T](e.x) {
			p.c.Ev(1)
			if n := e.ref.NNZ(); e.x.Values() != n {
				p.c.Fail("C29/values", "%s: #%d reports %d values of %d", why, e.id, e.x.Values(), n)
			}
		}
	}
}

// bound keeps floating-point content small, so that all arithmetic is exact.
func (p *prog[T]) bound() {
	if !isFloat[T]() {
		return
	}
	mod := func(v T) T {
		i := int(v)
		return T(i % 7)
	}
	for _, e := range p.pool {
		big := false
		for _, v := range e.ref.D {
			if float64(v) > 400 || float64(v) < -400 {
				big = true
			}
		}
		if big {
			p.c.Note("reduce #%d", e.id)
			for m := e.x.Map(); m.HasNext(); {
				m.Map(func(_, _ int, v T) T { return mod(v) })
			}
			e.ref = mapRef(e.ref, mod)
			want[T](p.c, "C29/map", e.x, e.ref)
		}
	}
}

func (p *prog[T]) pair(ok func(a, b *cell29[T]) bool) (a, b *cell29[T]) {
	for t := 0; t < 12; t++ {
		a, b = p.any(), p.any()
		if ok(a, b) {
			return
		}
	}
	return nil, nil
}

func (p *prog[T]) step() {
	c := p.c
	e := p.any()
	r, k := e.ref.R, e.ref.C
	s := c.n(30)
	c.Sig(s)
	switch s {
	case 0:
		p.fresh()
	case 1, 2, 3, 4:
		for n := 0; n < 1+c.n(6) && len(e.ref.D) > 0; n++ {
			j := c.n(len(e.ref.D))
			v := p.val()
			if c.p(0.35) {
				v = 0
			}
			c.Sig(j, v)
			if c.p(0.3) {
				c.Note("#%d(%d,%d)+=%v", e.id, j/k, j%k, v)
				e.x.Update(j/k, j%k, func(w T) T { return w + v })
				e.ref.D[j] += v
			} else {
				c.Note("#%d(%d,%d)=%v", e.id, j/k, j%k, v)
				e.x.Set(j/k, j%k, v)
				e.ref.D[j] = v
			}
		}
		c.Count("writes", 1)
		want[T](c, "C29/write", e.x, e.ref)
	case 5:
		f, drop := T(1+c.n(3)), c.n(4)
		fn := func(a, b int, v T) T {
			if v == 0 || (a+b)%4 < drop && drop > 1 {
				return 0
			}
			return v * f
		}
		c.Note("map #%d *%v drop %d", e.id, f, drop)
		for m := e.x.Map(); m.HasNext(); {
			m.Map(fn)
		}
		for j := range e.ref.D {
			e.ref.D[j] = fn(j/k, j%k, e.ref.D[j])
		}
		c.Count("maps", 1)
		want[T](c, "C29/map", e.x, e.ref)
	case 6:
		if c.p(0.4) {
			c.Note("clear #%d", e.id)
			e.x.Clear()
			e.ref = newRef[T](r, k)
			c.Count("clears", 1)
			want[T](c, "C29/clear", e.x, e.ref)
		}
	case 7, 8:
		c.Note("copy #%d", e.id)
		if c.p(0.3) {
			p.result("CopyLogical", e.x.CopyLogical(), e.ref.Clone())
		} else {
			p.result("Copy", e.x.Copy(), e.ref.Clone())
		}
	case 9, 10, 11:
		a, b := p.pair(func(a, b *cell29[T]) bool { return a.ref.R == b.ref.R && a.ref.C == b.ref.C })
		if a == nil {
			return
		}
		if c.p(0.5) {
			c.Note("#%d+#%d", a.id, b.id)
			p.result("Add method", a.x.Add(b.x), zipRef(a.ref, b.ref, func(x, y T) T { return x + y }))
		} else {
			c.Note("#%d-#%d", a.id, b.id)
			p.result("Subtract method", a.x.Subtract(b.x), zipRef(a.ref, b.ref, func(x, y T) T { return x - y }))
		}
	case 12, 13:
		a, b := p.pair(func(a, b *cell29[T]) bool { return a.ref.C == b.ref.R })
		if a == nil {
			return
		}
		c.Note("#%d*#%d", a.id, b.id)
		p.result("Multiply method", a.x.Multiply(b.x), mulRef(a.ref, b.ref))
	case 14:
		al := small[T](c, 3)
		if !isFloat[T]() && c.p(0.4) { // many products wrap round to zero
			al = T(uint64(1) << c.n(bitsOf[T]()))
		}
		c.Note("%v*#%d", al, e.id)
		w := mapRef(e.ref, func(v T) T { return al * v })
		if c.p(0.5) {
			p.result("Scalar method", e.x.Scalar(al), w)
		} else {
			p.result("Scalar", g.Scalar(p.ctx, e.x, al), w)
		}
	case 15:
		c.Note("-#%d", e.id)
		p.result("Negative method", e.x.Negative(), mapRef(e.ref, func(v T) T { return -v }))
	case 16:
		c.Note("#%d'", e.id)
		p.result("Transpose method", e.x.Transpose(), e.ref.T())
	case 17:
		if c.p(0.5) {
			c.Note("CSR #%d'", e.id)
			p.result("TransposeToCSR", g.TransposeToCSR(p.ctx, e.x), e.ref.T())
		} else {
			c.Note("CSC #%d'", e.id)
			p.result("TransposeToCSC", g.TransposeToCSC(p.ctx, e.x), e.ref.T())
		}
	case 18:
		a, b := p.any(), p.any()
		c.Note("#%d==#%d", a.id, b.id)
		eq := a.ref.same(b.ref)
		c.Ev(4)
		if g.Equal[T](p.ctx, a.x, b.x) != eq || a.x.Equal(b.x) != eq || a.x.NotEqual(b.x) == eq || g.NotEqual[T](p.ctx, b.x, a.x) == eq {
			c.Fail("C29/equal", "#%d and #%d: equality should be %v: %v and %v", a.id, b.id, eq, a.ref, b.ref)
		}
		c.Count("comparisons", 1)
		if eq {
			c.Count("comparisons of equals", 1)
		}
	case 19:
		p.reduce(e)
	case 20:
		p.views(e)
	case 21:
		if isFloat[T]() {
			return
		}
		a, b := p.pair(func(a, b *cell29[T]) bool { return a.ref.C == b.ref.R })
		if a == nil {
			return
		}
		c.Note("strassen #%d*#%d", a.id, b.id)
		p.result("Strassen", strassen.MultiplyCrossoverPoint(p.ctx, a.x, b.x, 1+c.n(4)), mulRef(a.ref, b.ref))
	case 22:
		p.resize()
	case 23:
		sym, skew := r == k, r == k
		for i := 0; i < r && (sym || skew); i++ {
			for j := 0; j < k && r == k; j++ {
				sym = sym && e.ref.At(i, j) == e.ref.At(j, i)
				skew = skew && e.ref.At(i, j) == -e.ref.At(j, i)
			}
		}
		c.Ev(2)
		if got := symmetric.Symmetric(e.x); got != sym {
			c.Fail("C29/symmetric", "symmetric says %v of %v", got, e.ref)
		}
		if got := skewsymmetric.SkewSymmetric(e.x); got != skew {
			c.Fail("C29/symmetric", "skew-symmetric says %v of %v", got, e.ref)
		}
		c.Count("symmetry tests", 1)
	case 24:
		p.refused()
	default:
		p.function()
	}
}

func (p *prog[T]) reduce(e *cell29[T]) {
	c := p.c
	r, k := e.ref.R, e.ref.C
	desc, mask, sel := "", g.Mask(nil), []bool(nil)
	if c.p(0.5) {
		desc, mask, sel = p.mask(r, k, nil)
	}
	c.Note("reduce #%d %s", e.id, desc)
	sum := T(0)
	for i, v := range e.ref.D {
		if sel == nil || !sel[i] {
			sum += v
		}
	}
	c.Ev(1)
	if got := g.ReduceMatrixToScalar[T](p.ctx, e.x, mask); got != sum {
		c.Fail("C29/reduce", "the sum of #%d is %v, want %v: %v", e.id, got, sum, e.ref)
	}
	w := newRef[T](k, 1)
	for j := range w.D {
		for i := 0; i < r; i++ {
			w.D[j] = max(w.D[j], e.ref.At(i, j))
		}
	}
	c.Note("column maxima of #%d", e.id)
	p.result("ReduceMatrixToVector", g.ReduceMatrixToVector(p.ctx, e.x), w)
}

func (p *prog[T]) views(e *cell29[T]) {
	c := p.c
	if len(e.ref.D) == 0 {
		return
	}
	r, k := c.n(e.ref.R), c.n(e.ref.C)
	row, col := newRef[T](e.ref.C, 1), newRef[T](e.ref.R, 1)
	for j := range row.D {
		row.D[j] = e.ref.At(r, j)
	}
	for i := range col.D {
		col.D[i] = e.ref.At(i, k)
	}
	for j, v := range e.x.RowsAtToArray(r) {
		if !same(v, row.D[j]) {
			c.Fail("C29/view", "row %d of #%d holds %v at %d, want %v", r, e.id, v, j, row.D[j])
		}
	}
	if c.p(0.5) {
		c.Note("row %d of #%d", r, e.id)
		p.result("RowsAt", e.x.RowsAt(r), row)
	} else {
		c.Note("column %d of #%d", k, e.id)
		p.result("ColumnsAt", e.x.ColumnsAt(k), col)
	}
}

func (p *prog[T]) resize() {
	for _, e := range p.pool {
		v, ok := e.x.(*g.DenseVectorNumber[T])
		if !ok {
			continue
		}
		n := 1 + p.c.n(9)
		if p.c.p(0.6) {
			n = p.dim()
		}
		p.c.Note("resize #%d to %d", e.id, n)
		v.ReSize(n)
		w := newRef[T](n, 1)
		copy(w.D, e.ref.D)
		e.ref = w
		p.c.Count("ReSize", 1)
		want[T](p.c, "C29/resize", e.x, e.ref)
		return
	}
}

// refused calls an operation on operands whose shapes do not fit, or with a
// cancelled context: nothing may change.
func (p *prog[T]) refused() {
	c := p.c
	if c.p(0.5) {
		a, b := p.pair(func(a, b *cell29[T]) bool { return a.ref.R != b.ref.R || a.ref.C != b.ref.C })
		if a == nil {
			return
		}
		c.Note("refused #%d+#%d", a.id, b.id)
		for i, f := range []func(){func() { a.x.Add(b.x) }, func() { a.x.Subtract(b.x) }, func() { g.ElementWiseMatrixAdd(p.ctx, a.x, b.x, nil, a.x) }, func() { g.Add(p.ctx, b.x, a.x, nil, a.x) }} {
			c.Ev(1)
			if did, _ := panics(f); !did {
				c.Fail("C29/not-refused", "operation %d on #%d and #%d, of shapes %dx%d and %dx%d, was not refused", i, a.id, b.id, a.ref.R, a.ref.C, b.ref.R, b.ref.C)
			}
		}
		c.Count("refused calls", 1)
		p.checkAll("after a refused call")
		return
	}
	e := p.any()
	ctx, cancel := context.WithCancel(p.ctx)
	cancel()
	o := p.any()
	if o.ref.R != e.ref.R || o.ref.C != e.ref.C {
		o = e
	}
	c.Note("cancelled calls on #%d and #%d", e.id, o.id)
	g.Add(ctx, e.x, o.x, nil, e.x)
	g.Negative(ctx, o.x, nil, e.x)
	g.ElementWiseMatrixMultiply(ctx, e.x, o.x, nil, e.x)
	c.Count("calls with a cancelled context", 1)
	p.checkAll("after calls with a cancelled context")
}

// mask makes a mask of the shape: a pool matrix with no negative content, or
// a new one.
func (p *prog[T]) mask(r, k int, not g.Matrix[T]) (string, g.Mask, []bool) {
	c := p.c
	if c.p(0.5) {
		for _, i := range c.R.Perm(len(p.pool)) {
			e := p.pool[i]
			if e.ref.R != r || e.ref.C != k || e.x == not {
				continue
			}
			neg := false
			sel := make([]bool, len(e.ref.D))
			for j, v := range e.ref.D {
				neg = neg || v < 0
				sel[j] = v > 0
			}
			if neg {
				continue
			}
			c.Count("masks from the pool", 1)
			return fmt.Sprintf("mask #%d", e.id), e.x, sel
		}
	}
	return genMask(c, r, k)
}

// function calls one of the function forms with operands, mask and output
// from the pool.
func (p *prog[T]) function() {
	c := p.c
	op := p.ops[c.n(len(p.ops))]
	var es []*cell29[T]
	var sh [][2]int
	fits := func() bool {
		es, sh = nil, nil
		for i := range op.vec {
			e := p.any()
			if _, ok := e.x.(g.Vector[T]); op.vec[i] && !ok {
				return false
			}
			es, sh = append(es, e), append(sh, [2]int{e.ref.R, e.ref.C})
		}
		switch {
		case op.name == "VectorMatrixMultiply":
			return sh[1][1] == sh[0][0]
		case op.product:
			return sh[0][1] == sh[1][0]
		case len(sh) == 2:
			return sh[0] == sh[1]
		}
		return true
	}
	ok := false
	for t := 0; t < 20 && !ok; t++ {
		ok = fits()
	}
	if !ok {
		return
	}
	x := &OpCase[T]{op: op}
	x.uName, x.u = unaryFn[T](c)
	for _, e := range es {
		x.in, x.inM = append(x.in, e.ref), append(x.inM, e.x)
	}
	r, k := op.out(sh)
	var out *cell29[T]
	isIn := func(e *cell29[T]) bool { return e == es[0] || len(es) > 1 && e == es[1] }
	for _, i := range c.R.Perm(len(p.pool)) {
		e := p.pool[i]
		_, vec := e.x.(g.Vector[T])
		if e.ref.R == r && e.ref.C == k && (vec || !op.outVec) && (op.alias || !isIn(e)) {
			out = e
			break
		}
	}
	names := ""
	for _, e := range es {
		names += fmt.Sprintf("#%d ", e.id)
	}
	c.Note("%s %s", op.name, names)
	if op.name == "Apply" {
		c.Note("op %s", x.uName)
	}
	if out == nil || c.p(0.15) {
		kind := c.kind(k, true)
		if op.outVec {
			kind = pick(c, KDVec, KSVec)
		}
		ref := newRef[T](r, k)
		out = p.add(build(c, kind, ref), ref)
	}
	x.out, x.old, x.aliased = out.x, out.ref.Clone(), isIn(out)
	if x.aliased { // the specification reads the operands as they were
		for i, e := range es {
			if e == out {
				x.in[i] = x.old
			}
		}
	}
	if c.p(0.45) {
		x.maskDesc, x.mask, x.sel = p.mask(r, k, out.x)
	}
	c.Note("into #%d %s", out.id, x.maskDesc)
	c.Sig(op.name, names, out.id, x.maskDesc)
	x.run(p.ctx)
	c.Count(op.name, 1)
	if x.aliased {
		c.Count("output is an operand", 1)
	}
	x.check(c, "C29/"+op.name)
	got := newRef[T](r, k)
	for i := range got.D {
		got.D[i] = out.x.At(i/k, i%k)
	}
	out.ref = got
	for i, e := range es {
		if e != out {
			if d := diffM[T](c, e.x, x.in[i]); d != "" {
				c.Fail("C29/operand", "%s changed its operand #%d: %s", op.name, e.id, d)
			}
		}
	}
}
