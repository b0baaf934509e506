package main

import (
	"context"
	"fmt"
	"sort"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/unaryop"
)

// Op is one library operation that reads operands and writes an output,
// together with its mathematical specification.
type Op[T Num] struct {
	name string
	// shapes generates operand shapes that fit
	shapes func(c *Case, max int) [][2]int
	vec    []bool // operand must be a Vector
	outVec bool
	out    func(s [][2]int) (int, int)
	run    func(ctx context.Context, u unaryop.UnaryOp[T], in []g.Matrix[T], mask g.Mask, out g.Matrix[T])
	// spec gives for each output cell the values allowed; an empty list
	// means the cell lies outside the result's pattern, where the output
	// keeps its old content or becomes zero.
	spec    func(u unaryop.UnaryOp[T], in []*Ref[T]) (cells [][]T)
	alias   bool // the output may be one of the operands
	val     func(c *Case) T
	product bool
}

func vecOf[T Num](m g.Matrix[T]) g.Vector[T] { return m.(g.Vector[T]) }

func prodShapes(c *Case, max int) [][2]int {
	m, k, n := c.dim(max), c.dim(max), c.dim(max)
	if c.p(0.4) && c.thin == 0 {
		k, n = m, m
	}
	return [][2]int{{m, k}, {k, n}}
}
func sameShapes(c *Case, max int) [][2]int {
	m, n := c.dim(max), c.dim(max)
	if c.p(0.2) {
		n = 1
	} else if c.p(0.3) && c.thin == 0 {
		n = m
	}
	return [][2]int{{m, n}, {m, n}}
}
func vecShapes(c *Case, max int) [][2]int {
	m := c.dim(max)
	if c.p(0.5) {
		m = c.length(max)
	}
	return [][2]int{{m, 1}, {m, 1}}
}
func oneShape(c *Case, max int) [][2]int { return sameShapes(c, max)[:1] }
func firstShape(s [][2]int) (int, int)   { return s[0][0], s[0][1] }

// mulRef is the mathematical product.
func mulRef[T Num](a, b *Ref[T]) *Ref[T] {
	o := newRef[T](a.R, b.C)
	for i := 0; i < a.R; i++ {
		for l := 0; l < a.C; l++ {
			x := a.At(i, l)
			if x == 0 {
				continue
			}
			for j := 0; j < b.C; j++ {
				o.D[i*b.C+j] += x * b.At(l, j)
			}
		}
	}
	return o
}
func zipRef[T Num](a, b *Ref[T], f func(x, y T) T) *Ref[T] {
	o := newRef[T](a.R, a.C)
	for i := range o.D {
		o.D[i] = f(a.D[i], b.D[i])
	}
	return o
}
func mapRef[T Num](a *Ref[T], f func(x T) T) *Ref[T] {
	o := newRef[T](a.R, a.C)
	for i := range o.D {
		o.D[i] = f(a.D[i])
	}
	return o
}

func exactCells[T Num](m *Ref[T]) [][]T {
	o := make([][]T, len(m.D))
	for i, v := range m.D {
		o[i] = []T{v}
	}
	return o
}

func ewVal[T Num](c *Case) T {
	if c.p(0.9) {
		return smallNZ[T](c, 2)
	}
	return anyNZ[T](c, false)
}

func opMxm[T Num]() *Op[T] {
	return &Op[T]{name: "MatrixMatrixMultiply", shapes: prodShapes, vec: []bool{false, false}, product: true,
		out: func(s [][2]int) (int, int) { return s[0][0], s[1][1] },
		run: func(ctx context.Context, u unaryop.UnaryOp[T], in []g.Matrix[T], mask g.Mask, out g.Matrix[T]) {
			g.MatrixMatrixMultiply[T](ctx, in[0], in[1], mask, out)
		},
		spec: func(u unaryop.UnaryOp[T], in []*Ref[T]) [][]T { return exactCells(mulRef(in[0], in[1])) },
		val:  mulVal[T]}
}
func opMxv[T Num]() *Op[T] {
	return &Op[T]{name: "MatrixVectorMultiply", vec: []bool{false, true}, outVec: true, product: true,
		shapes: func(c *Case, max int) [][2]int {
			m, k := c.dim(max), c.dim(max)
			return [][2]int{{m, k}, {k, 1}}
		},
		out: func(s [][2]int) (int, int) { return s[0][0], 1 },
		run: func(ctx context.Context, u unaryop.UnaryOp[T], in []g.Matrix[T], mask g.Mask, out g.Matrix[T]) {
			g.MatrixVectorMultiply[T](ctx, in[0], vecOf(in[1]), mask, vecOf(out))
		},
		spec: func(u unaryop.UnaryOp[T], in []*Ref[T]) [][]T { return exactCells(mulRef(in[0], in[1])) },
		val:  mulVal[T]}
}
func opVxm[T Num]() *Op[T] {
	return &Op[T]{name: "VectorMatrixMultiply", vec: []bool{true, false}, outVec: true, product: true,
		shapes: func(c *Case, max int) [][2]int {
			m, k := c.dim(max), c.dim(max)
			return [][2]int{{k, 1}, {m, k}}
		},
		out: func(s [][2]int) (int, int) { return s[1][0], 1 },
		run: func(ctx context.Context, u unaryop.UnaryOp[T], in []g.Matrix[T], mask g.Mask, out g.Matrix[T]) {
			g.VectorMatrixMultiply[T](ctx, vecOf(in[0]), in[1], mask, vecOf(out))
		},
		spec: func(u unaryop.UnaryOp[T], in []*Ref[T]) [][]T { return exactCells(mulRef(in[1], in[0])) },
		val:  mulVal[T]}
}

func ewMultSpec[T Num](u unaryop.UnaryOp[T], in []*Ref[T]) [][]T {
	o := make([][]T, len(in[0].D))
	for i := range o {
		if a := in[0].D[i]; a != 0 && a == in[1].D[i] {
			o[i] = []T{a}
		}
	}
	return o
}
func ewAddSpec[T Num](u unaryop.UnaryOp[T], in []*Ref[T]) [][]T {
	o := make([][]T, len(in[0].D))
	for i := range o {
		if a := in[0].D[i]; a != 0 {
			o[i] = append(o[i], a)
		}
		if b := in[1].D[i]; b != 0 {
			o[i] = append(o[i], b)
		}
	}
	return o
}
func opEWMultM[T Num]() *Op[T] {
	return &Op[T]{name: "ElementWiseMatrixMultiply", shapes: sameShapes, vec: []bool{false, false}, out: firstShape, alias: true,
		run: func(ctx context.Context, u unaryop.UnaryOp[T], in []g.Matrix[T], mask g.Mask, out g.Matrix[T]) {
			g.ElementWiseMatrixMultiply[T](ctx, in[0], in[1], mask, out)
		}, spec: ewMultSpec[T], val: ewVal[T]}
}
func opEWMultV[T Num]() *Op[T] {
	return &Op[T]{name: "ElementWiseVectorMultiply", shapes: vecShapes, vec: []bool{true, true}, outVec: true, out: firstShape, alias: true,
		run: func(ctx context.Context, u unaryop.UnaryOp[T], in []g.Matrix[T], mask g.Mask, out g.Matrix[T]) {
			g.ElementWiseVectorMultiply[T](ctx, vecOf(in[0]), vecOf(in[1]), mask, vecOf(out))
		}, spec: ewMultSpec[T], val: ewVal[T]}
}
func opEWAddM[T Num]() *Op[T] {
	return &Op[T]{name: "ElementWiseMatrixAdd", shapes: sameShapes, vec: []bool{false, false}, out: firstShape, alias: true,
		run: func(ctx context.Context, u unaryop.UnaryOp[T], in []g.Matrix[T], mask g.Mask, out g.Matrix[T]) {
			g.ElementWiseMatrixAdd[T](ctx, in[0], in[1], mask, out)
		}, spec: ewAddSpec[T], val: ewVal[T]}
}
func opEWAddV[T Num]() *Op[T] {
	return &Op[T]{name: "ElementWiseVectorAdd", shapes: vecShapes, vec: []bool{true, true}, outVec: true, out: firstShape, alias: true,
		run: func(ctx context.Context, u unaryop.UnaryOp[T], in []g.Matrix[T], mask g.Mask, out g.Matrix[T]) {
			g.ElementWiseVectorAdd[T](ctx, vecOf(in[0]), vecOf(in[1]), mask, vecOf(out))
		}, spec: ewAddSpec[T], val: ewVal[T]}
}

func sumVal[T Num](c *Case) T {
	if c.p(0.6) {
		return smallNZ[T](c, 3)
	}
	return anyNZ[T](c, true)
}

func mergeSpec[T Num](f func(x, y T) T) func(u unaryop.UnaryOp[T], in []*Ref[T]) [][]T {
	return func(u unaryop.UnaryOp[T], in []*Ref[T]) [][]T {
		o := make([][]T, len(in[0].D))
		for i := range o {
			if in[0].D[i] != 0 || in[1].D[i] != 0 {
				o[i] = []T{f(in[0].D[i], in[1].D[i])}
			}
		}
		return o
	}
}
func opAdd[T Num]() *Op[T] {
	return &Op[T]{name: "Add", shapes: sameShapes, vec: []bool{false, false}, out: firstShape, alias: true,
		run: func(ctx context.Context, u unaryop.UnaryOp[T], in []g.Matrix[T], mask g.Mask, out g.Matrix[T]) {
			g.Add[T](ctx, in[0], in[1], mask, out)
		}, spec: mergeSpec(func(x, y T) T { return x + y }), val: sumVal[T]}
}
func opSub[T Num]() *Op[T] {
	return &Op[T]{name: "Subtract", shapes: sameShapes, vec: []bool{false, false}, out: firstShape, alias: true,
		run: func(ctx context.Context, u unaryop.UnaryOp[T], in []g.Matrix[T], mask g.Mask, out g.Matrix[T]) {
			g.Subtract[T](ctx, in[0], in[1], mask, out)
		}, spec: mergeSpec(func(x, y T) T { return x - y }), val: sumVal[T]}
}
func opNeg[T Num]() *Op[T] {
	return &Op[T]{name: "Negative", shapes: oneShape, vec: []bool{false}, out: firstShape, alias: true,
		run: func(ctx context.Context, u unaryop.UnaryOp[T], in []g.Matrix[T], mask g.Mask, out g.Matrix[T]) {
			g.Negative[T](ctx, in[0], mask, out)
		},
		spec: func(u unaryop.UnaryOp[T], in []*Ref[T]) [][]T {
			o := make([][]T, len(in[0].D))
			for i, v := range in[0].D {
				if v != 0 {
					o[i] = []T{-v}
				}
			}
			return o
		}, val: sumVal[T]}
}
func opApply[T Num]() *Op[T] {
	return &Op[T]{name: "Apply", shapes: oneShape, vec: []bool{false}, out: firstShape, alias: true,
		run: func(ctx context.Context, u unaryop.UnaryOp[T], in []g.Matrix[T], mask g.Mask, out g.Matrix[T]) {
			g.Apply[T](ctx, in[0], mask, u, out)
		},
		spec: func(u unaryop.UnaryOp[T], in []*Ref[T]) [][]T {
			o := make([][]T, len(in[0].D))
			for i, v := range in[0].D {
				if v != 0 {
					o[i] = []T{u.Apply(v)}
				}
			}
			return o
		}, val: sumVal[T]}
}
func opTranspose[T Num]() *Op[T] {
	return &Op[T]{name: "Transpose", shapes: oneShape, vec: []bool{false},
		out: func(s [][2]int) (int, int) { return s[0][1], s[0][0] },
		run: func(ctx context.Context, u unaryop.UnaryOp[T], in []g.Matrix[T], mask g.Mask, out g.Matrix[T]) {
			g.Transpose[T](ctx, in[0], mask, out)
		},
		spec: func(u unaryop.UnaryOp[T], in []*Ref[T]) [][]T {
			t := in[0].T()
			o := make([][]T, len(t.D))
			for i, v := range t.D {
				if v != 0 {
					o[i] = []T{v}
				}
			}
			return o
		}, val: sumVal[T]}
}

func allOps[T Num]() []*Op[T] {
	return []*Op[T]{opMxm[T](), opMxv[T](), opVxm[T](), opEWMultM[T](), opEWMultV[T](), opEWAddM[T](), opEWAddV[T](), opAdd[T](), opSub[T](), opNeg[T](), opApply[T](), opTranspose[T]()}
}

// unaryFn is a unary operator with f(0)=0, so that dense and sparse inputs
// agree on the cells that hold zero.
func unaryFn[T Num](c *Case) (string, unaryop.UnaryOp[T]) {
	k := T(1 + c.n(5))
	switch c.n(5) {
	case 0:
		return "x", unaryop.NewUnaryOp(func(x T) T { return x })
	case 1:
		return fmt.Sprintf("%v*x", k), unaryop.NewUnaryOp(func(x T) T { return k * x })
	case 2:
		return fmt.Sprintf("x!=0?x+%v:0", k), unaryop.NewUnaryOp(func(x T) T {
			if x == 0 {
				return 0
			}
			return x + k
		})
	case 3:
		return fmt.Sprintf("x==%v?0:x", k), unaryop.NewUnaryOp(func(x T) T {
			if x == k {
				return 0
			}
			return x
		})
	default:
		return "0", unaryop.NewUnaryOp(func(x T) T { return 0 })
	}
}

// FnMask is a user's own mask.
type FnMask struct {
	r, c int
	f    func(r, c int) bool
}

func (m *FnMask) Rows() int    { return m.r }
func (m *FnMask) Columns() int { return m.c }
func (m *FnMask) Element(r, c int) bool {
	if r < 0 || c < 0 || r >= m.r || c >= m.c {
		panic(fmt.Sprintf("mask read at (%d,%d) outside %dx%d", r, c, m.r, m.c))
	}
	return m.f(r, c)
}

// genMask makes a mask of the given shape; sel lists the selected cells (nil
// if none).
func genMask(c *Case, r, k int) (desc string, m g.Mask, sel []bool) {
	switch c.n(9) {
	case 0:
		return "nil mask", nil, nil
	case 1:
		return "empty mask", g.NewEmptyMask(r, k), nil
	case 2:
		p := c.pattern(r, k)
		return "func mask " + patStr(p, k), &FnMask{r, k, func(a, b int) bool { return p[a*k+b] }}, p
	case 3, 4:
		return numMask[float64](c, r, k)
	case 5:
		return numMask[uint8](c, r, k)
	case 6:
		return numMask[int64](c, r, k)
	default:
		return numMask[int](c, r, k)
	}
}

func patStr(p []bool, k int) string {
	s := ""
	for i, b := range p {
		if i > 200 {
			return s + "..."
		}
		if i > 0 && i%k == 0 {
			s += "/"
		}
		if b {
			s += "1"
		} else {
			s += "."
		}
	}
	return s
}

func numMask[T Num](c *Case, r, k int) (string, g.Mask, []bool) {
	kind := c.kind(k, true)
	ref := genRef(c, r, k, func() T {
		if isFloat[T]() && c.p(0.3) {
			h := 0.5
			return T(h)
		}
		if c.p(0.1) {
			return maxOf[T]()
		}
		return T(1 + c.n(3))
	})
	p := make([]bool, r*k)
	for i, v := range ref.D {
		p[i] = v > 0
	}
	return fmt.Sprintf("%s[%s] mask %s", kindName[kind], tname[T](), patStr(p, k)), build(c, kind, ref), p
}

// OpCase is one prepared call of an Op.
type OpCase[T Num] struct {
	op       *Op[T]
	kinds    []int
	in       []*Ref[T]
	inM      []g.Matrix[T]
	mask     g.Mask
	sel      []bool
	maskDesc string
	out      g.Matrix[T]
	outKind  int
	old      *Ref[T]
	aliased  bool
	u        unaryop.UnaryOp[T]
	uName    string
}

type opOpt struct {
	max   int
	mask  float64 // probability of generating a mask
	alias float64
	stale float64 // probability that a separate output has old content
	users bool
}

// related is a matrix much like another: cells are kept, negated, dropped or
// fresh.
func related[T Num](c *Case, m *Ref[T], val func() T) *Ref[T] {
	o := m.Clone()
	neg := c.p(0.3)
	for j := range o.D {
		switch c.n(6) {
		case 0:
			o.D[j] = 0
		case 1:
			o.D[j] = val()
		case 2, 3:
			if neg && isSigned[T]() {
				o.D[j] = 0 - o.D[j]
			}
		}
	}
	return o
}

func positive[T Num](m *Ref[T]) bool {
	for _, v := range m.D {
		if !(v >= 0) { // the truth of negative values is not claimed
			return false
		}
	}
	return true
}

func genOp[T Num](c *Case, op *Op[T], o opOpt) *OpCase[T] {
	if o.max == 0 {
		o.max = 14
	}
	x := &OpCase[T]{op: op}
	sh := op.shapes(c, o.max)
	x.uName, x.u = unaryFn[T](c)
	c.Note("%s[%s]", op.name, tname[T]())
	if op.name == "Apply" {
		c.Note("op %s", x.uName)
	}
	c.Sig(op.name, tname[T]())
	for i, s := range sh {
		ref := genRef(c, s[0], s[1], func() T { return op.val(c) })
		if i == 1 && s == sh[0] && !op.product && c.p(0.5) {
			// share part of the other operand's content
			ref = related(c, x.in[0], func() T { return op.val(c) })
		}
		k := c.kind(s[1], o.users)
		if op.vec[i] {
			k = pick(c, KDVec, KSVec)
		}
		m := build(c, k, ref)
		if i == 1 && s == sh[0] && op.vec[0] == op.vec[1] && c.p(0.12) {
			ref, k, m = x.in[0], x.kinds[0], x.inM[0]
		}
		x.in, x.kinds, x.inM = append(x.in, ref), append(x.kinds, k), append(x.inM, m)
		c.Note("operand %d %s %v", i, kindName[k], ref)
		c.Sig(k, ref.R, ref.C, ref.D)
		c.Count("operand "+kindName[k], 1)
	}
	r, k := op.out(sh)
	if op.alias && c.p(o.alias) {
		i := c.n(len(x.inM))
		x.out, x.outKind, x.old, x.aliased = x.inM[i], x.kinds[i], x.in[i].Clone(), true
		c.Note("output is operand %d", i)
		c.Sig("alias", i)
		c.Count("output aliases an operand", 1)
	} else {
		x.outKind = c.kind(k, o.users)
		if op.outVec {
			x.outKind = pick(c, KDVec, KSVec)
		}
		x.old = newRef[T](r, k)
		if c.p(o.stale) {
			x.old = genRef(c, r, k, func() T { return smallNZ[T](c, 7) })
			if in := x.in[len(x.in)-1]; in.R == r && in.C == k && c.p(0.2) {
				x.old = related(c, in, func() T { return smallNZ[T](c, 7) })
			}
		}
		x.out = build(c, x.outKind, x.old)
		c.Note("output %s old %v", kindName[x.outKind], x.old)
		c.Sig(x.outKind, x.old.D)
	}
	c.Count("output "+kindName[x.outKind], 1)
	if c.p(o.mask) {
		x.maskDesc, x.mask, x.sel = genMask(c, r, k)
		if c.p(0.2) { // a matrix of the operands' type
			x.maskDesc, x.mask, x.sel = numMask[T](c, r, k)
		}
		if i := c.n(len(x.in)); c.p(0.1) && x.out != x.inM[i] { // an operand serves as the mask, too
			if ref := x.in[i]; ref.R == r && ref.C == k && positive(ref) {
				x.maskDesc, x.mask, x.sel = fmt.Sprintf("operand %d as the mask", i), x.inM[i], make([]bool, len(ref.D))
				for j, v := range ref.D {
					x.sel[j] = v > 0
				}
				c.Count("operand as the mask", 1)
			}
		}
		c.Note("%s", x.maskDesc)
		c.Sig(x.maskDesc)
	}
	return x
}

func (x *OpCase[T]) run(ctx context.Context) { x.op.run(ctx, x.u, x.inM, x.mask, x.out) }

// allowed lists the values output cell i may hold afterwards.
func (x *OpCase[T]) allowed(cells [][]T, i int) []T {
	if x.sel != nil && x.sel[i] {
		return []T{x.old.D[i]}
	}
	if a := cells[i]; len(a) > 0 {
		return a
	}
	if x.aliased {
		return []T{0}
	}
	return []T{0, x.old.D[i]}
}

func oneOf[T Num](v T, a []T) bool {
	for _, w := range a {
		if same(v, w) {
			return true
		}
	}
	return false
}

// check verifies the output against the specification.
func (x *OpCase[T]) check(c *Case, key string) {
	cells := x.op.spec(x.u, x.inRefs())
	got := newRef[T](x.old.R, x.old.C)
	if x.out.Rows() != got.R || x.out.Columns() != got.C {
		c.Fail(key+"/shape", "%s: output shape became %dx%d", x.op.name, x.out.Rows(), x.out.Columns())
	}
	for i := range got.D {
		got.D[i] = x.out.At(i/got.C, i%got.C)
	}
	c.Ev(len(got.D))
	masked := 0
	for i, v := range got.D {
		if x.sel != nil && x.sel[i] {
			masked++
		}
		if a := x.allowed(cells, i); !oneOf(v, a) {
			k := key + "/value"
			if x.sel != nil && x.sel[i] {
				k = key + "/masked-cell-changed"
			}
			c.Fail(k, "%s[%s]: output cell (%d,%d) is %v, allowed %v (old %v, masked %v); output %v", x.op.name, tname[T](), i/got.C, i%got.C, v, a, x.old.D[i], x.sel != nil && x.sel[i], got)
		}
	}
	c.Count("cells under a mask", masked)
	want[T](c, key+"/enumeration", x.out, got)
}

func (x *OpCase[T]) inRefs() []*Ref[T] { return x.in }

// print of a matrix as everything observable (for unchanged-input checks).
type snap[T Num] struct {
	r, c, values, size int
	cells              []T
	enum               []string
}

func takeSnap[T Num](x g.MatrixLogical[T]) *snap[T] {
	s := &snap[T]{r: x.Rows(), c: x.Columns(), values: x.Values(), size: x.Size()}
	for i := 0; i < s.r; i++ {
		for j := 0; j < s.c; j++ {
			s.cells = append(s.cells, x.At(i, j))
		}
	}
	n := 0
	for e := x.Enumerate(); e.HasNext() && n <= s.r*s.c; n++ {
		r, k, v := e.Next()
		s.enum = append(s.enum, fmt.Sprintf("(%d,%d)=%v", r, k, v))
	}
	sort.Strings(s.enum)
	return s
}

func (s *snap[T]) diff(o *snap[T]) string {
	switch {
	case s.r != o.r || s.c != o.c:
		return fmt.Sprintf("shape %dx%d became %dx%d", s.r, s.c, o.r, o.c)
	case s.values != o.values:
		return fmt.Sprintf("stored elements %d became %d", s.values, o.values)
	case s.size != o.size:
		return fmt.Sprintf("size %d became %d", s.size, o.size)
	}
	for i := range s.cells {
		if !same(s.cells[i], o.cells[i]) {
			return fmt.Sprintf("cell (%d,%d) %v became %v", i/s.c, i%s.c, s.cells[i], o.cells[i])
		}
	}
	if fmt.Sprint(s.enum) != fmt.Sprint(o.enum) {
		return fmt.Sprintf("enumeration %v became %v", s.enum, o.enum)
	}
	return ""
}
