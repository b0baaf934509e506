//go:build all || c01 || c02 || c03 || c04 || c05 || c06 || c07 || c09 || c10 || c11 || c12 || c13 || c14 || c15 || c17 || c31 || c32

package main

import (
	"fmt"
	"math"
	"sort"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/unaryop"
)

func init() {
	register("C31", 195000, 3900000, "a case is a history of some twenty-four operations on sparse vectors and compressed matrices whose long dimension has 2^38 to 2^63-1 places, each cell, count, view and enumeration compared with a model of the cells; the heap and processor-time monitors watch for work that grows with the dimension; distinct by shape, type and history", perType(c31T[int], c31T[int8], c31T[int16], c31T[int32], c31T[int64], c31T[uint], c31T[uint8], c31T[uint16], c31T[uint32], c31T[uint64], c31T[uintptr], c31T[float32], c31T[float64]))
}

// Vast is a model of a matrix too large to write out.
type Vast[T Num] struct {
	R, C int
	m    map[[2]int]T
}

func newVast[T Num](r, c int) *Vast[T] { return &Vast[T]{r, c, map[[2]int]T{}} }
func (v *Vast[T]) At(p [2]int) T       { return v.m[p] }
func (v *Vast[T]) Set(p [2]int, x T) {
	if x == 0 {
		delete(v.m, p)
	} else {
		v.m[p] = x
	}
}
func (v *Vast[T]) Clone() *Vast[T] {
	o := newVast[T](v.R, v.C)
	for p, x := range v.m {
		o.m[p] = x
	}
	return o
}
func (v *Vast[T]) String() string {
	var ps [][2]int
	for p := range v.m {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i][0] < ps[j][0] || ps[i][0] == ps[j][0] && ps[i][1] < ps[j][1] })
	s := fmt.Sprintf("%dx%d{", v.R, v.C)
	for _, p := range ps {
		s += fmt.Sprintf("(%d,%d)=%v ", p[0], p[1], v.m[p])
	}
	return s + "}"
}

// vastWorld is the shape and the places a case uses.
type vastWorld[T Num] struct {
	c     *Case
	r, k  int
	long  []int // places along the long dimension
	short int
	tall  bool
	pts   [][2]int
	kinds []int
}

func newVastWorld[T Num](c *Case) *vastWorld[T] {
	w := &vastWorld[T]{c: c, tall: c.p(0.6), short: pick(c, 1, 1, 1, 2, 3, 6)}
	if !w.tall && c.p(0.5) {
		w.short = 1 + c.n(6)
	}
	if c.Prop == "C02" {
		w.tall, w.short = true, 1
	}
	l := 1 << (38 + c.n(25))
	if c.Prop != "C31" && c.p(0.5) {
		l = 1 << (13 + c.n(25))
	}
	switch c.n(6) {
	case 0:
		l = math.MaxInt
	case 1:
		l = l - 1
	case 2:
		l = l + 1 + c.n(l/4)
	case 3:
		l = l/2 + int(c.R.Uint64()%uint64(l/2))
	}
	l = min(l, math.MaxInt/w.short)
	add := func(x int) {
		if x >= 0 && x < l {
			for _, y := range w.long {
				if x == y {
					return
				}
			}
			w.long = append(w.long, x)
		}
	}
	b := int(c.R.Uint64() % uint64(l))
	add(b)
	for n := 3 + c.n(9); n > 0; n-- {
		e := 1 << (3 + c.n(60))
		switch c.n(12) {
		case 0:
			add(0)
		case 1:
			add(l - 1)
		case 2:
			add(l - 1 - c.n(3))
		case 3: // places equal to b when cut to fewer bits
			add(b % e)
		case 4:
			add(b + e)
		case 5:
			add(b - e)
		case 6:
			add(e)
		case 7:
			add(e - 1)
		case 8:
			add(1<<53 + c.n(3))
		case 9:
			add(b + 1)
		case 10:
			add(c.n(4))
		default:
			add(int(c.R.Uint64() % uint64(l)))
		}
	}
	if w.tall {
		w.r, w.k = l, w.short
		w.kinds = []int{KCSC}
		if w.k == 1 && c.Prop != "C01" {
			w.kinds = []int{KSVec, KSVec, KCSC}
			if c.Prop == "C02" {
				w.kinds = []int{KSVec}
			}
		}
	} else {
		w.r, w.k = w.short, l
		w.kinds = []int{KCSR}
	}
	for _, x := range w.long {
		for s := 0; s < w.short; s++ {
			if w.tall {
				w.pts = append(w.pts, [2]int{x, s})
			} else {
				w.pts = append(w.pts, [2]int{s, x})
			}
		}
	}
	if l >= 1<<38-1 {
		c.Count("sizes of 2^38 and above", 1)
	}
	return w
}

// vastWant compares everything observable at the world's places.
func vastWant[T Num](c *Case, key string, x g.MatrixLogical[T], m *Vast[T], pts [][2]int) {
	if x.Rows() != m.R || x.Columns() != m.C {
		c.Fail(key, "%s: shape %dx%d, want %dx%d", tname[T](), x.Rows(), x.Columns(), m.R, m.C)
	}
	for _, p := range pts {
		if v := x.At(p[0], p[1]); v != m.At(p) {
			c.Fail(key, "%s: cell (%d,%d) is %v, want %v; want matrix %v", tname[T](), p[0], p[1], v, m.At(p), m)
		}
	}
	c.Ev(len(pts) + 2)
	if n := x.Values(); n != len(m.m) {
		c.Fail(key, "%s: Values is %d, want %d of %v", tname[T](), n, len(m.m), m)
	}
	if n := x.Size(); n != m.R*m.C {
		c.Fail(key, "%s: Size is %d, want %d", tname[T](), n, m.R*m.C)
	}
	seen := map[[2]int]bool{}
	for it := x.Enumerate(); it.HasNext(); {
		r, k, v := it.Next()
		p := [2]int{r, k}
		if seen[p] {
			c.Fail(key, "%s: enumeration yields (%d,%d) twice; want matrix %v", tname[T](), r, k, m)
		}
		seen[p] = true
		if w, ok := m.m[p]; !ok || w != v {
			c.Fail(key, "%s: enumeration yields (%d,%d)=%v, want %v; want matrix %v", tname[T](), r, k, v, w, m)
		}
	}
	c.Ev(len(seen))
	if len(seen) != len(m.m) {
		c.Fail(key, "%s: enumeration yields %d elements, want the %d of %v", tname[T](), len(seen), len(m.m), m)
	}
}

func (w *vastWorld[T]) want(key string, x g.MatrixLogical[T], m *Vast[T]) {
	vastWant(w.c, key, x, m, w.pts)
}

func (w *vastWorld[T]) place() [2]int { return w.pts[w.c.n(len(w.pts))] }

// vastVal is any value that stays clear of infinities and NaN.
func vastVal[T Num](c *Case) T {
	if c.p(0.8) {
		return smallNZ[T](c, 2)
	}
	if isFloat[T]() {
		x := float64(c.n(2000)-1000) / 8
		return T(x)
	}
	return anyVal[T](c, false)
}

type vastSlot[T Num] struct {
	x    g.Matrix[T]
	m    *Vast[T]
	kind int
}

func (w *vastWorld[T]) slot(fill bool) *vastSlot[T] {
	c := w.c
	s := &vastSlot[T]{kind: w.kinds[c.n(len(w.kinds))], m: newVast[T](w.r, w.k)}
	s.x = empty[T](s.kind, w.r, w.k)
	if fill {
		for _, i := range c.R.Perm(len(w.pts)) {
			if c.p(0.5) {
				v := vastVal[T](c)
				s.x.Set(w.pts[i][0], w.pts[i][1], v)
				s.m.Set(w.pts[i], v)
			}
		}
	}
	return s
}

// mask makes a mask of the world's shape and says which places it selects.
func (w *vastWorld[T]) mask() (g.Mask, func(p [2]int) bool) {
	c := w.c
	none := func([2]int) bool { return false }
	switch c.n(6) {
	case 0:
		return g.NewEmptyMask(w.r, w.k), none
	case 1, 2:
		sel := map[[2]int]bool{}
		s := w.slot(false)
		for _, p := range w.pts {
			if c.p(0.3) {
				s.x.Set(p[0], p[1], T(1+c.n(4)))
				sel[p] = true
			}
		}
		return s.x, func(p [2]int) bool { return sel[p] }
	case 3:
		sel := map[[2]int]bool{}
		for _, p := range w.pts {
			sel[p] = c.p(0.3)
		}
		return &FnMask{w.r, w.k, func(a, b int) bool { return sel[[2]int{a, b}] }}, func(p [2]int) bool { return sel[p] }
	}
	return nil, none
}

// settle checks an output: masked places keep their content, places in the
// result's pattern show the result, the others keep theirs or become zero.
func (w *vastWorld[T]) settle(key string, out *vastSlot[T], sel func([2]int) bool, spec func(p [2]int) []T) {
	for _, p := range w.pts {
		v := out.x.At(p[0], p[1])
		old := out.m.At(p)
		ok := []T{old}
		if !sel(p) {
			if s := spec(p); len(s) > 0 {
				ok = s
			} else {
				ok = append(ok, 0)
			}
		}
		good := false
		for _, o := range ok {
			good = good || v == o
		}
		if !good {
			w.c.Fail(key, "%s: cell (%d,%d) is %v, want one of %v (it held %v)", tname[T](), p[0], p[1], v, ok, old)
		}
		out.m.Set(p, v)
	}
	w.want(key, out.x, out.m)
}

func c31T[T Num](c *Case) { c31Run[T](c, nil) }

// vast makes one case in sixty a history on objects with a vast dimension, of
// writes and the given operations of C31.
func vast[T Num](c *Case, ops ...int) bool {
	if c.Prop == "C32" || c.Idx%61 != 17 {
		return false
	}
	c.Count("objects with a vast dimension", 1)
	c31Run[T](c, ops)
	return true
}

func c31Run[T Num](c *Case, ops []int) {
	ctx := c.Ctx()
	w := newVastWorld[T](c)
	slots := []*vastSlot[T]{w.slot(c.p(0.8)), w.slot(true), w.slot(false)}
	c.Note("%dx%d[%s] %s places %v", w.r, w.k, tname[T](), kindName[slots[0].kind], w.long)
	c.Sig(w.r, w.k, tname[T](), w.long, slots[0].kind, slots[0].m, slots[1].m)
	for _, s := range slots {
		w.want("C31/built", s.x, s.m)
	}
	mapped := func(m *Vast[T], f func(T) T) *Vast[T] {
		o := newVast[T](m.R, m.C)
		for p, v := range m.m {
			o.Set(p, f(v))
		}
		return o
	}
	for step := 0; step < 24; step++ {
		i := c.n(len(slots))
		s := slots[i]
		o := slots[c.n(len(slots))]
		op := c.n(22)
		if len(ops) > 0 {
			if op = c.n(6); c.p(0.5) {
				op = ops[c.n(len(ops))]
			}
		}
		c.Sig(op, i)
		switch op {
		case 0, 1, 2, 3:
			p := w.place()
			v := vastVal[T](c)
			if c.p(0.3) {
				v = 0
			}
			c.Note("set (%d,%d)=%v", p[0], p[1], v)
			s.x.Set(p[0], p[1], v)
			s.m.Set(p, v)
			w.want("C31/set", s.x, s.m)
		case 4, 5:
			p := w.place()
			v := vastVal[T](c)
			c.Note("update (%d,%d)=%v", p[0], p[1], v)
			s.x.Update(p[0], p[1], func(old T) T {
				if old != s.m.At(p) {
					c.Fail("C31/update", "%s: Update at (%d,%d) is given %v, want %v", tname[T](), p[0], p[1], old, s.m.At(p))
				}
				return v
			})
			s.m.Set(p, v)
			w.want("C31/update", s.x, s.m)
		case 6:
			c.Note("map")
			z := pick(c, 0, 0.4, 1)
			out := newVast[T](w.r, w.k)
			n := 0
			for it := s.x.Map(); it.HasNext(); {
				if n++; n > len(s.m.m) {
					c.Fail("C31/map", "%s: Map goes on after the %d elements of %v", tname[T](), len(s.m.m), s.m)
				}
				it.Map(func(r, k int, v T) T {
					if s.m.At([2]int{r, k}) != v || v == 0 {
						c.Fail("C31/map", "%s: Map gives (%d,%d)=%v of %v", tname[T](), r, k, v, s.m)
					}
					nv := vastVal[T](c)
					if c.p(z) {
						nv = 0
					}
					out.Set([2]int{r, k}, nv)
					return nv
				})
			}
			if n != len(s.m.m) {
				c.Fail("C31/map", "%s: Map ends after %d of the elements of %v", tname[T](), n, s.m)
			}
			s.m = out
			w.want("C31/map", s.x, s.m)
		case 7:
			if c.p(0.7) {
				continue
			}
			c.Note("clear")
			s.x.Clear()
			s.m = newVast[T](w.r, w.k)
			w.want("C31/clear", s.x, s.m)
		case 8:
			c.Note("copy")
			y := s.x.Copy()
			w.want("C31/copy", y, s.m)
			p, v := w.place(), vastVal[T](c)
			old := s.m.Clone()
			s.x.Set(p[0], p[1], v)
			s.m.Set(p, v)
			w.want("C31/copy", y, old)
			q := w.place()
			y.Set(q[0], q[1], 0)
			old.Set(q, 0)
			w.want("C31/copy", s.x, s.m)
			slots[c.n(len(slots))] = &vastSlot[T]{y, old, s.kind}
		case 9:
			p := w.place()
			c.Note("views at (%d,%d)", p[0], p[1])
			row, col := newVast[T](w.k, 1), newVast[T](w.r, 1)
			var rp, cp [][2]int
			for _, q := range w.pts {
				if q[0] == p[0] {
					row.Set([2]int{q[1], 0}, s.m.At(q))
					rp = append(rp, [2]int{q[1], 0})
				}
				if q[1] == p[1] {
					col.Set([2]int{q[0], 0}, s.m.At(q))
					cp = append(cp, [2]int{q[0], 0})
				}
			}
			vastWant[T](c, "C31/row", s.x.RowsAt(p[0]), row, rp)
			vastWant[T](c, "C31/column", s.x.ColumnsAt(p[1]), col, cp)
			if w.tall {
				a := s.x.RowsAtToArray(p[0])
				if len(a) != w.k {
					c.Fail("C31/array", "row array has length %d, want %d", len(a), w.k)
				}
				for j, v := range a {
					if v != s.m.At([2]int{p[0], j}) {
						c.Fail("C31/array", "%s: row array of row %d has %v at %d, want %v", tname[T](), p[0], v, j, s.m.At([2]int{p[0], j}))
					}
				}
			}
		case 10:
			a := smallNZ[T](c, 3)
			c.Note("scale by %v", a)
			want := mapped(s.m, func(v T) T { return a * v })
			y := s.x.Scalar(a)
			w.want("C31/scale", y, want)
			w.want("C31/scale-operand", s.x, s.m)
		case 11:
			c.Note("negate")
			want := mapped(s.m, func(v T) T { return -v })
			if c.p(0.5) {
				w.want("C31/negate", s.x.Negative(), want)
			} else {
				out := w.slot(c.p(0.4))
				mask, sel := w.mask()
				g.Negative[T](ctx, s.x, mask, out.x)
				w.settle("C31/negate", out, sel, func(p [2]int) []T {
					if v := want.At(p); v != 0 {
						return []T{v}
					}
					return nil
				})
			}
		case 12, 13, 14, 15:
			c31Merge(w, s, o, op)
		case 16:
			same := len(s.m.m) == len(o.m.m)
			for p, v := range s.m.m {
				same = same && o.m.At(p) == v
			}
			c.Note("compare")
			y := o
			if c.p(0.6) { // equal but for one place, or equal
				y = &vastSlot[T]{w.slot(false).x, s.m.Clone(), 0}
				if c.p(0.7) {
					p := w.place()
					switch q := w.place(); c.n(3) {
					case 0:
						y.m.Set(p, vastVal[T](c))
					case 1:
						y.m.Set(p, 0)
					default: // moved to another place
						v := y.m.At(p)
						y.m.Set(p, y.m.At(q))
						y.m.Set(q, v)
					}
				}
				for p, v := range y.m.m {
					y.x.Set(p[0], p[1], v)
				}
				same = len(s.m.m) == len(y.m.m)
				for p, v := range s.m.m {
					same = same && y.m.At(p) == v
				}
			}
			c.Ev(4)
			c.Count(fmt.Sprintf("compared, equal %v", same), 1)
			if e := s.x.Equal(y.x); e != same {
				c.Fail("C31/equal", "%s: Equal is %v of %v and %v", tname[T](), e, s.m, y.m)
			}
			if e := y.x.NotEqual(s.x); e == same {
				c.Fail("C31/equal", "%s: NotEqual is %v of %v and %v", tname[T](), e, y.m, s.m)
			}
			if e := g.Equal[T](ctx, y.x, s.x); e != same {
				c.Fail("C31/equal", "%s: Equal is %v of %v and %v", tname[T](), e, y.m, s.m)
			}
		case 17:
			c.Note("transpose")
			t := newVast[T](w.k, w.r)
			var tp [][2]int
			for _, p := range w.pts {
				t.Set([2]int{p[1], p[0]}, s.m.At(p))
				tp = append(tp, [2]int{p[1], p[0]})
			}
			var y, z g.Matrix[T]
			if w.tall {
				y = g.TransposeToCSR[T](ctx, s.x)
				vastWant[T](c, "C31/transpose", y, t, tp)
				z = g.TransposeToCSC[T](ctx, y)
			} else {
				y = g.TransposeToCSC[T](ctx, s.x)
				vastWant[T](c, "C31/transpose", y, t, tp)
				z = g.TransposeToCSR[T](ctx, y)
			}
			w.want("C31/transpose-twice", z, s.m)
		case 18:
			c.Note("reduce")
			if isFloat[T]() {
				continue
			}
			mask, sel := w.mask()
			var sum T
			for p, v := range s.m.m {
				if !sel(p) {
					sum += v
				}
			}
			c.Ev(1)
			if v := g.ReduceMatrixToScalar[T](ctx, s.x, mask); v != sum {
				c.Fail("C31/reduce", "%s: the sum is %v, want %v of %v", tname[T](), v, sum, s.m)
			}
		case 19:
			if !w.tall {
				continue
			}
			c.Note("reduce columns")
			v := g.ReduceMatrixToVector[T](ctx, s.x)
			if v.Length() != w.k {
				c.Fail("C31/reduce-columns", "the column maxima are %d, want %d", v.Length(), w.k)
			}
			for j := 0; j < w.k; j++ {
				var best T
				n := 0
				for p, x := range s.m.m {
					if p[1] == j && (n == 0 || x > best) {
						best = x
						n++
					}
				}
				if n == 0 || best < 0 {
					continue // what an all-negative or empty column gives is not C31's business
				}
				c.Ev(1)
				if v.AtVec(j) != best {
					c.Fail("C31/reduce-columns", "%s: column %d has maximum %v, want %v of %v", tname[T](), j, v.AtVec(j), best, s.m)
				}
			}
		case 20:
			c.Note("apply")
			mask, sel := w.mask()
			f := func(v T) T { return v + v + 1 }
			out := s
			if c.p(0.6) {
				out = w.slot(c.p(0.4))
			}
			src := s.m.Clone()
			g.Apply[T](ctx, s.x, mask, unaryop.NewUnaryOp(f), out.x)
			w.settle("C31/apply", out, sel, func(p [2]int) []T {
				if v := src.At(p); v != 0 {
					return []T{f(v)}
				}
				return nil
			})
		default: // invalid places are still refused
			bad := [][2]int{{-1, 0}, {0, -1}, {w.r, 0}, {0, w.k}, {math.MinInt, 0}, {0, math.MinInt}}
			if w.tall {
				bad = append(bad, [2]int{0, w.k + 1<<32}, [2]int{w.place()[0], 1 << 40})
			} else {
				bad = append(bad, [2]int{w.r + 1<<32, 0}, [2]int{1 << 40, w.place()[1]})
			}
			b := bad[c.n(len(bad))]
			c.Ev(2)
			if p, _ := panics(func() { s.x.At(b[0], b[1]) }); !p {
				c.Fail("C31/refused", "reading (%d,%d) of %dx%d is not refused", b[0], b[1], w.r, w.k)
			}
			if p, _ := panics(func() { s.x.Set(b[0], b[1], 1) }); !p {
				c.Fail("C31/refused", "writing (%d,%d) of %dx%d is not refused", b[0], b[1], w.r, w.k)
			}
			w.want("C31/refused", s.x, s.m)
		}
	}
	for _, s := range slots {
		w.want("C31/end", s.x, s.m)
	}
}

// c31Merge runs a sum, difference, intersection or union.
func c31Merge[T Num](w *vastWorld[T], s, o *vastSlot[T], op int) {
	c := w.c
	ctx := c.Ctx()
	a, b := s.m.Clone(), o.m.Clone()
	mask, sel := w.mask()
	out := w.slot(c.p(0.3))
	if c.p(0.3) && s.x != o.x {
		out = pick(c, s, o)
	}
	merge := func(f func(x, y T) T) func(p [2]int) []T {
		return func(p [2]int) []T {
			x, y := a.At(p), b.At(p)
			if x == 0 && y == 0 {
				return nil
			}
			return []T{f(x, y)}
		}
	}
	switch op {
	case 12, 13:
		f := func(x, y T) T { return x + y }
		if op == 13 {
			f = func(x, y T) T { return x - y }
		}
		c.Note("merge %d", op)
		if c.p(0.5) {
			var y g.Matrix[T]
			if op == 12 {
				y = s.x.Add(o.x)
			} else {
				y = s.x.Subtract(o.x)
			}
			m := newVast[T](w.r, w.k)
			for _, p := range w.pts {
				m.Set(p, f(a.At(p), b.At(p)))
			}
			w.want("C31/sum", y, m)
			w.want("C31/sum-operand", s.x, s.m)
			w.want("C31/sum-operand", o.x, o.m)
			return
		}
		if op == 12 {
			g.Add[T](ctx, s.x, o.x, mask, out.x)
		} else {
			g.Subtract[T](ctx, s.x, o.x, mask, out.x)
		}
		w.settle("C31/sum", out, sel, merge(f))
	case 14:
		c.Note("intersect")
		if w.k == 1 && s.kind == KSVec && o.kind == KSVec && out.kind == KSVec && c.p(0.5) {
			g.ElementWiseVectorMultiply[T](ctx, vecOf(s.x), vecOf(o.x), mask, vecOf(out.x))
		} else {
			g.ElementWiseMatrixMultiply[T](ctx, s.x, o.x, mask, out.x)
		}
		w.settle("C31/intersect", out, sel, func(p [2]int) []T {
			if x := a.At(p); x != 0 && x == b.At(p) {
				return []T{x}
			}
			return nil
		})
	default:
		c.Note("unite")
		if w.k == 1 && s.kind == KSVec && o.kind == KSVec && out.kind == KSVec && c.p(0.5) {
			g.ElementWiseVectorAdd[T](ctx, vecOf(s.x), vecOf(o.x), mask, vecOf(out.x))
		} else {
			g.ElementWiseMatrixAdd[T](ctx, s.x, o.x, mask, out.x)
		}
		w.settle("C31/unite", out, sel, func(p [2]int) []T {
			var r []T
			if x := a.At(p); x != 0 {
				r = append(r, x)
			}
			if y := b.At(p); y != 0 {
				r = append(r, y)
			}
			return r
		})
	}
}
