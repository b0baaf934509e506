//go:build all || c04 || c32

package main

import (
	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/unaryop"
)

func init() {
	register("C04", 109200, 2184000, "a case is one map over one matrix or vector (call count, coordinates, values seen and results monitored; some results zero) or one apply of a recording unary operator, in place or to a separate output; non-trivial if at least one element was stored; distinct by format, type, content and function", perType(c04T[int], c04T[int8], c04T[int16], c04T[int32], c04T[int64], c04T[uint], c04T[uint8], c04T[uint16], c04T[uint32], c04T[uint64], c04T[uintptr], c04T[float32], c04T[float64]))
}

func c04T[T Num](c *Case) {
	if vast[T](c, 6, 20) {
		return
	}
	switch c.n(3) {
	case 0:
		c04Apply[T](c)
	case 1:
		x := genOp(c, opApply[T](), opOpt{max: 20, mask: 0.3, alias: 0.5, stale: 0.3, users: true})
		if x.in[0].NNZ() == 0 {
			c.Trivial()
		}
		x.run(c.Ctx())
		x.check(c, "C04/apply")
	default:
		c04Map[T](c)
	}
}

func c04Map[T Num](c *Case) {
	r, k := c.dim(24), c.dim(24)
	if c.p(0.25) {
		k = 1
	}
	kind := c.kind(k, false)
	ref := genRef(c, r, k, func() T { return anyNZ[T](c, true) })
	x := build(c, kind, ref)
	c.Note("Map %s[%s] %v", kindName[kind], tname[T](), ref)
	c.Sig("map", kind, tname[T](), ref.R, ref.C, ref.D)
	if ref.NNZ() == 0 {
		c.Trivial()
	}
	for round := 0; round < 3; round++ {
		zeroP := pick(c, 0, 0, 0.3, 0.7, 1)
		for n := c.n(5) - 2; n > 0; n-- { // a map that is left before its end
			left := x.Map()
			for s := c.n(4); s > 0 && left.HasNext(); s-- {
				left.Map(func(a, b int, v T) T {
					if !same(v, ref.At(a, b)) {
						c.Fail("C04/map-value", "Map gives (%d,%d)=%v, the matrix holds %v: %v", a, b, v, ref.At(a, b), ref)
					}
					if c.p(0.5) {
						v = pick(c, 0, anyVal[T](c, true))
					}
					ref.Set(a, b, v)
					return v
				})
			}
			c.Count("maps left before their end", 1)
		}
		out := newRef[T](r, k)
		seen := make([]int, r*k)
		calls := 0
		limit := r*k + 2
		m := x.Map()
		steps := 0
		for m.HasNext() {
			if steps++; steps > limit {
				c.Fail("C04/map-calls", "Map over %v does not end after %d steps", ref, limit)
			}
			before := calls
			m.Map(func(a, b int, v T) T {
				calls++
				if a < 0 || b < 0 || a >= r || b >= k {
					c.Fail("C04/map-coordinates", "Map calls its function at (%d,%d) of a %dx%d matrix", a, b, r, k)
				}
				if seen[a*k+b]++; seen[a*k+b] > 1 {
					c.Fail("C04/map-twice", "Map calls its function twice at (%d,%d) of %v", a, b, ref)
				}
				if !same(v, ref.At(a, b)) {
					c.Fail("C04/map-value", "Map gives (%d,%d)=%v, the matrix holds %v: %v", a, b, v, ref.At(a, b), ref)
				}
				if c.p(0.1) {
					now := ref.Clone()
					for i, n := range seen {
						if n > 0 {
							now.D[i] = out.D[i]
						}
					}
					readInside[T](c, "C04/inside", x, now, a*k+b)
				}
				nv := anyVal[T](c, true)
				if c.p(zeroP) {
					nv = 0
				}
				out.Set(a, b, nv)
				return nv
			})
			if calls != before+1 {
				c.Fail("C04/map-calls", "one step of Map calls its function %d times", calls-before)
			}
		}
		for i, v := range ref.D {
			must := !isSparseKind(kind) || v != 0
			if must && seen[i] != 1 {
				c.Fail("C04/map-missed", "Map does not call its function at (%d,%d) of %s %v", i/k, i%k, kindName[kind], ref)
			}
			if isSparseKind(kind) && v == 0 && seen[i] != 0 {
				c.Fail("C04/map-extra", "Map of a sparse format visits the zero cell (%d,%d) of %v", i/k, i%k, ref)
			}
		}
		c.Ev(calls)
		c.Count("map calls", calls)
		want[T](c, "C04/map-result", x, out)
		ref = out
		if c.p(0.4) { // the matrix must go on working
			for n := 0; n < 4; n++ {
				j := c.n(r * k)
				v := anyVal[T](c, false)
				x.Set(j/k, j%k, v)
				ref.D[j] = v
			}
			want[T](c, "C04/after-map", x, ref)
		}
	}
}

// c04Apply: the operator itself is watched.
func c04Apply[T Num](c *Case) {
	r, k := c.dim(20), c.dim(20)
	if c.p(0.25) {
		k = 1
	}
	kind := c.kind(k, true)
	ref := genRef(c, r, k, func() T { return anyNZ[T](c, false) })
	x := build(c, kind, ref)
	inPlace := c.p(0.5)
	out := x
	outKind := kind
	if !inPlace {
		outKind = c.kind(k, true)
		out = empty[T](outKind, r, k)
	}
	c.Note("Apply inPlace=%v %s[%s] to %s, %v", inPlace, kindName[kind], tname[T](), kindName[outKind], ref)
	c.Sig("apply", inPlace, kind, outKind, tname[T](), ref.R, ref.C, ref.D)
	if ref.NNZ() == 0 {
		c.Trivial()
	}
	counts := map[T]int{}
	add := T(1 + c.n(100))
	u := unaryop.NewUnaryOp(func(v T) T {
		counts[v]++
		if v == 0 {
			return 0
		}
		return v*2 + add
	})
	g.Apply[T](c.Ctx(), x, nil, u, out)
	wantCounts := map[T]int{}
	for _, v := range ref.D {
		if v != 0 {
			wantCounts[v]++
		}
	}
	for v, n := range wantCounts {
		if counts[v] != n {
			c.Fail("C04/apply-calls", "Apply called the operator %d times on %v, which occurs %d times in %v", counts[v], v, n, ref)
		}
	}
	for v, n := range counts {
		if v != 0 && wantCounts[v] != n {
			c.Fail("C04/apply-calls", "Apply called the operator %d times on %v, which occurs %d times", n, v, wantCounts[v])
		}
	}
	c.Ev(len(counts))
	want[T](c, "C04/apply", out, mapRef(ref, func(v T) T {
		if v == 0 {
			return 0
		}
		return v*2 + add
	}))
	if !inPlace {
		want[T](c, "C04/apply-input", x, ref)
	}
}
