//go:build all || c18

package main

import (
	"fmt"
	"runtime"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	g "github.com/rossmerr/graphblas"
)

func init() {
	register("C18", 24000, 240000, "a case is one concurrent history on a mutex-wrapped matrix: recorded calls and answers checked for linearizability, or a storm of updates checked for conservation; half of the inner matrices are instrumented to notice overlapping writers; distinct by format, type, shape and program", perType(c18T[int], c18T[float64], c18T[uint8], c18T[int64], c18T[float32], c18T[uint16]))
}

// exclusive is an inner matrix whose monitor notices a writer overlapping
// anything else, and which stretches every call.
type exclusive[T Num] struct {
	g.Matrix[T]
	readers, writers atomic.Int32
	bad              atomic.Pointer[string]
	overlaps         atomic.Int64
	calls            atomic.Int64
}

func (e *exclusive[T]) note(what string) {
	s := what
	e.bad.CompareAndSwap(nil, &s)
}
func (e *exclusive[T]) read(name string) func() {
	e.calls.Add(1)
	if e.readers.Add(1) > 1 {
		e.overlaps.Add(1)
	}
	chk := func() {
		if e.writers.Load() != 0 {
			e.note(name + " while a writer is inside")
		}
	}
	chk()
	stretch(e.calls.Load())
	return func() { chk(); e.readers.Add(-1) }
}
func (e *exclusive[T]) write(name string) func() {
	e.calls.Add(1)
	chk := func() {
		if e.writers.Load() != 1 || e.readers.Load() != 0 {
			e.note(name + " while another call is inside")
		}
	}
	e.writers.Add(1)
	chk()
	stretch(e.calls.Load())
	return func() { chk(); e.writers.Add(-1) }
}
func stretch(n int64) {
	for i := n * 7 % 5; i > 0; i-- {
		runtime.Gosched()
	}
}
func (e *exclusive[T]) At(r, c int) T     { defer e.read("At")(); return e.Matrix.At(r, c) }
func (e *exclusive[T]) Set(r, c int, v T) { defer e.write("Set")(); e.Matrix.Set(r, c, v) }
func (e *exclusive[T]) Update(r, c int, f func(T) T) {
	defer e.write("Update")()
	e.Matrix.Update(r, c, func(v T) T { stretch(e.calls.Load() + 3); return f(v) })
}
func (e *exclusive[T]) Clear() { defer e.write("Clear")(); e.Matrix.Clear() }
func (e *exclusive[T]) Values() int {
	defer e.read("Values")()
	return e.Matrix.Values()
}
func (e *exclusive[T]) RowsAt(r int) g.VectorLogial[T] {
	defer e.read("RowsAt")()
	return e.Matrix.RowsAt(r)
}
func (e *exclusive[T]) ColumnsAt(c int) g.VectorLogial[T] {
	defer e.read("ColumnsAt")()
	return e.Matrix.ColumnsAt(c)
}
func (e *exclusive[T]) RowsAtToArray(r int) []T {
	defer e.read("RowsAtToArray")()
	return e.Matrix.RowsAtToArray(r)
}
func (e *exclusive[T]) Copy() g.Matrix[T] { defer e.read("Copy")(); return e.Matrix.Copy() }
func (e *exclusive[T]) CopyLogical() g.MatrixLogical[T] {
	defer e.read("CopyLogical")()
	return e.Matrix.CopyLogical()
}
func (e *exclusive[T]) Scalar(a T) g.Matrix[T] { defer e.read("Scalar")(); return e.Matrix.Scalar(a) }
func (e *exclusive[T]) Multiply(m g.Matrix[T]) g.Matrix[T] {
	defer e.read("Multiply")()
	return e.Matrix.Multiply(m)
}
func (e *exclusive[T]) Add(m g.Matrix[T]) g.Matrix[T] {
	defer e.read("Add")()
	return e.Matrix.Add(m)
}
func (e *exclusive[T]) Subtract(m g.Matrix[T]) g.Matrix[T] {
	defer e.read("Subtract")()
	return e.Matrix.Subtract(m)
}
func (e *exclusive[T]) Negative() g.MatrixLogical[T] {
	defer e.read("Negative")()
	return e.Matrix.Negative()
}
func (e *exclusive[T]) Transpose() g.MatrixLogical[T] {
	defer e.read("Transpose")()
	return e.Matrix.Transpose()
}
func (e *exclusive[T]) Equal(m g.MatrixLogical[T]) bool {
	defer e.read("Equal")()
	return e.Matrix.Equal(m)
}
func (e *exclusive[T]) NotEqual(m g.MatrixLogical[T]) bool {
	defer e.read("NotEqual")()
	return e.Matrix.NotEqual(m)
}
func (e *exclusive[T]) Element(r, c int) bool {
	defer e.read("Element")()
	return e.Matrix.Element(r, c)
}

const (
	mSet = iota
	mAt
	mUpdate
	mClear
	mValues
	mRowsAt
	mColumnsAt
	mRowArray
	mCopy
	mScalar
	mAdd
	mSubtract
	mNegative
	mTranspose
	mMultiply
	mEqual
	mNotEqual
	mElement
	mMap
	mEnumerate
	mBad
	mBadUpdate
	mShape
	mOps
)

var mName = []string{"Set", "At", "Update", "Clear", "Values", "RowsAt", "ColumnsAt", "RowsAtToArray", "Copy", "Scalar", "Add", "Subtract", "Negative", "Transpose", "Multiply", "Equal", "NotEqual", "Element", "Map under the lock", "Enumerate under the lock", "a call that panics", "Update that panics", "Rows/Columns/Size"}

type mIn[T Num] struct {
	op, r, c int
	v        T
	m        *Ref[T]
	mat      g.Matrix[T]
	variant  int
}
type mOut[T Num] struct {
	cells [6]T
	n     int
	b     bool
	err   string
}

func (i mIn[T]) String() string {
	return fmt.Sprintf("%s(%d,%d,%v,%v)", mName[i.op], i.r, i.c, i.v, i.m)
}

type c18[T Num] struct {
	r, k   int
	sparse bool
	w      *g.MutexMatrix[T]
}

// step is the sequential specification.
func (h *c18[T]) step(s [6]T, in mIn[T], out mOut[T]) (bool, [6]T) {
	i := in.r*h.k + in.c
	all := func(f func(r, c int) T, rows, cols int) bool {
		for a := 0; a < rows; a++ {
			for b := 0; b < cols; b++ {
				if out.cells[a*cols+b] != f(a, b) {
					return false
				}
			}
		}
		return true
	}
	at := func(r, c int) T { return s[r*h.k+c] }
	switch in.op {
	case mSet:
		s[i] = in.v
		return true, s
	case mAt:
		return out.cells[0] == s[i], s
	case mUpdate:
		ok := out.cells[0] == s[i] && out.n == 1
		s[i] = s[i] + in.v
		return ok, s
	case mClear:
		return true, [6]T{}
	case mValues:
		n := h.r * h.k
		if h.sparse {
			n = 0
			for _, v := range s {
				if v != 0 {
					n++
				}
			}
		}
		return out.n == n, s
	case mRowsAt, mRowArray:
		return all(func(_, c int) T { return at(in.r, c) }, 1, h.k), s
	case mColumnsAt:
		return all(func(_, r int) T { return at(r, in.c) }, 1, h.r), s
	case mCopy, mEnumerate:
		return all(at, h.r, h.k), s
	case mScalar:
		return all(func(r, c int) T { return at(r, c) * in.v }, h.r, h.k), s
	case mAdd:
		return all(func(r, c int) T { return at(r, c) + in.m.At(r, c) }, h.r, h.k), s
	case mSubtract:
		return all(func(r, c int) T { return at(r, c) - in.m.At(r, c) }, h.r, h.k), s
	case mNegative:
		return all(func(r, c int) T { return -at(r, c) }, h.r, h.k), s
	case mTranspose:
		return all(func(r, c int) T { return at(c, r) }, h.k, h.r), s
	case mMultiply:
		return all(func(r, c int) T {
			var t T
			for l := 0; l < h.k; l++ {
				t += at(r, l) * in.m.At(l, c)
			}
			return t
		}, h.r, in.m.C), s
	case mEqual, mNotEqual:
		eq := true
		for j, v := range in.m.D {
			eq = eq && s[j] == v
		}
		return out.b == (eq == (in.op == mEqual)), s
	case mElement:
		return out.b == (s[i] > 0), s
	case mMap:
		for j := range s {
			s[j] = s[j] * in.v
		}
		return true, s
	}
	return true, s // the panicking calls and the shape change nothing
}

func (h *c18[T]) do(in mIn[T]) (out mOut[T]) {
	w := h.w
	grab := func(x g.MatrixLogical[T], r, k int) {
		if x.Rows() != r || x.Columns() != k {
			out.err = fmt.Sprintf("%s gave shape %dx%d", mName[in.op], x.Rows(), x.Columns())
			return
		}
		for a := 0; a < r; a++ {
			for b := 0; b < k; b++ {
				out.cells[a*k+b] = x.At(a, b)
			}
		}
	}
	switch in.op {
	case mSet:
		w.Set(in.r, in.c, in.v)
	case mAt:
		out.cells[0] = w.At(in.r, in.c)
	case mUpdate:
		w.Update(in.r, in.c, func(v T) T {
			out.cells[0] = v
			out.n++
			return v + in.v
		})
	case mClear:
		w.Clear()
	case mValues:
		out.n = w.Values()
	case mRowsAt:
		v := w.RowsAt(in.r)
		for j := 0; j < h.k; j++ {
			out.cells[j] = v.AtVec(j)
		}
	case mColumnsAt:
		v := w.ColumnsAt(in.c)
		for j := 0; j < h.r; j++ {
			out.cells[j] = v.AtVec(j)
		}
	case mRowArray:
		copy(out.cells[:], w.RowsAtToArray(in.r))
	case mCopy:
		grab(w.Copy(), h.r, h.k)
	case mScalar:
		grab(w.Scalar(in.v), h.r, h.k)
	case mAdd:
		grab(w.Add(in.mat), h.r, h.k)
	case mSubtract:
		grab(w.Subtract(in.mat), h.r, h.k)
	case mNegative:
		grab(w.Negative(), h.r, h.k)
	case mTranspose:
		grab(w.Transpose(), h.k, h.r)
	case mMultiply:
		grab(w.Multiply(in.mat), h.r, in.m.C)
	case mEqual:
		out.b = w.Equal(in.mat)
	case mNotEqual:
		out.b = w.NotEqual(in.mat)
	case mElement:
		out.b = w.Element(in.r, in.c)
	case mMap:
		w.Lock()
		for it := w.Map(); it.HasNext(); {
			it.Map(func(_, _ int, v T) T { return v * in.v })
			runtime.Gosched()
		}
		w.Unlock()
	case mEnumerate:
		w.RLock()
		for it := w.Enumerate(); it.HasNext(); {
			r, c, v := it.Next()
			out.cells[r*h.k+c] = v
			runtime.Gosched()
		}
		w.RUnlock()
	case mBad:
		did, _ := panics(func() {
			switch in.variant {
			case 0:
				w.At(h.r, 0)
			case 1:
				w.Set(-1, 0, in.v)
			case 2:
				w.Update(0, h.k, func(v T) T { return v })
			case 3:
				w.RowsAt(h.r)
			case 4:
				w.ColumnsAt(h.k)
			case 5:
				w.RowsAtToArray(-1)
			case 6:
				w.Element(0, h.k)
			case 7:
				w.Add(in.mat)
			case 8:
				w.Subtract(in.mat)
			default:
				w.Multiply(in.mat)
			}
		})
		if !did {
			out.err = fmt.Sprintf("invalid call %d did not panic", in.variant)
		}
	case mBadUpdate:
		did, _ := panics(func() { w.Update(in.r, in.c, func(v T) T { panic("callback") }) })
		if !did {
			out.err = "the callback's panic did not reach the caller"
		}
	case mShape:
		if w.Rows() != h.r || w.Columns() != h.k || w.Size() != h.r*h.k {
			out.err = "Rows, Columns or Size changed"
		}
	}
	return
}

func c18T[T Num](c *Case) {
	sh := pick(c, [2]int{1, 1}, [2]int{2, 1}, [2]int{1, 2}, [2]int{2, 2}, [2]int{2, 3}, [2]int{3, 2}, [2]int{6, 1})
	kind := c.kind(sh[1], false)
	h := &c18[T]{r: sh[0], k: sh[1], sparse: isSparseKind(kind)}
	init := genRef(c, h.r, h.k, func() T { return T(1 + c.n(3)) })
	inner := build(c, kind, init)
	var ex *exclusive[T]
	if c.p(0.5) {
		ex = &exclusive[T]{Matrix: inner}
		inner = ex
	}
	h.w = g.NewMutexMatrix[T](inner)
	c.Note("%s[%s] %v instrumented %v", kindName[kind], tname[T](), init, ex != nil)
	c.Sig(kind, tname[T](), init.D)
	c.Count("inner "+kindName[kind], 1)
	end := func() {
		if !h.w.TryLock() {
			c.Fail("C18/lock-kept", "the lock is still held after every call ended")
		}
		h.w.Unlock()
		if ex != nil {
			if b := ex.bad.Load(); b != nil {
				c.Fail("C18/exclusion", "%s", *b)
			}
			c.Ev(int(ex.calls.Load()))
			c.Count("overlapping readers", int(ex.overlaps.Load()))
			c.Count("inner calls watched", int(ex.calls.Load()))
		}
	}
	if c.p(0.2) {
		c18Storm(c, h, init)
		end()
		return
	}
	threads, ops := 2+c.n(4), 3+c.n(6)
	writes := pick(c, 0.3, 0.5, 0.7)
	var progs [][]mIn[T]
	for t := 0; t < threads; t++ {
		var p []mIn[T]
		for o := 0; o < ops; o++ {
			in := mIn[T]{r: c.n(h.r), c: c.n(h.k), v: T(1 + c.n(3))}
			if c.p(writes) {
				in.op = pick(c, mSet, mSet, mUpdate, mUpdate, mUpdate, mClear, mMap)
				if in.op == mSet && c.p(0.3) {
					in.v = 0
				}
				if in.op == mMap {
					in.v = T(c.n(3))
				}
			} else {
				in.op = c.n(mOps)
			}
			gen := func(r, k int) {
				in.m = genRef(c, r, k, func() T { return T(1 + c.n(2)) })
				in.mat = build(c, c.kind(k, true), in.m)
			}
			switch in.op {
			case mAdd, mSubtract:
				gen(h.r, h.k)
			case mEqual, mNotEqual:
				gen(h.r, h.k)
				if c.p(0.4) {
					in.m = init.Clone()
					in.mat = build(c, c.kind(h.k, true), in.m)
				}
			case mMultiply:
				gen(h.k, 1+c.n(6/h.r))
			case mScalar:
				in.v = T(c.n(3))
			case mBad:
				in.variant = c.n(10)
				switch in.variant {
				case 7, 8:
					gen(h.r+1, h.k)
				case 9:
					gen(h.k+1, 1)
				}
			}
			p = append(p, in)
		}
		progs = append(progs, p)
	}
	c.Note("programs %v", progs)
	c.Sig(fmt.Sprint(progs))
	base := time.Now()
	hist := make([][]porcupine.Operation, threads+1)
	c.parallel(threads, func(s *Case, t int) {
		for _, in := range progs[t] {
			s.yield()
			call := time.Since(base)
			out := h.do(in)
			ret := time.Since(base)
			hist[t] = append(hist[t], porcupine.Operation{ClientId: t, Input: in, Output: out, Call: int64(call), Return: int64(ret)})
			s.Count(mName[in.op], 1)
			if out.err != "" {
				s.Fail("C18/answer", "%s", out.err)
			}
		}
	})
	end()
	for r := 0; r < h.r; r++ {
		for k := 0; k < h.k; k++ {
			in := mIn[T]{op: mAt, r: r, c: k}
			call := time.Since(base)
			out := h.do(in)
			hist[threads] = append(hist[threads], porcupine.Operation{ClientId: threads, Input: in, Output: out, Call: int64(call), Return: int64(time.Since(base))})
		}
	}
	var all []porcupine.Operation
	overlap := 0
	for t, x := range hist {
		all = append(all, x...)
		for _, a := range x {
			for u, y := range hist {
				for _, b := range y {
					if u != t && a.Call < b.Return && b.Call < a.Return {
						overlap++
					}
				}
			}
		}
	}
	c.Ev(len(all))
	c.Count("operations recorded", len(all))
	c.Count("overlapping pairs of operations", overlap/2)
	if overlap > 0 {
		c.Count("histories with real overlap", 1)
	}
	var st [6]T
	copy(st[:], init.D)
	model := porcupine.Model{
		Init: func() any { return st },
		Step: func(s, in, out any) (bool, any) {
			ok, n := h.step(s.([6]T), in.(mIn[T]), out.(mOut[T]))
			return ok, n
		},
		Equal: func(a, b any) bool { return a == b },
	}
	switch porcupine.CheckOperationsTimeout(model, all, 60*time.Second) {
	case porcupine.Illegal:
		s := ""
		for _, o := range all {
			s += fmt.Sprintf("\n  client %d [%d,%d] %v -> %v", o.ClientId, o.Call, o.Return, o.Input, o.Output)
		}
		c.Fail("C18/not-linearizable", "no order of the calls explains their answers, from %v:%s", init, s)
	case porcupine.Unknown:
		c.Inconclusive("linearizability check out of time")
	}
}

// c18Storm lets many goroutines update the same cells and checks that
// nothing was lost.
func c18Storm[T Num](c *Case, h *c18[T], init *Ref[T]) {
	n, per := 2+c.n(6), 10+c.n(60)
	c.Note("storm of %d x %d updates", n, per)
	c.Sig("storm", n, per)
	counts := make([][6]int, n)
	c.parallel(n, func(s *Case, t int) {
		var last [6]int
		for i := 0; i < per; i++ {
			r, k := s.n(h.r), s.n(h.k)
			j := r*h.k + k
			old := T(0)
			h.w.Update(r, k, func(v T) T { old = v; return v + 1 })
			counts[t][j]++
			s.Ev(1)
			if bitsOf[T]() > 8 {
				if int(old) < last[j] {
					s.Fail("C18/lost-update", "cell (%d,%d) went back from %d to %v", r, k, last[j], old)
				}
				last[j] = int(old) + 1
				if v := h.w.At(r, k); int(v) < last[j] {
					s.Fail("C18/lost-update", "cell (%d,%d) is %v after an update to %d", r, k, v, last[j])
				}
			}
		}
	})
	for j, v := range init.D {
		w := v
		for t := range counts {
			w += T(counts[t][j])
		}
		if got := h.w.At(j/h.k, j%h.k); got != w {
			c.Fail("C18/lost-update", "cell %d is %v after updates that add up to %v", j, got, w)
		}
	}
	c.Count("storm updates", n*per)
}
