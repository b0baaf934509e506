//go:build all || c33

package main

import (
	"context"
	"fmt"
	"runtime"
	"strings"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/math/strassen"
	"github.com/rossmerr/graphblas/math/symmetric"
	gsort "github.com/rossmerr/graphblas/sort"
	"github.com/rossmerr/graphblas/unaryop"
)

func init() {
	register("C33", 2600, 39000, "a case repeats a few activities on fixed live objects 300 times and compares the heap (bytes and objects, after collection) and the goroutines before and after; growth must persist over three rounds of 8000; distinct by objects and activities", perType(c33T[int], c33T[int8], c33T[int16], c33T[int32], c33T[int64], c33T[uint], c33T[uint8], c33T[uint16], c33T[uint32], c33T[uint64], c33T[uintptr], c33T[float32], c33T[float64]))
}

func heapNow() (bytes, objects int64, gor int) {
	runtime.GC()
	runtime.GC()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return int64(ms.HeapAlloc), int64(ms.HeapObjects), runtime.NumGoroutine()
}

// kept sums what the program itself (the library, not the runtime's own
// caches of goroutines and waiting places) holds, by the places that allocated
// it; allocations are recorded from the moment the profile rate is one.
func kept() (bytes, objects int64, sites map[string]int64) {
	runtime.GC()
	runtime.GC()
	sites = map[string]int64{}
	n, _ := runtime.MemProfile(nil, false)
	recs := make([]runtime.MemProfileRecord, n+1000)
	n, ok := runtime.MemProfile(recs, false)
	if !ok {
		return 0, 0, sites
	}
	for _, r := range recs[:n] {
		site := allocator(r.Stack())
		if site == "" {
			continue
		}
		bytes += r.InUseBytes()
		objects += r.InUseObjects()
		sites[site] += r.InUseObjects()
	}
	return bytes, objects, sites
}

// allocator names the library function that allocated, "" if it is not the
// library's doing.
func allocator(stack []uintptr) string {
	frames := runtime.CallersFrames(stack)
	for {
		f, more := frames.Next()
		switch f.Function {
		case "runtime.malg", "runtime.newproc1", "runtime.acquireSudog", "runtime.allocm":
			return ""
		}
		if strings.HasPrefix(f.Function, "github.com/rossmerr/graphblas") {
			return f.Function
		}
		if !more {
			return ""
		}
	}
}

type activity struct {
	name string
	fn   func()
}

// c33T: activities leave the live objects as they found them.
func c33T[T Num](c *Case) {
	ctx := c.Ctx()
	n := 2 + c.n(5)
	kinds := []int{c.kind(n, false), c.kind(n, false), c.kind(1, false)}
	ra := genRef(c, n, n, func() T { return smallNZ[T](c, 3) })
	rb := genRef(c, n, n, func() T { return smallNZ[T](c, 3) })
	rv := genRef(c, n, 1, func() T { return smallNZ[T](c, 3) })
	a, b := build(c, kinds[0], ra), build(c, kinds[1], rb)
	v := build(c, pick(c, KDVec, KSVec), rv)
	out := empty[T](c.kind(n, false), n, n)
	vec := empty[T](pick(c, KDVec, KSVec), n, 1)
	mtx := g.NewMutexMatrix[T](build(c, c.kind(n, false), ra))
	rz := g.NewDenseVectorN[T](n)
	var ru g.MatrixRune = g.NewDenseMatrix[rune](n, n)
	for i := range ra.D {
		ru.Set(i/n, i%n, rune('a'+c.n(3)))
	}
	mask := empty[T](c.kind(n, false), n, n)
	mask.Set(n-1, 0, 1)
	cancelled, f := context.WithCancel(ctx)
	f()
	mon := binaryop.NewMonoID(T(0), binaryop.Addition[T]())
	u := unaryop.NewUnaryOp(func(v T) T { return v + v })
	boom := &FnMask{n, n, func(int, int) bool { panic("mask") }}
	wrong := g.NewCSRMatrix[T](n+1, n+2)
	p, q := c.n(n), c.n(n)
	// each object, one at a time
	hot := pick(c, a, b, mask, out)
	hr := map[[2]int]T{}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			hr[[2]int{i, j}] = hot.At(i, j)
		}
	}
	sink := 0
	look := func(m g.MatrixLogical[T]) { sink += m.Values() }
	all := []activity{
		{"overwrite and restore", func() {
			for at, v := range hr {
				hot.Set(at[0], at[1], 3)
				hot.Set(at[0], at[1], 0)
				hot.Update(at[0], at[1], func(T) T { return 2 })
				hot.Set(at[0], at[1], v)
			}
		}},
		{"clear and restore", func() {
			hot.Clear()
			for at, v := range hr {
				hot.Set(at[0], at[1], v)
			}
		}},
		{"insert and remove one element", func() {
			old := hot.At(p, q)
			hot.Set(p, q, 0)
			hot.Set(p, q, 1)
			hot.Set(p, q, old)
		}},
		{"abandon an enumeration", func() {
			for _, m := range []g.Matrix[T]{a, b, v} {
				e := m.Enumerate()
				for s := 0; s < 2 && e.HasNext(); s++ {
					e.Next()
				}
			}
		}},
		{"abandon a map", func() {
			for _, m := range []g.Matrix[T]{a, b, v} {
				if e := m.Map(); e.HasNext() {
					e.Map(func(r, c int, v T) T { return v })
				}
			}
		}},
		{"map in full", func() {
			for e := a.Map(); e.HasNext(); {
				e.Map(func(r, c int, v T) T { return v })
			}
		}},
		{"read", func() {
			look(a.RowsAt(p))
			look(b.ColumnsAt(q))
			sink += len(a.RowsAtToArray(p)) + b.Size()
			a.Element(p, q)
			g.IsSparseMatrix[T](a)
			g.IsSparseMatrix[T](out)
		}},
		{"copy", func() {
			x := a.Copy()
			x.Set(p, q, 1)
			x.Clear()
			y := b.CopyLogical()
			y.Set(p, q, 0)
		}},
		{"arithmetic methods", func() {
			look(a.Add(b))
			look(a.Subtract(b))
			look(a.Scalar(2))
			look(a.Negative())
			look(a.Transpose())
			look(a.Multiply(b))
		}},
		{"operations to one output", func() {
			out.Clear()
			g.MatrixMatrixMultiply[T](ctx, a, b, mask, out)
			g.Add[T](ctx, a, b, nil, out)
			g.Subtract[T](ctx, b, a, mask, out)
			g.ElementWiseMatrixAdd[T](ctx, a, b, mask, out)
			g.ElementWiseMatrixMultiply[T](ctx, a, b, nil, out)
			g.Apply[T](ctx, a, mask, u, out)
			g.Negative[T](ctx, b, nil, out)
			g.Transpose[T](ctx, a, mask, out)
			out.Clear()
		}},
		{"in place", func() {
			x := a.Copy()
			g.Apply[T](ctx, x, nil, u, x)
			g.Add[T](ctx, x, b, nil, x)
			g.ElementWiseMatrixMultiply[T](ctx, x, a, nil, x)
		}},
		{"vector products", func() {
			g.MatrixVectorMultiply[T](ctx, a, vecOf(v), nil, vecOf(vec))
			g.VectorMatrixMultiply[T](ctx, vecOf(v), a, nil, vecOf(vec))
			g.ElementWiseVectorAdd[T](ctx, vecOf(v), vecOf(v), nil, vecOf(vec))
			g.ElementWiseVectorMultiply[T](ctx, vecOf(v), vecOf(v), nil, vecOf(vec))
			vec.Clear()
		}},
		{"compare", func() {
			a.Equal(b)
			a.NotEqual(a)
			g.Equal[T](ctx, a, out)
			symmetric.Symmetric[T](a)
		}},
		{"reduce", func() {
			g.ReduceMatrixToScalar[T](ctx, a, mask)
			g.ReduceMatrixToScalarWithMonoID[T](ctx, b, mon, nil)
			g.ReduceMatrixToVector[T](ctx, b)
			g.ReduceVectorToScalar[T](ctx, vecOf(v), nil)
		}},
		{"cancelled calls", func() {
			g.ReduceMatrixToScalar[T](cancelled, a, nil)
			g.MatrixMatrixMultiply[T](cancelled, a, b, nil, out)
			g.Add[T](cancelled, a, b, nil, out)
			g.Scalar[T](cancelled, a, 2)
			g.Equal[T](cancelled, a, b)
			strassen.MultiplyCrossoverPoint[T](cancelled, a, b, 2)
		}},
		{"refused calls", func() {
			panics(func() { a.Set(n, 0, 1) })
			panics(func() { a.At(-1, 0) })
			panics(func() { g.Add[T](ctx, a, wrong, nil, out) })
			panics(func() { g.MatrixMatrixMultiply[T](ctx, wrong, wrong, nil, out) })
			panics(func() { g.ReduceMatrixToScalar[T](ctx, a, wrong) })
		}},
		{"callbacks that panic", func() {
			panics(func() { a.Update(p, q, func(T) T { panic("update") }) })
			panics(func() {
				for e := b.Map(); e.HasNext(); {
					e.Map(func(r, c int, v T) T { panic("map") })
				}
			})
			panics(func() { g.ReduceMatrixToScalar[T](ctx, a, boom) })
			panics(func() { g.Apply[T](ctx, a, boom, u, out) })
			panics(func() { mtx.Update(p, q, func(T) T { panic("update") }) })
		}},
		{"locked matrix", func() {
			old := mtx.At(p, q)
			mtx.Set(p, q, 2)
			mtx.Update(p, q, func(T) T { return old })
			look(mtx.Copy())
			look(mtx.Transpose())
			g.NewMutexMatrix[T](a).At(p, q)
		}},
		{"resize", func() {
			rz.ReSize(n + 5)
			rz.SetVec(n+4, 1)
			rz.ReSize(1)
			rz.ReSize(n)
		}},
		{"Strassen", func() { look(strassen.MultiplyCrossoverPoint[T](ctx, a, b, 2)) }},
		{"search", func() {
			breadthfirst.Search[T](ctx, a, p, func(g.Vector[T]) bool { return false })
			breadthfirst.Search[T](ctx, a, p, func(g.Vector[T]) bool { return true })
			panics(func() { breadthfirst.Search[T](ctx, a, p, func(g.Vector[T]) bool { panic("search") }) })
		}},
		{"characters", func() {
			sink += gsort.BubbleRow(ctx, ru).Size()
			sink += gsort.BubbleColumns(ctx, ru).Size()
			g.Compare(ctx, ru, ru.CopyLogical())
			sink += len(g.String(ctx, ru))
		}},
		{"build and drop", func() {
			x := g.NewCSRMatrixFromArray(ra.Rows2())
			y := g.NewCSCMatrixFromArray(ra.Rows2())
			z := g.NewSparseVectorFromArray(rv.D)
			look(x)
			look(y)
			look(z)
			look(g.TransposeToCSC[T](ctx, x))
			look(g.TransposeToCSR[T](ctx, y))
			sink += len(fmt.Sprint(g.NewContext(ctx, g.NonBlocking)))
			d := g.NewDenseMatrixN[T](n, n)
			d.Set(p, q, 1)
			g.NewDenseVectorN[T](n).SetVec(p, 1)
		}},
	}
	k := 1 + c.n(4)
	acts := make([]activity, k)
	c.Note("%dx%d %s of %s, %s, %v", n, n, tname[T](), kindName[kinds[0]], kindName[kinds[1]], hr)
	c.Sig(tname[T](), kinds, ra.D, rb.D, p, q)
	for i := range acts {
		acts[i] = all[c.n(len(all))]
		c.Note("%s", acts[i].name)
		c.Sig(acts[i].name)
		c.Count(acts[i].name, 1)
	}
	do := func(m int) {
		for i := 0; i < m; i++ {
			for _, a := range acts {
				a.fn()
			}
		}
	}
	do(60)
	c.checkLeak("C33/goroutine")
	grown := func(reps int) (string, bool) {
		b0, o0, g0 := heapNow()
		do(reps)
		c.checkLeak("C33/goroutine")
		b1, o1, g1 := heapNow()
		c.Ev(3)
		c.Count("repetitions", reps*k)
		what := fmt.Sprintf("%d more repetitions keep %d more bytes in %d more objects and %d more goroutines", reps, b1-b0, o1-o0, g1-g0)
		return what, b1-b0 > int64(reps)*8 || o1-o0 > int64(reps)/2 || g1-g0 > reps/4
	}
	if _, yes := grown(300); !yes {
		c.Count("measured without growth", 1)
		return
	}
	// the runtime's own caches fill up once; what is kept must go on growing
	c.Count("measured again", 1)
	for try := 0; try < 2; try++ {
		if _, yes := grown(8000); !yes {
			return
		}
	}
	// and be the library's own: the runtime keeps every goroutine it ever made,
	// for later use, and a busy machine has many waiting to end
	runtime.MemProfileRate = 1
	defer func() { runtime.MemProfileRate = 512 * 1024 }()
	do(300)
	what := ""
	for try := 0; try < 2; try++ {
		g0 := runtime.NumGoroutine()
		b0, o0, s0 := kept()
		do(8000)
		c.checkLeak("C33/goroutine")
		b1, o1, s1 := kept()
		g1 := runtime.NumGoroutine()
		c.Count("measured by allocation site", 1)
		if b1-b0 <= 8000*8 && o1-o0 <= 8000/2 && g1-g0 <= 8000/4 {
			return
		}
		most := ""
		for s, k := range s1 {
			if most == "" || k-s0[s] > s1[most]-s0[most] {
				most = s
			}
		}
		what = fmt.Sprintf("8000 more repetitions keep %d more bytes in %d more objects, most of them (%d) made in %s, and %d more goroutines", b1-b0, o1-o0, s1[most]-s0[most], most, g1-g0)
	}
	names := ""
	for _, a := range acts {
		names += a.name + "; "
	}
	c.Fail("C33/growth", "%s, each repetition being: %s", what, names)
}
