//go:build all || c16

package main

import (
	"context"
	"fmt"
	"strings"
	"sync/atomic"
	"time"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/breadthfirst"
	"github.com/rossmerr/graphblas/math/strassen"
	gsort "github.com/rossmerr/graphblas/sort"
	"github.com/rossmerr/graphblas/unaryop"
)

func init() {
	register("C16", 104000, 1040000, "a case is one context-taking operation whose context is cancelled before the call, at a chosen poll, element access, write, mask read or callback during it, or asynchronously; the monitors bound the work done after the cancellation and compare every output cell with its old and final value; distinct by operation, contents, formats and cancellation point", perType(c16T[int], c16T[int8], c16T[int16], c16T[int32], c16T[int64], c16T[uint], c16T[uint8], c16T[uint16], c16T[uint32], c16T[uint64], c16T[uintptr], c16T[float32], c16T[float64], c16Rune))
}

// ctl is a context that cancels itself at a chosen event of the run.
type ctl struct {
	context.Context
	cancel context.CancelFunc
	left   atomic.Int64 // ticks before the cancellation
	fired  atomic.Bool  // set just before the cancellation
	dead   atomic.Bool  // set just after it
	polls  atomic.Int64 // polls after the cancellation
	work   atomic.Int64 // elements visited or written after the cancellation
	ticks  atomic.Int64
}

func newCtl(at int64) *ctl {
	x := &ctl{}
	x.Context, x.cancel = context.WithCancel(context.Background())
	x.left.Store(at)
	if at <= 0 {
		x.fire()
	}
	return x
}
func (x *ctl) fire() { x.fired.Store(true); x.cancel(); x.dead.Store(true) }
func (x *ctl) tick() {
	x.ticks.Add(1)
	if x.left.Add(-1) == 0 {
		x.fire()
	}
}
func (x *ctl) poll() {
	if x.dead.Load() && x.polls.Add(1) > 2000000 {
		panic("the operation keeps polling its cancelled context without returning")
	}
	x.tick()
}
func (x *ctl) Done() <-chan struct{} { x.poll(); return x.Context.Done() }
func (x *ctl) Err() error            { x.poll(); return x.Context.Err() }
func (x *ctl) did() {
	if x.dead.Load() {
		x.work.Add(1)
	}
	x.tick()
}

// hook makes a user matrix report its accesses to the context.
func hook[T Num](x *ctl, m g.Matrix[T], sparse bool) g.Matrix[T] {
	u := UserMatrix[T]{Matrix: m}
	u.onNext = x.did
	u.onWrite = func(int, int) { x.did() }
	u.onRead = func(int, int) { x.tick() }
	if sparse {
		return &UserSparse[T]{u}
	}
	return &u
}

type hookMask struct {
	g.Mask
	x *ctl
}

func (m *hookMask) Element(r, c int) bool { m.x.tick(); return m.Mask.Element(r, c) }

// plan chooses when to cancel: 0 is before the call.
func plan(c *Case, est int) (*ctl, string) {
	var at int64
	switch c.n(8) {
	case 0, 1:
		at = 0
	case 2:
		at = 1 + int64(c.n(8))
	case 3:
		at = 1 << 60
	default:
		at = 1 + int64(c.n(est+1))
		if c.p(0.3) {
			at = 1 + int64(c.n(int(at)))
		}
	}
	s := fmt.Sprintf("cancelled at tick %d", at)
	if at == 0 {
		s = "cancelled before the call"
	} else if at == 1<<60 {
		s = "asynchronously cancelled"
	}
	c.Note("%s", s)
	x := newCtl(at)
	return x, s
}

func (x *ctl) ctx(c *Case) context.Context {
	if c.p(0.3) {
		return g.NewContext(x, pick(c, g.Blocking, g.NonBlocking))
	}
	return x
}

// start launches an asynchronous canceller when the plan has no fixed point;
// the returned function joins it.
func (x *ctl) start(c *Case) func() {
	if x.left.Load() < 1<<59 {
		return func() {}
	}
	d := time.Duration(c.n(60)) * time.Microsecond
	if c.p(0.4) {
		d = 0
	}
	end := make(chan struct{})
	go func() {
		time.Sleep(d)
		x.fire()
		close(end)
	}()
	return func() { <-end }
}

func (x *ctl) verdict(c *Case, async bool, op string, r, k int) {
	c.Count("cancelled calls", 1)
	c.Ev(1 + int(x.ticks.Load()))
	c.Count("polls and accesses watched", int(x.ticks.Load()))
	if async {
		return
	}
	if w := int(x.work.Load()); w > max(r, k)+3 {
		c.Fail("C16/goes-on", "%s visited or wrote %d elements after its context was cancelled (matrix %dx%d)", op, w, r, k)
	}
}

func c16T[T Num](c *Case) {
	if c.p(0.6) {
		c16Op[T](c)
		return
	}
	switch c.n(7) {
	case 0:
		c16Scalar[T](c)
	case 1:
		c16Equal[T](c)
	case 2, 3:
		c16Reduce[T](c)
	case 4:
		c16Strassen[T](c)
	case 5:
		c16BFS[T](c)
	default:
		c16Convert[T](c)
	}
}

func c16Op[T Num](c *Case) {
	ops := allOps[T]()
	x := genOp(c, ops[c.n(len(ops))], opOpt{max: 16, stale: 0.7, alias: 0.25, mask: 0.4})
	est := 6 * len(x.old.D)
	if x.op.product {
		est = 3 * len(x.old.D) * x.in[0].C
	}
	t, s := plan(c, est)
	c.Sig(s)
	defer t.cancel()
	wrap := func(m g.Matrix[T], kind int) {
		w := hook(t, m, isSparseKind(kind))
		for i := range x.inM {
			if x.inM[i] == m {
				x.inM[i] = w
			}
		}
		if x.out == m {
			x.out = w
		}
	}
	for i := range x.inM {
		if !x.op.vec[i] && !(x.op.outVec && x.out == x.inM[i]) && c.p(0.6) && !hooked(x.inM[i]) {
			wrap(x.inM[i], x.kinds[i])
		}
	}
	if !x.op.outVec && !hooked(x.out) && c.p(0.7) {
		wrap(x.out, x.outKind)
	}
	if x.mask != nil && c.p(0.5) {
		x.mask = &hookMask{x.mask, t}
	}
	apply := x.u
	x.u = unaryop.NewUnaryOp(func(v T) T { t.tick(); return apply.Apply(v) })
	pre := t.fired.Load()
	ctx := t.ctx(c)
	join := t.start(c)
	async := t.left.Load() >= 1<<59
	x.run(ctx)
	wasDead := t.fired.Load()
	join()
	if wasDead {
		t.verdict(c, async, x.op.name, x.old.R, x.old.C)
		c.Count("cancelled "+x.op.name, 1)
	} else {
		c.Count("ended before the cancellation", 1)
	}
	x.u = apply
	cells := x.op.spec(x.u, x.in)
	got := newRef[T](x.old.R, x.old.C)
	changed := 0
	if x.out.Rows() != got.R || x.out.Columns() != got.C {
		c.Fail("C16/shape", "%s: the output's shape became %dx%d", x.op.name, x.out.Rows(), x.out.Columns())
	}
	for i := range got.D {
		v := x.out.At(i/got.C, i%got.C)
		got.D[i] = v
		if same(v, x.old.D[i]) {
			continue
		}
		changed++
		if pre {
			c.Fail("C16/precancelled-write", "%s with an already cancelled context changed cell (%d,%d) from %v to %v", x.op.name, i/got.C, i%got.C, x.old.D[i], v)
		}
		if !oneOf(v, x.allowed(cells, i)) {
			c.Fail("C16/torn-cell", "%s %s: cell (%d,%d) is %v, neither its old value %v nor a final one %v", x.op.name, s, i/got.C, i%got.C, v, x.old.D[i], x.allowed(cells, i))
		}
	}
	if !wasDead { // ran to the end: the whole result
		for i, v := range got.D {
			if !oneOf(v, x.allowed(cells, i)) {
				c.Fail("C16/incomplete", "%s was not cancelled, but cell (%d,%d) is %v, want %v", x.op.name, i/got.C, i%got.C, v, x.allowed(cells, i))
			}
		}
	} else if changed > 0 {
		c.Count("partly done outputs", 1)
	}
	c.Ev(len(got.D))
	want[T](c, "C16/output-inconsistent", x.out, got)
	if c.p(0.2) {
		c.checkLeak("C16/leak")
	}
}

func hooked[T Num](m g.Matrix[T]) bool {
	switch m.(type) {
	case *UserMatrix[T], *UserSparse[T]:
		return true
	}
	return false
}

func c16In[T Num](c *Case, t *ctl, kind int, a *Ref[T]) g.Matrix[T] {
	m := build(c, kind, a)
	if c.p(0.6) {
		return hook(t, m, isSparseKind(kind))
	}
	return m
}

func c16Scalar[T Num](c *Case) {
	r, k := c.dim(14), c.dim(14)
	kind := c.kind(k, false)
	a := genRef(c, r, k, func() T { return mulVal[T](c) })
	alpha := small[T](c, 4)
	t, s := plan(c, 3*r*k)
	defer t.cancel()
	x := c16In(c, t, kind, a)
	c.Note("Scalar %v of %s[%s] %v", alpha, kindName[kind], tname[T](), a)
	c.Sig("scalar", kind, tname[T](), a.R, a.C, a.D, alpha, s)
	pre, async := t.fired.Load(), t.left.Load() >= 1<<59
	join := t.start(c)
	y := g.Scalar(t.ctx(c), x, alpha)
	dead := t.fired.Load()
	join()
	if dead {
		t.verdict(c, async, "Scalar", r, k)
	}
	if y.Rows() != r || y.Columns() != k {
		c.Fail("C16/shape", "Scalar returned %dx%d of %dx%d", y.Rows(), y.Columns(), r, k)
	}
	got := newRef[T](r, k)
	for i, v := range a.D {
		w := y.At(i/k, i%k)
		got.D[i] = w
		c.Ev(1)
		if w != v && w != alpha*v || pre && w != v || !dead && w != alpha*v {
			c.Fail("C16/torn-cell", "Scalar %v %s: cell (%d,%d) of %v became %v", alpha, s, i/k, i%k, v, w)
		}
	}
	want[T](c, "C16/output-inconsistent", y, got)
	want[T](c, "C16/input-changed", x, a)
}

func c16Equal[T Num](c *Case) {
	c.zero = false
	r, k := c.dim(14), c.dim(14)
	ka, kb := c.kind(k, false), c.kind(k, false)
	a := genRef(c, r, k, func() T { return mulVal[T](c) })
	b := a.Clone()
	equal := true
	if c.p(0.7) {
		j := c.n(len(b.D))
		if c.p(0.5) {
			j = len(b.D) - 1
		}
		b.D[j]++
		equal = false
	}
	t, s := plan(c, 3*r*k)
	defer t.cancel()
	x, y := c16In(c, t, ka, a), c16In(c, t, kb, b)
	c.Note("Equal of %s and %s[%s] %v and %v", kindName[ka], kindName[kb], tname[T](), a, b)
	c.Sig("equal", ka, kb, tname[T](), a.R, a.C, a.D, b.D, s)
	async := t.left.Load() >= 1<<59
	join := t.start(c)
	got := g.Equal[T](t.ctx(c), x, y)
	dead := t.fired.Load()
	join()
	if dead {
		t.verdict(c, async, "Equal", r, k)
	}
	c.Ev(1)
	if got && !equal {
		c.Fail("C16/equal", "Equal answered true for different matrices when %s", s)
	}
	if !got && equal && !dead {
		c.Fail("C16/equal", "Equal answered false for equal matrices without being cancelled")
	}
}

func c16Reduce[T Num](c *Case) {
	r, k := c.dim(14), c.dim(14)
	kind := c.kind(k, false)
	a := genRef(c, r, k, func() T { return mulVal[T](c) })
	t, s := plan(c, 3*r*k)
	defer t.cancel()
	x := c16In(c, t, kind, a)
	vec := c.p(0.3)
	var mask g.Mask
	var sel []bool
	desc := ""
	if !vec && c.p(0.4) {
		desc, mask, sel = genMask(c, r, k)
		if mask != nil {
			mask = &hookMask{mask, t}
		}
	}
	c.Note("reduce (vector %v) %s[%s] %v %s", vec, kindName[kind], tname[T](), a, desc)
	c.Sig("reduce", vec, kind, tname[T](), a.R, a.C, a.D, desc, s)
	var seen []T
	unit := small[T](c, 3)
	mon := binaryop.NewMonoID(unit, binaryop.NewBinaryOp(func(x, y T) T {
		seen = append(seen, y)
		t.did()
		return x + y
	}))
	pre, async := t.fired.Load(), t.left.Load() >= 1<<59
	join := t.start(c)
	var res T
	if vec {
		v := g.ReduceMatrixToVectorWithMonoID[T](t.ctx(c), x, mon, nil)
		if v.Length() != k {
			c.Fail("C16/shape", "the reduction to a vector has length %d, want %d", v.Length(), k)
		}
		res = unit
		for j := 0; j < k; j++ {
			res += v.AtVec(j) - unit
		}
	} else {
		res = g.ReduceMatrixToScalarWithMonoID[T](t.ctx(c), x, mon, mask)
	}
	dead := t.fired.Load()
	join()
	if dead && !vec {
		t.verdict(c, async, "a reduction", r, k)
	} else if dead {
		t.verdict(c, true, "a reduction to a vector", r, k)
		// at most one element per remaining column, and a row's worth in the current one
		if w := int(t.work.Load()); !async && w > r+k+4 {
			c.Fail("C16/goes-on", "a reduction to a vector visited %d elements after its context was cancelled (matrix %dx%d)", w, r, k)
		}
	}
	left := map[T]int{}
	sum := unit
	zeros := 0
	total := 0
	for i, v := range a.D {
		if sel != nil && sel[i] {
			continue
		}
		total++
		if v == 0 {
			zeros++
		}
		left[v]++
	}
	for _, v := range seen {
		c.Ev(1)
		sum += v
		if left[v]--; left[v] < 0 {
			c.Fail("C16/reduce", "a cancelled reduction combined %v more often than the input holds it (%v)", v, seen)
		}
	}
	if res != sum {
		c.Fail("C16/reduce", "the reduction returned %v but combined %v from %v", res, seen, unit)
	}
	if !dead {
		need := total
		if isSparseKind(kind) {
			need -= zeros
		}
		if !vec && len(seen) != need {
			c.Fail("C16/incomplete", "an uncancelled reduction combined %d of %d elements", len(seen), need)
		}
	}
	_ = pre
	want[T](c, "C16/input-changed", x, a)
	c.checkLeak("C16/leak")
}

func c16Strassen[T Num](c *Case) {
	n := pick(c, 2, 4, 4, 8, 8, 12, 16, 3, 6)
	a := genRef(c, n, n, func() T { return mulVal[T](c) })
	b := genRef(c, n, n, func() T { return mulVal[T](c) })
	t, s := plan(c, 3*n*n*n)
	defer t.cancel()
	x, y := c16In(c, t, c.kind(n, false), a), c16In(c, t, c.kind(n, false), b)
	cross := 1 + c.n(4)
	c.Note("strassen %d crossover %d [%s] %v and %v", n, cross, tname[T](), a, b)
	c.Sig("strassen", n, cross, tname[T](), a.D, b.D, s)
	pre := t.fired.Load()
	join := t.start(c)
	z := strassen.MultiplyCrossoverPoint(t.ctx(c), x, y, cross)
	dead := t.fired.Load()
	join()
	w := mulRef(a, b)
	done := 0
	for i, v := range w.D {
		got := z.At(i/n, i%n)
		c.Ev(1)
		if got == v {
			done++
		}
		if got != v && (got != 0 || !dead) || pre && got != 0 {
			c.Fail("C16/torn-cell", "strassen %s: cell (%d,%d) is %v, neither zero nor the product %v", s, i/n, i%n, got, v)
		}
	}
	if dead {
		c.Count("cancelled fast products", 1)
	}
	want[T](c, "C16/input-changed", x, a)
	c.checkLeak("C16/leak")
}

func c16BFS[T Num](c *Case) {
	c.zero = false
	n := 1 + c.n(10)
	a := genRef(c, n, n, func() T { return 1 })
	t, s := plan(c, 2*n*n*n)
	defer t.cancel()
	x := c16In(c, t, c.kind(n, false), a)
	calls, stop, bad := 0, 1+c.n(n+2), false
	src := c.n(n)
	c.Note("search from %d of %v [%s], stop at call %d", src, a, tname[T](), stop)
	c.Sig("search", tname[T](), n, a.D, src, stop, s)
	async := t.left.Load() >= 1<<59
	join := t.start(c)
	level, torn, after := c16Levels(a, src), "", 0
	v := breadthfirst.Search(t.ctx(c), x, src, func(l g.Vector[T]) bool {
		calls++
		if t.dead.Load() {
			after++
		}
		t.tick()
		bad = bad || l.Length() != n
		for i := 0; i < n && !bad && torn == ""; i++ {
			if w := level[i] == calls; (l.AtVec(i) != 0) != w {
				torn = fmt.Sprintf("call %d of a cancelled search gives vertex %d the value %v, its distance is %d", calls, i, l.AtVec(i), level[i])
			}
		}
		return calls >= stop
	})
	join()
	c.Ev(calls + 1)
	if torn != "" {
		c.Fail("C16/search", "%s", torn)
	}
	if after > 1 && !async {
		c.Fail("C16/search", "a search called back %d times after its context was cancelled", after)
	}
	if calls > n || calls > stop {
		c.Fail("C16/search", "a cancelled search called back %d times (%d vertices, asked to stop at %d)", calls, n, stop)
	}
	if bad || v == nil || v.Length() != n {
		c.Fail("C16/search", "a cancelled search gave a vector of another length")
	}
	want[T](c, "C16/input-changed", x, a)
}

// c16Levels gives each vertex's distance from the source, -1 if there is none.
func c16Levels[T Num](a *Ref[T], src int) []int {
	d := make([]int, a.R)
	for i := range d {
		d[i] = -1
	}
	d[src] = 0
	for q := []int{src}; len(q) > 0; q = q[1:] {
		for i := 0; i < a.R; i++ {
			if a.At(i, q[0]) != 0 && d[i] < 0 {
				d[i] = d[q[0]] + 1
				q = append(q, i)
			}
		}
	}
	return d
}

func c16Convert[T Num](c *Case) {
	r, k := c.dim(14), c.dim(14)
	kind := c.kind(k, false)
	a := genRef(c, r, k, func() T { return mulVal[T](c) })
	t, s := plan(c, 2*r*k)
	defer t.cancel()
	x := c16In(c, t, kind, a)
	csr := c.p(0.5)
	c.Note("convert (csr %v) %s[%s] %v", csr, kindName[kind], tname[T](), a)
	c.Sig("convert", csr, kind, tname[T](), r, k, a.D, s)
	pre, async := t.fired.Load(), t.left.Load() >= 1<<59
	join := t.start(c)
	var y g.Matrix[T]
	if csr {
		y = g.TransposeToCSR[T](t.ctx(c), x)
	} else {
		y = g.TransposeToCSC[T](t.ctx(c), x)
	}
	dead := t.fired.Load()
	join()
	if dead {
		t.verdict(c, async, "a conversion", r, k)
	}
	w := a.T()
	if y.Rows() != w.R || y.Columns() != w.C {
		c.Fail("C16/shape", "the conversion has shape %dx%d", y.Rows(), y.Columns())
	}
	got := newRef[T](w.R, w.C)
	for i, v := range w.D {
		got.D[i] = y.At(i/w.C, i%w.C)
		if z := got.D[i]; z != v && (z != 0 || !dead) || pre && z != 0 {
			c.Fail("C16/torn-cell", "conversion %s: cell (%d,%d) is %v, neither zero nor %v", s, i/w.C, i%w.C, z, v)
		}
	}
	want[T](c, "C16/output-inconsistent", y, got)
}

// sortRune is a user's character matrix whose copies report what is read and
// written to the context, a whole row or column at a time where it is.
type sortRune struct {
	g.MatrixRune
	x *ctl
}

func (m *sortRune) view(v g.VectorLogial[rune]) g.VectorLogial[rune] {
	for i := 0; i < v.Length(); i++ {
		m.x.did()
	}
	return v
}
func (m *sortRune) At(r, c int) rune                     { m.x.did(); return m.MatrixRune.At(r, c) }
func (m *sortRune) Set(r, c int, v rune)                 { m.x.did(); m.MatrixRune.Set(r, c, v) }
func (m *sortRune) Update(r, c int, f func(rune) rune)   { m.x.did(); m.MatrixRune.Update(r, c, f) }
func (m *sortRune) RowsAt(r int) g.VectorLogial[rune]    { return m.view(m.MatrixRune.RowsAt(r)) }
func (m *sortRune) ColumnsAt(k int) g.VectorLogial[rune] { return m.view(m.MatrixRune.ColumnsAt(k)) }
func (m *sortRune) RowsAtToArray(r int) []rune {
	v := m.MatrixRune.RowsAtToArray(r)
	for range v {
		m.x.did()
	}
	return v
}
func (m *sortRune) CopyLogical() g.MatrixLogical[rune] {
	return &sortRune{m.MatrixRune.CopyLogical(), m.x}
}
func (m *sortRune) Enumerate() g.Enumerate[rune] { return &sortEnum{m.MatrixRune.Enumerate(), m.x} }

type sortEnum struct {
	g.Enumerate[rune]
	x *ctl
}

func (e *sortEnum) Next() (int, int, rune) {
	e.x.did()
	return e.Enumerate.Next()
}

func c16Rune(c *Case) {
	c.zero = false
	r, k := 1+c.n(7), 1+c.n(7)
	x := g.NewDenseMatrix[rune](r, k)
	var whole strings.Builder
	rows := map[string]int{}
	cols := make([]string, k)
	var cells []rune
	for i := 0; i < r; i++ {
		row := ""
		for j := 0; j < k; j++ {
			v := rune('a' + c.n(3))
			x.Set(i, j, v)
			row += string(v)
			cols[j] += string(v)
			cells = append(cells, v)
		}
		rows[row]++
		whole.WriteString(row)
	}
	colm := map[string]int{}
	for _, s := range cols {
		colm[s]++
	}
	t, s := plan(c, 4*r*k*max(r, k))
	defer t.cancel()
	op := c.n(5)
	c.Note("character %dx%d %q operation %d", r, k, string(cells), op)
	c.Sig("rune", r, k, string(cells), op, s)
	join := t.start(c)
	async := t.left.Load() >= 1<<59
	ctx := t.ctx(c)
	switch op {
	case 0, 1:
		var y g.MatrixRune
		want := rows
		var in g.MatrixRune = x
		watched := c.p(0.7)
		if watched {
			in = &sortRune{x, t}
		}
		if op == 0 {
			y = gsort.BubbleRow(ctx, in)
		} else {
			y = gsort.BubbleColumns(ctx, in)
			want = colm
		}
		if watched && t.fired.Load() {
			// one comparison and one exchange are under way at most
			t.dead.Store(false)
			t.verdict(c, async, "a sort", 6*max(r, k), 0)
		}
		if y.Rows() != r || y.Columns() != k {
			c.Fail("C16/shape", "a cancelled sort has shape %dx%d", y.Rows(), y.Columns())
		}
		left := map[string]int{}
		n, m := r, k
		if op == 1 {
			n, m = k, r
		}
		for i := 0; i < n; i++ {
			l := ""
			for j := 0; j < m; j++ {
				if op == 0 {
					l += string(y.At(i, j))
				} else {
					l += string(y.At(j, i))
				}
			}
			left[l]++
		}
		c.Ev(r * k)
		for l, q := range left {
			if want[l] != q {
				c.Fail("C16/sort", "a cancelled sort (%s) returned %q %d times, the input has it %d times", s, l, q, want[l])
			}
		}
	case 2:
		got := g.String(ctx, x)
		dead := t.fired.Load()
		c.Ev(1)
		if !strings.HasPrefix(whole.String(), got) || !dead && got != whole.String() {
			c.Fail("C16/string", "the string form when %s is %q of %q", s, got, whole.String())
		}
	case 3:
		u := &UserMatrix[rune]{Matrix: g.NewDenseMatrixFromArrayN([][]rune{cells}), onNext: t.did}
		got := g.String(ctx, u)
		if t.fired.Load() {
			t.verdict(c, async, "String", 1, 4)
		}
		c.Ev(1)
		if !strings.HasPrefix(string(cells), got) {
			c.Fail("C16/string", "the string form when %s is %q of %q", s, got, string(cells))
		}
	default:
		old := newRef[bool](r, k)
		b := g.NewDenseMatrix[bool](r, k)
		out := g.NewDenseMatrix[bool](k, r)
		for i := range old.D {
			old.D[i] = c.p(0.5)
			b.Set(i/k, i%k, old.D[i])
		}
		pre := t.fired.Load()
		g.Transpose[bool](ctx, b, nil, out)
		dead := t.fired.Load()
		for i, v := range old.D {
			w := out.At(i%k, i/k)
			c.Ev(1)
			if w && !v || pre && w || !dead && w != v {
				c.Fail("C16/torn-cell", "a cancelled logical transposition set (%d,%d)", i%k, i/k)
			}
		}
	}
	join()
	c.checkLeak("C16/leak")
}
