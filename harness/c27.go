//go:build all || c27

package main

import (
	"sync"

	g "github.com/rossmerr/graphblas"
)

func init() {
	register("C27", 16000, 160000, "a case is one user format followed through its life (unknown, registered through one element type, registered again) with all 13 element types asked at each step, or the library's own formats of one element type; distinct by format, element type and step", c27)
}

var regMu sync.Mutex
var registered = map[string]bool{}

func c27(c *Case) {
	if c.Idx < len(userFormats) {
		c27Life(c, c.Idx)
		return
	}
	fs := []func(c *Case){c27T[int], c27T[int8], c27T[int16], c27T[int32], c27T[int64], c27T[uint], c27T[uint8], c27T[uint16], c27T[uint32], c27T[uint64], c27T[uintptr], c27T[float32], c27T[float64], c27Plain}
	fs[c.Idx%len(fs)](c)
	i := c.n(len(userFormats))
	c27Ask(c, i, "at random")
	if registered[userFormats[i].name] {
		c27Again(c, i)
	}
}

// c27Ask checks the answers for a user format, for every element type.
func c27Ask(c *Case, i int, when string) {
	f := userFormats[i]
	for e := 0; e < 13; e++ {
		c.Ev(1)
		if got := f.sparse(e); got != registered[f.name] {
			c.Fail("C27/user-format", "%s: %s of element type %d is sparse: %v, registered: %v", when, f.name, e, got, registered[f.name])
		}
	}
}

func c27Again(c *Case, i int) {
	e := c.n(13)
	f := userFormats[i]
	if did, _ := panics(func() { g.RegisterMatrix(f.typ(e)) }); !did {
		c.Fail("C27/twice", "registering %s again (element type %d) was not refused", f.name, e)
	}
	c.Count("refused registrations", 1)
	c27Ask(c, i, "after a refused registration")
}

func c27Life(c *Case, i int) {
	f := userFormats[i]
	e := c.n(13)
	c.Note("life of the format %s, registered through element type %d", f.name, e)
	c.Sig("life", f.name)
	check := func(when string) {
		for j := range userFormats {
			c27Ask(c, j, when)
		}
		for _, t := range []func(c *Case){c27T[int], c27T[float64], c27T[uint8], c27Plain} {
			t(c)
		}
	}
	check("before")
	if registered[f.name] {
		return
	}
	skip := c.n(5) == 0 // some stay unknown for the whole run
	if skip {
		c.Count("formats never registered", 1)
		return
	}
	g.RegisterMatrix(f.typ(e))
	registered[f.name] = true
	c.Count("formats registered", 1)
	check("after registration")
	c27Again(c, i)
	check("after a refused registration")
}

func c27T[T Num](c *Case) {
	r, k := c.n(5), c.n(5)
	d := [][]T{{0, 1}, {2, 0}}
	if c.p(0.3) { // all elements, or none
		d = [][]T{{1, 2}, {3, 4}}
	} else if c.p(0.3) {
		d = [][]T{{0, 0}, {0, 0}}
	}
	is := func(name string, x g.MatrixLogical[T], want bool) {
		c.Ev(1)
		if got := g.IsSparseMatrix(x); got != want {
			c.Fail("C27/built-in", "%s[%s] is sparse: %v, want %v", name, tname[T](), got, want)
		}
	}
	csr, csc, sv := g.NewCSRMatrix[T](r, k), g.NewCSCMatrix[T](r, k), g.NewSparseVector[T](r)
	dm, dv := g.NewDenseMatrixN[T](r, k), g.NewDenseVectorN[T](r)
	wide := 1 << 20
	is("CSRMatrix", g.NewCSRMatrix[T](r, wide), true)
	is("CSCMatrix", g.NewCSCMatrix[T](wide, k), true)
	is("SparseVector", g.NewSparseVector[T](wide), true)
	if c.p(0.7) {
		for i := 0; i < r*k; i++ {
			if v := anyVal[T](c, false); c.p(0.7) {
				csr.Set(i/k, i%k, v)
				csc.Set(i/k, i%k, v)
				dm.Set(i/k, i%k, v)
			}
		}
		for i := 0; i < r; i++ {
			v := anyVal[T](c, false)
			sv.SetVec(i, v)
			dv.SetVec(i, v)
		}
	}
	is("CSRMatrix", csr, true)
	is("CSCMatrix", csc, true)
	is("SparseVector", sv, true)
	is("CSRMatrix", g.NewCSRMatrixFromArray(d), true)
	is("CSCMatrix", g.NewCSCMatrixFromArray(d), true)
	is("SparseVector", g.NewSparseVectorFromArray(d[0]), true)
	is("copy of CSRMatrix", csr.Copy(), true)
	is("copy of CSCMatrix", csc.CopyLogical(), true)
	is("copy of SparseVector", sv.Copy(), true)
	is("DenseMatrixNumber", dm, false)
	is("DenseVectorNumber", dv, false)
	is("DenseMatrix", g.NewDenseMatrix[T](r, k), false)
	is("DenseMatrix", g.NewDenseMatrixFromArray(d), false)
	is("DenseMatrixNumber", g.NewDenseMatrixFromArrayN(d), false)
	is("DenseVector", g.NewDenseVector[T](r), false)
	is("DenseVector", g.NewDenseVectorFromArray(d[0]), false)
	is("DenseVectorNumber", g.NewDenseVectorFromArrayN(d[0]), false)
	is("copy of DenseMatrixNumber", dm.Copy(), false)
	is("copy of DenseVectorNumber", dv.Copy(), false)
	of := func(name string, x g.MatrixLogical[T]) { // the result may be of any format
		is(name, x, sparseFormat(x))
	}
	of("sum of CSRMatrix", csr.Add(csr))
	of("difference of CSCMatrix", csc.Subtract(csc))
	of("multiple of SparseVector", sv.Scalar(0))
	of("negative of CSCMatrix", csc.Negative())
	of("transpose of CSRMatrix", csr.Transpose())
	of("multiple of DenseMatrixNumber", dm.Scalar(0))
	is("TransposeToCSR", g.TransposeToCSR[T](c.Ctx(), dm), true)
	is("TransposeToCSC", g.TransposeToCSC[T](c.Ctx(), csr), true)
	c.Note("the library's formats of element type %s", tname[T]())
	c.Sig("built-in", tname[T](), r, k, d, csr.Values())
}

func c27Plain(c *Case) {
	for _, got := range []bool{
		g.IsSparseMatrix[bool](g.NewDenseMatrix[bool](2, 2)), g.IsSparseMatrix[bool](g.NewDenseVector[bool](2)),
		g.IsSparseMatrix[rune](g.NewDenseMatrix[rune](2, 2)), g.IsSparseMatrix[rune](g.NewDenseVector[rune](2)),
	} {
		c.Ev(1)
		if got {
			c.Fail("C27/built-in", "a dense logical or character matrix is reported sparse")
		}
	}
	c.Sig("plain")
}
