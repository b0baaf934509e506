package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	g "github.com/rossmerr/graphblas"
)

// Ref is the reference model: a plain mathematical matrix.
type Ref[T comparable] struct {
	R, C int
	D    []T
}

func newRef[T comparable](r, c int) *Ref[T] { return &Ref[T]{r, c, make([]T, r*c)} }
func (m *Ref[T]) At(r, c int) T             { return m.D[r*m.C+c] }
func (m *Ref[T]) Set(r, c int, v T)         { m.D[r*m.C+c] = v }
func (m *Ref[T]) Clone() *Ref[T]            { return &Ref[T]{m.R, m.C, append([]T(nil), m.D...)} }
func (m *Ref[T]) Rows2() [][]T {
	o := make([][]T, m.R)
	for i := range o {
		o[i] = append(make([]T, 0, m.C), m.D[i*m.C:(i+1)*m.C]...)
	}
	return o
}
func (m *Ref[T]) NNZ() int {
	n := 0
	var z T
	for _, v := range m.D {
		if v != z {
			n++
		}
	}
	return n
}
func (m *Ref[T]) T() *Ref[T] {
	o := newRef[T](m.C, m.R)
	for r := 0; r < m.R; r++ {
		for c := 0; c < m.C; c++ {
			o.Set(c, r, m.At(r, c))
		}
	}
	return o
}
func (m *Ref[T]) String() string {
	s := fmt.Sprintf("%dx%d[", m.R, m.C)
	if len(m.D) > 150 {
		var z T
		n := 0
		for i, v := range m.D {
			if v != z {
				s += fmt.Sprintf("(%d,%d)=%v ", i/m.C, i%m.C, v)
				if n++; n > 60 {
					s += "..."
					break
				}
			}
		}
		return s + "]"
	}
	for r := 0; r < m.R; r++ {
		if r > 0 {
			s += " / "
		}
		for c := 0; c < m.C; c++ {
			if c > 0 {
				s += " "
			}
			s += fmt.Sprint(m.At(r, c))
		}
	}
	return s + "]"
}

// same is == with NaN equal to NaN.
func same[T comparable](a, b T) bool { return a == b || (a != a && b != b) }

func (m *Ref[T]) same(o *Ref[T]) bool {
	if m.R != o.R || m.C != o.C {
		return false
	}
	for i := range m.D {
		if !same(m.D[i], o.D[i]) {
			return false
		}
	}
	return true
}

func isFloat[T Num]() bool  { var one T = 1; var two T = 2; return one/two != 0 }
func isSigned[T Num]() bool { var z T; return z-1 < 0 }
func tname[T any]() string  { var z T; return reflect.TypeOf(z).String() }
func bitsOf[T Num]() int {
	var z T
	return int(reflect.TypeOf(z).Size()) * 8
}

func maxOf[T Num]() T {
	if isFloat[T]() {
		if bitsOf[T]() == 32 {
			m := math.MaxFloat32
			return T(m)
		}
		m := math.MaxFloat64
		return T(m)
	}
	var x T = 1
	var nx T
	for {
		nx = x*2 + 1
		if nx <= x {
			return x
		}
		x = nx
	}
}
func minOf[T Num]() T {
	if isFloat[T]() {
		return -maxOf[T]()
	}
	if isSigned[T]() {
		return -maxOf[T]() - 1
	}
	return 0
}

// small is a small integer value (exact in every arithmetic done on it).
func small[T Num](c *Case, k int) T {
	v := T(c.n(k + 1))
	if isSigned[T]() && c.p(0.5) {
		return -v
	}
	return v
}

func smallNZ[T Num](c *Case, k int) T {
	v := T(1 + c.n(k))
	if isSigned[T]() && c.p(0.5) {
		return -v
	}
	return v
}

// anyVal is any value of the type. For floats it includes special values
// only when special is set.
func anyVal[T Num](c *Case, special bool) T {
	switch c.n(10) {
	case 0:
		return maxOf[T]()
	case 1:
		return minOf[T]()
	case 2, 3, 4, 5:
		return small[T](c, 5)
	case 6:
		if isFloat[T]() && special {
			z := float64(0)
			x := pick(c, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(z, -1), math.SmallestNonzeroFloat32, math.SmallestNonzeroFloat32, 1e-30)
			return T(x)
		}
		return small[T](c, 5)
	case 7:
		if isFloat[T]() {
			x := (c.R.Float64() - 0.5) * math.Pow(2, float64(c.n(60)-30))
			return T(x)
		}
		return T(c.R.Uint64())
	default:
		if isFloat[T]() {
			x := float64(c.n(2000)-1000) / 8
			return T(x)
		}
		return T(c.R.Uint64())
	}
}

func anyNZ[T Num](c *Case, special bool) T {
	for {
		if v := anyVal[T](c, special); v != 0 {
			return v
		}
	}
}

// mulVal is a value whose products and sums are exact: any integer (they
// wrap), or a small float.
func mulVal[T Num](c *Case) T {
	if isFloat[T]() {
		if bitsOf[T]() == 64 && c.p(0.2) { // sums of these are beyond a float32
			return smallNZ[T](c, 4095)
		}
		return smallNZ[T](c, 4)
	}
	if c.p(0.5) {
		return smallNZ[T](c, 9)
	}
	for {
		if v := T(c.R.Uint64()); v != 0 {
			return v
		}
	}
}

// bigSize draws, in one case in forty, a size beyond any that a small-size
// special case could be written for; the case's sizes together stay bounded.
func (c *Case) bigSize() (int, bool) {
	if !c.big {
		return 0, false
	}
	n := 0
	switch c.n(10) {
	case 0, 1, 2, 3:
		return 0, false
	case 4, 5, 6:
		n = 17 + c.n(20)
	case 7, 8:
		n = 33 + c.n(48)
	default:
		n = 65 + c.n(100)
	}
	n = min(n, 14000/c.area)
	if n < 17 {
		return 0, false
	}
	c.area *= n
	c.Count("sizes above 16", 1)
	return n, true
}

// thinSize draws the sizes of a case with one very long side.
func (c *Case) thinSize() int {
	if c.long > 0 || c.p(0.4) {
		n := 1 + c.n(3)
		if c.thin > 3000 {
			n = max(1, min(n, c.thin/max(c.long, 1)))
		}
		c.narrow = max(c.narrow, n)
		return n
	}
	c.Count("very long sides", 1)
	n := 100 + c.n(c.thin-99)
	if c.p(0.3) { // around a power of two
		n = pick(c, 128, 256, 512, 1024, 2048) + c.n(3) - 1
	}
	if c.thin > 3000 {
		n = pick(c, 4096, 8192, 16384, 32768, 65536, 65536, 1000, 21846) + c.n(3) - 1
		if c.narrow > 1 { // the time goes with the square
			n = min(n, c.thin/c.narrow)
		}
	}
	c.long = min(n, c.thin)
	return c.long
}

// length is a size from 1 to max, or now and then a big one.
func (c *Case) length(max int) int {
	if c.thin > 0 {
		return c.thinSize()
	}
	if c.huge > 0 {
		c.huge--
		return 256 + c.n(3)
	}
	if c.zero && c.p(0.3) {
		c.Count("sizes of zero", 1)
		return 0
	}
	if n, ok := c.bigSize(); ok {
		return n
	}
	return 1 + c.n(max)
}

func (c *Case) dim(max int) int {
	if c.thin > 0 {
		return c.thinSize()
	}
	if c.huge > 0 {
		c.huge--
		return 256 + c.n(3)
	}
	if c.zero && c.p(0.3) {
		c.Count("sizes of zero", 1)
		return 0
	}
	if n, ok := c.bigSize(); ok {
		return n
	}
	switch c.n(20) {
	case 0, 1, 2:
		return 1
	case 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13:
		return 1 + c.n(min(6, max))
	case 14, 15, 16, 17, 18:
		return 1 + c.n(min(18, max))
	default:
		return 1 + c.n(max)
	}
}

// pattern returns which cells are occupied.
func (c *Case) pattern(r, k int) []bool {
	p := make([]bool, r*k)
	set := func(f func(i, j int) bool) {
		for i := 0; i < r; i++ {
			for j := 0; j < k; j++ {
				p[i*k+j] = f(i, j)
			}
		}
	}
	d := pick(c, 0.03, 0.1, 0.25, 0.5, 0.5, 0.8)
	rnd := func(i, j int) bool { return c.p(d) }
	switch c.n(16) {
	case 0:
	case 1:
		set(func(i, j int) bool { return true })
	case 2: // corners only
		set(func(i, j int) bool {
			return (i == r-1 && j == k-1) || (c.p(0.5) && (i == 0 || i == r-1) && (j == 0 || j == k-1))
		})
	case 3: // one row
		x := c.n(r)
		set(func(i, j int) bool { return i == x && c.p(0.8) })
	case 4: // one column
		x := c.n(k)
		set(func(i, j int) bool { return j == x && c.p(0.8) })
	case 5: // diagonal
		set(func(i, j int) bool { return i == j })
	case 6: // trailing block
		x, y := c.n(r+1), c.n(k+1)
		set(func(i, j int) bool { return i >= x && j >= y && c.p(0.7) })
	case 7: // empty rows and columns
		er, ec := make([]bool, r), make([]bool, k)
		for i := range er {
			er[i] = c.p(0.5)
		}
		for i := range ec {
			ec[i] = c.p(0.4)
		}
		set(func(i, j int) bool { return !er[i] && !ec[j] && c.p(0.8) })
	case 8: // leading block
		x, y := 1+c.n(r), 1+c.n(k)
		set(func(i, j int) bool { return i < x && j < y && c.p(0.7) })
	default:
		set(rnd)
	}
	return p
}

func genRef[T Num](c *Case, r, k int, v func() T) *Ref[T] {
	m := newRef[T](r, k)
	for i, o := range c.pattern(r, k) {
		if o {
			m.D[i] = v()
		}
	}
	return m
}

// Kinds of matrices under test.
const (
	KDense = iota
	KCSR
	KCSC
	KDVec
	KSVec
	KProxy  // a user's own format, not registered as sparse
	KSProxy // a user's own format, registered as sparse
)

var kindName = []string{"Dense", "CSR", "CSC", "DenseVector", "SparseVector", "UserDense", "UserSparse"}

func isSparseKind(k int) bool { return k == KCSR || k == KCSC || k == KSVec || k == KSProxy }

// kind picks a format able to hold an r x k matrix.
func (c *Case) kind(k int, users bool) int {
	ks := []int{KDense, KCSR, KCSC}
	if k == 1 {
		ks = append(ks, KDVec, KSVec, KDVec, KSVec)
	}
	if users && c.p(0.25) {
		ks = []int{KProxy, KSProxy}
	}
	return ks[c.n(len(ks))]
}

func empty[T Num](kind, r, k int) g.Matrix[T] {
	switch kind {
	case KDense:
		return g.NewDenseMatrixN[T](r, k)
	case KCSR:
		return g.NewCSRMatrix[T](r, k)
	case KCSC:
		return g.NewCSCMatrix[T](r, k)
	case KDVec:
		return g.NewDenseVectorN[T](r)
	case KSVec:
		return g.NewSparseVector[T](r)
	case KProxy:
		return &UserMatrix[T]{Matrix: g.NewDenseMatrixN[T](r, k)}
	case KSProxy:
		return &UserSparse[T]{UserMatrix[T]{Matrix: g.NewCSRMatrix[T](r, k)}}
	}
	panic("kind")
}

// build makes a matrix of the given format with the model's content, through
// one of several construction histories.
func build[T Num](c *Case, kind int, m *Ref[T]) g.Matrix[T] {
	mode := c.n(5)
	if mode == 0 && m.R > 0 && m.C > 0 {
		switch kind {
		case KDense:
			return g.NewDenseMatrixFromArrayN(pieces(c, m))
		case KCSR:
			return g.NewCSRMatrixFromArray(pieces(c, m))
		case KCSC:
			return g.NewCSCMatrixFromArray(pieces(c, m))
		case KDVec:
			return g.NewDenseVectorFromArrayN(piece(c, m.D))
		case KSVec:
			return g.NewSparseVectorFromArray(piece(c, m.D))
		}
	}
	x := empty[T](kind, m.R, m.C)
	if mode == 4 && len(m.D) < 2000 { // a noisy history: junk first, then overwritten
		for i := 0; i < len(m.D)/2+1 && len(m.D) > 0; i++ {
			j := c.n(len(m.D))
			x.Set(j/m.C, j%m.C, smallNZ[T](c, 3))
		}
		for _, j := range c.R.Perm(len(m.D)) {
			x.Set(j/m.C, j%m.C, m.D[j])
		}
		return x
	}
	set := func(j int) {
		var z T
		if m.D[j] == z {
			return
		}
		if mode == 3 {
			x.Update(j/m.C, j%m.C, func(T) T { return m.D[j] })
		} else {
			x.Set(j/m.C, j%m.C, m.D[j])
		}
	}
	if mode == 1 {
		for j := range m.D {
			set(j)
		}
	} else {
		for _, j := range c.R.Perm(len(m.D)) {
			set(j)
		}
	}
	return x
}

// piece returns a copy of d that is a piece of a larger array, as a caller's
// slice may be. The rest of the array is nobody's to write: checkRest looks.
func piece[T Num](c *Case, d []T) []T {
	const before = 3
	after := 3 + len(d)
	all := make([]T, before+len(d)+after)
	for i := range all {
		all[i] = T(1 + i%100)
	}
	copy(all[before:], d)
	c.rest = append(c.rest, func() string {
		for i, v := range all {
			if (i < before || i >= before+len(d)) && v != T(1+i%100) {
				return fmt.Sprintf("a vector was built from the elements %d to %d of an array; element %d of the array was %v and became %v", before, before+len(d), i, T(1+i%100), v)
			}
		}
		return ""
	})
	return all[before : before+len(d)]
}

// pieces returns the rows of m as neighbouring pieces of one larger array.
func pieces[T Num](c *Case, m *Ref[T]) [][]T {
	if len(m.D) > 5000 {
		return m.Rows2()
	}
	all := piece(c, m.D)
	o := make([][]T, m.R)
	for i := range o {
		o[i] = all[i*m.C : (i+1)*m.C]
	}
	return o
}

// checkRest reports writes outside the arrays that matrices were built from.
func (c *Case) checkRest(key string) {
	for _, f := range c.rest {
		if d := f(); d != "" {
			c.Fail(key, "%s", d)
		}
	}
	c.Count("arrays watched around the piece handed over", len(c.rest))
	c.Ev(len(c.rest))
}

// diff compares everything observable about a matrix with the model: shape,
// every cell, and the enumeration. It returns "" if they agree.
func diff[T comparable](c *Case, x matrixLike[T], m *Ref[T], at func(r, c int) T, enum g1[T]) string {
	if x.Rows() != m.R || x.Columns() != m.C {
		return fmt.Sprintf("shape %dx%d, want %dx%d", x.Rows(), x.Columns(), m.R, m.C)
	}
	for r := 0; r < m.R; r++ {
		for k := 0; k < m.C; k++ {
			if v := at(r, k); !same(v, m.At(r, k)) {
				return fmt.Sprintf("cell (%d,%d) is %v, want %v; want matrix %v", r, k, v, m.At(r, k), m)
			}
		}
	}
	c.Ev(m.R * m.C)
	seen := make([]bool, m.R*m.C)
	var z T
	n := 0
	for enum.HasNext() {
		if n++; n > m.R*m.C {
			return fmt.Sprintf("enumeration yields more than the %d cells of %v", m.R*m.C, m)
		}
		r, k, v := enum.Next()
		if r < 0 || k < 0 || r >= m.R || k >= m.C {
			return fmt.Sprintf("enumeration yields (%d,%d) outside %dx%d", r, k, m.R, m.C)
		}
		if seen[r*m.C+k] {
			return fmt.Sprintf("enumeration yields (%d,%d) twice; want matrix %v", r, k, m)
		}
		seen[r*m.C+k] = true
		if !same(v, m.At(r, k)) {
			return fmt.Sprintf("enumeration yields (%d,%d)=%v, want %v; want matrix %v", r, k, v, m.At(r, k), m)
		}
	}
	c.Ev(n)
	if vs, ok := any(x).(interface{ Values() int }); ok && sparseFormat(x) {
		for i, v := range m.D {
			if v == z && seen[i] {
				return fmt.Sprintf("enumeration of a sparse format yields the zero at (%d,%d) of %v", i/m.C, i%m.C, m)
			}
		}
		if v := vs.Values(); v != n {
			return fmt.Sprintf("%d values counted, %d enumerated, of %v", v, n, m)
		}
	}
	for i, v := range m.D {
		if v != z && !seen[i] {
			return fmt.Sprintf("enumeration misses (%d,%d)=%v of %v", i/m.C, i%m.C, v, m)
		}
	}
	return ""
}

// sparseFormat tells whether x is one of the library's sparse formats, not
// asking the library.
func sparseFormat(x any) bool {
	name := reflect.TypeOf(x).String()
	for _, f := range []string{"CSRMatrix[", "CSCMatrix[", "SparseVector["} {
		if strings.HasPrefix(name, "*graphblas."+f) {
			return true
		}
	}
	return false
}

type matrixLike[T comparable] interface {
	Rows() int
	Columns() int
}
type g1[T comparable] interface {
	HasNext() bool
	Next() (int, int, T)
}

func diffM[T Num](c *Case, x g.MatrixLogical[T], m *Ref[T]) string {
	return diff[T](c, x, m, x.At, x.Enumerate())
}

// want fails the case unless x shows exactly the model's content.
func want[T Num](c *Case, key string, x g.MatrixLogical[T], m *Ref[T]) {
	if d := diffM[T](c, x, m); d != "" {
		c.Fail(key, "%s: %s", tname[T](), d)
	}
}

// UserMatrix is a user's own matrix format: it wraps a library matrix behind
// the public interface and lets monitors watch and disturb accesses.
type UserMatrix[T Num] struct {
	g.Matrix[T]
	onRead  func(r, c int)
	onWrite func(r, c int)
	onNext  func()
}

func (u *UserMatrix[T]) rd(r, c int) {
	if u.onRead != nil {
		u.onRead(r, c)
	}
}
func (u *UserMatrix[T]) wr(r, c int) {
	if u.onWrite != nil {
		u.onWrite(r, c)
	}
}
func (u *UserMatrix[T]) At(r, c int) T { u.rd(r, c); return u.Matrix.At(r, c) }
func (u *UserMatrix[T]) Set(r, c int, v T) {
	u.wr(r, c)
	u.Matrix.Set(r, c, v)
}
func (u *UserMatrix[T]) Update(r, c int, f func(T) T) {
	u.wr(r, c)
	u.Matrix.Update(r, c, f)
}
func (u *UserMatrix[T]) Copy() g.Matrix[T]               { return &UserMatrix[T]{Matrix: u.Matrix.Copy()} }
func (u *UserMatrix[T]) CopyLogical() g.MatrixLogical[T] { return u.Copy() }
func (u *UserMatrix[T]) Enumerate() g.Enumerate[T] {
	return &userEnum[T]{u.Matrix.Enumerate(), u}
}
func (u *UserMatrix[T]) Map() g.Map[T] { return &userMap[T]{u.Matrix.Map(), u} }

type userEnum[T Num] struct {
	g.Enumerate[T]
	u *UserMatrix[T]
}

func (e *userEnum[T]) Next() (int, int, T) {
	r, c, v := e.Enumerate.Next()
	if e.u.onNext != nil {
		e.u.onNext()
	}
	return r, c, v
}

type userMap[T Num] struct {
	m g.Map[T]
	u *UserMatrix[T]
}

func (e *userMap[T]) HasNext() bool { return e.m.HasNext() }
func (e *userMap[T]) Map(f func(int, int, T) T) {
	e.m.Map(func(r, c int, v T) T {
		e.u.wr(r, c)
		return f(r, c, v)
	})
}

// UserSparse is a user's own sparse format, registered as such.
type UserSparse[T Num] struct{ UserMatrix[T] }

func (u *UserSparse[T]) Copy() g.Matrix[T] {
	return &UserSparse[T]{UserMatrix[T]{Matrix: u.Matrix.Copy()}}
}
func (u *UserSparse[T]) CopyLogical() g.MatrixLogical[T] { return u.Copy() }

func init() {
	g.RegisterMatrix(reflect.TypeOf(UserSparse[float64]{}))
}
