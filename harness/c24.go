//go:build all || c24 || c25 || c32

package main

import (
	"sort"

	g "github.com/rossmerr/graphblas"
	gsort "github.com/rossmerr/graphblas/sort"
)

func init() {
	register("C24", 240000, 4800000, "a case is one character matrix sorted by rows or columns; the result is compared with the sorted multiset of its rows or columns; distinct by shape, format and content", c24)
}

// char picks a valid code point from an alphabet.
func char(c *Case, alpha int) rune {
	switch alpha {
	case 0:
		return rune('a' + c.n(2))
	case 1:
		return rune('a' + c.n(26))
	case 2:
		return pick(c, 'a', 'é', 'ÿ', 'Ā', '߿', 'ࠀ', '世', '\uffff', '\U00010000', '😀', '\U0010ffff')
	case 3:
		return pick(c, 0, 1, 'a', 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0x10000)
	default:
		for {
			if r := rune(c.n(0x110000)); r < 0xd800 || r > 0xdfff {
				return r
			}
		}
	}
}

func runeGrid(c *Case, r, k, alpha int) [][]rune {
	o := make([][]rune, r)
	for i := range o {
		o[i] = make([]rune, k)
		for j := range o[i] {
			o[i][j] = char(c, alpha)
		}
	}
	return o
}

func runeMatrix(c *Case, a [][]rune) (string, g.MatrixLogical[rune]) {
	r, k := len(a), len(a[0])
	var x g.MatrixLogical[rune]
	name := ""
	switch c.n(4) {
	case 0:
		if k == 1 {
			v := g.NewDenseVector[rune](r)
			for i := range a {
				v.SetVec(i, a[i][0])
			}
			return "DenseVector", v
		}
		fallthrough
	case 1:
		name, x = "DenseMatrixNumber", g.NewDenseMatrixN[rune](r, k)
	case 2:
		var d [][]rune
		for _, row := range a {
			d = append(d, append([]rune(nil), row...))
		}
		return "DenseMatrix", g.NewDenseMatrixFromArray(d)
	default:
		name, x = "DenseMatrix", g.NewDenseMatrix[rune](r, k)
	}
	for _, p := range c.R.Perm(r * k) {
		x.Set(p/k, p%k, a[p/k][p%k])
	}
	return name, x
}

func lexLess(a, b []rune) int {
	for i := range a {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	return 0
}

func c24(c *Case) {
	r, k := c.length(9), c.length(9)
	if c.p(0.15) {
		k = 1
	}
	if c.p(0.1) {
		r = 1
	}
	a := runeGrid(c, r, k, c.n(5))
	byCol := c.p(0.5)
	// duplicates, and lines that agree on a long prefix
	for n := c.n(4); n > 0 && c.p(0.6); n-- {
		if byCol {
			p, q, cut := c.n(k), c.n(k), 1+c.n(r)
			for i := 0; i < cut; i++ {
				a[i][p] = a[i][q]
			}
		} else {
			p, q, cut := c.n(r), c.n(r), 1+c.n(k)
			copy(a[p][:cut], a[q][:cut])
		}
	}
	lines := [][]rune{}
	if byCol {
		for j := 0; j < k; j++ {
			var l []rune
			for i := 0; i < r; i++ {
				l = append(l, a[i][j])
			}
			lines = append(lines, l)
		}
	} else {
		for i := 0; i < r; i++ {
			lines = append(lines, append([]rune(nil), a[i]...))
		}
	}
	switch c.n(6) { // presorted or reversed inputs
	case 0, 1:
		rev := c.p(0.5)
		sort.SliceStable(lines, func(i, j int) bool { return lexLess(lines[i], lines[j]) < 0 != rev })
		for i, l := range lines {
			for j, v := range l {
				if byCol {
					a[j][i] = v
				} else {
					a[i][j] = v
				}
			}
		}
	}
	name, x := runeMatrix(c, a)
	c.Note("%s %dx%d %q sorted by columns %v", name, r, k, a, byCol)
	c.Sig(name, r, k, a, byCol)
	ctx := c.Ctx()
	var y g.MatrixRune
	if byCol {
		y = gsort.BubbleColumns(ctx, x)
	} else {
		y = gsort.BubbleRow(ctx, x)
	}
	if y.Rows() != r || y.Columns() != k {
		c.Fail("C24/shape", "the sorted %dx%d matrix has shape %dx%d", r, k, y.Rows(), y.Columns())
	}
	sort.SliceStable(lines, func(i, j int) bool { return lexLess(lines[i], lines[j]) < 0 })
	for i, l := range lines {
		for j, v := range l {
			got := rune(0)
			if byCol {
				got = y.At(j, i)
			} else {
				got = y.At(i, j)
			}
			c.Ev(1)
			if got != v {
				c.Fail("C24/order", "line %d of the sorted matrix holds %q at %d, want %q (line %q)", i, got, j, v, l)
			}
		}
	}
	for i := range a {
		for j, v := range a[i] {
			if x.At(i, j) != v {
				c.Fail("C24/input-changed", "sorting changed its input at (%d,%d)", i, j)
			}
		}
	}
	y.Set(0, 0, 'z')
	if x.At(0, 0) != a[0][0] {
		c.Fail("C24/input-changed", "the sorted matrix shares its cells with the input")
	}
	dup := 0
	for i := 1; i < len(lines); i++ {
		if lexLess(lines[i-1], lines[i]) == 0 {
			dup++
		}
	}
	c.Count("duplicate lines", dup)
	c.Count("lines sorted", len(lines))
}
