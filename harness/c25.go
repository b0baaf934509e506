//go:build all || c25 || c32

package main

import (
	g "github.com/rossmerr/graphblas"
)

func init() {
	register("C25", 312000, 6240000, "a case is three character matrices of one shape, usually close to each other, compared in every pair and order; distinct by shape, formats and contents", c25)
}

func c25(c *Case) {
	ctx := c.Ctx()
	r, k := c.length(6), c.length(6)
	if c.p(0.2) {
		k = 1
	}
	alpha := c.n(5)
	var gs [3][][]rune
	var ms [3]g.MatrixLogical[rune]
	for i := range gs {
		if i > 0 && c.p(0.8) {
			gs[i] = make([][]rune, r)
			for j := range gs[i] {
				gs[i][j] = append([]rune(nil), gs[i-1][j]...)
			}
			for n := c.n(3); n > 0; n-- {
				gs[i][c.n(r)][c.n(k)] = char(c, alpha)
			}
			if c.p(0.3) { // the last character only
				gs[i][r-1][k-1] = char(c, alpha)
			}
		} else {
			gs[i] = runeGrid(c, r, k, alpha)
		}
		name := ""
		name, ms[i] = runeMatrix(c, gs[i])
		c.Note("%s %q", name, gs[i])
		c.Sig(name, r, k, gs[i])
	}
	flat := func(a [][]rune) (o []rune) {
		for _, row := range a {
			o = append(o, row...)
		}
		return
	}
	for i := range ms {
		if s := g.String(ctx, ms[i]); s != string(flat(gs[i])) {
			c.Fail("C25/string", "the string form is %q, want %q", s, string(flat(gs[i])))
		}
		for j := range ms {
			w := lexLess(flat(gs[i]), flat(gs[j]))
			got := g.Compare(ctx, ms[i], ms[j])
			c.Ev(4)
			if got != w {
				c.Fail("C25/compare", "comparing %q with %q gives %d, want %d", gs[i], gs[j], got, w)
			}
			if l := g.Less(ctx, ms[i], ms[j]); l != (w < 0) {
				c.Fail("C25/less", "less of %q and %q is %v", gs[i], gs[j], l)
			}
			if l := g.Greater(ctx, ms[i], ms[j]); l != (w > 0) {
				c.Fail("C25/greater", "greater of %q and %q is %v", gs[i], gs[j], l)
			}
			if e := ms[i].Equal(ms[j]); e != (w == 0) {
				c.Fail("C25/equal", "equality of %q and %q is %v", gs[i], gs[j], e)
			}
			c.Count([]string{"less", "equal", "greater"}[w+1]+" pairs", 1)
		}
	}
	if c.p(0.02) || c.thin > 0 && c.p(0.3) { // a difference at each place on its own
		name, m := runeMatrix(c, gs[0])
		for j, row := range gs[0] {
			for l, v := range row {
				x := char(c, alpha)
				if x == v || r*k > 100 && c.n(r*k) > 100 {
					continue
				}
				m.Set(j, l, x)
				w := 1
				if x < v {
					w = -1
				}
				c.Ev(2)
				if got, back := g.Compare(ctx, m, ms[0]), g.Compare(ctx, ms[0], m); got != w || back != -w {
					c.Fail("C25/compare", "%s: with %q at (%d,%d) instead of %q, comparing %q gives %d, and %d the other way", name, x, j, l, v, gs[0], got, back)
				}
				m.Set(j, l, v)
			}
		}
		c.Count("cases with a difference at every place", 1)
	}
	for i := range ms {
		for j, row := range gs[i] {
			for l, v := range row {
				if ms[i].At(j, l) != v {
					c.Fail("C25/input-changed", "comparing changed a matrix")
				}
			}
		}
	}
}
