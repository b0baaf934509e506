package main

import g "github.com/rossmerr/graphblas"

// marathon says how often to repeat one kind of call on one object: mostly
// not at all, now and then past the point where a counter of 8 bits comes
// round, and rarely past that of one of 16 bits.
func (c *Case) marathon() int {
	w := 0
	switch {
	case c.p(0.002):
		w = 1 << 16
	case c.p(0.008):
		w = 1 << 8
	default:
		return 0
	}
	return w + 3 + c.n(4)
}

// readInside reads a matrix from inside a function given to it: cells other
// than the one at hand are what they were.
func readInside[T Num](c *Case, key string, x g.Matrix[T], ref *Ref[T], at int) {
	for n := 1 + c.n(2); n > 0; n-- {
		j := c.n(len(ref.D))
		if c.p(0.4) {
			j = max(0, min(len(ref.D)-1, at+c.n(5)-2)) // near
		}
		a, b := j/ref.C, j%ref.C
		switch c.n(8) {
		case 0:
			x.RowsAt(a)
		case 1:
			x.ColumnsAt(b)
		case 2:
			x.Element(a, b)
		case 3:
			if e := x.Enumerate(); e.HasNext() {
				e.Next()
			}
		default:
			if v := x.At(a, b); j != at && !same(v, ref.D[j]) {
				c.Fail(key, "read from inside a function at cell %d, cell %d is %v, want %v; matrix %v", at, j, v, ref.D[j], ref)
			}
		}
		c.Ev(1)
	}
	c.Count("reads from inside functions", 1)
}

// full says whether everything is compared after repetition i: at the start,
// where counters of 8 and 16 bits come round, and now and then.
func (c *Case) full(i int) bool {
	around := func(w int) bool { return (i+3)%w < 7 }
	return i < 4 || i < 1024 && around(1<<8) || i == 1<<15 || around(1<<16) || c.p(0.002)
}

func (c *Case) ran(what string, n int) {
	c.Ev(n)
	c.Count("marathons: "+what, 1)
	c.Count("marathon calls", n)
}
