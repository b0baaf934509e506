//go:build all || c26

package main

import (
	"math"
	"runtime"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/operators"
)

func init() {
	register("C26", 22400, 224000, "a case is either a batch of operand pairs (special values included; every pair of 8-bit values in some cases) put to every operator, or one or more monoid folds of a random sequence, fed under disturbed schedules, often several at once from one monoid, with an operator that is neither associative nor commutative; distinct by type, operands and sequences", perType(c26T[int], c26T[int8], c26T[int16], c26T[int32], c26T[int64], c26T[uint], c26T[uint8], c26T[uint16], c26T[uint32], c26T[uint64], c26T[uintptr], c26T[float32], c26T[float64], c26Bool))
}

// bits tells apart the zeros and treats NaNs as one value.
func bitSame[T Num](a, b T) bool {
	if a != a || b != b {
		return a != a && b != b
	}
	if a != b {
		return false
	}
	return !isFloat[T]() || math.Signbit(float64(a)) == math.Signbit(float64(b))
}

type binCase[T Num] struct {
	name string
	op   binaryop.BinaryOp[T]
	f    func(x, y T) T
	div  bool
}

func binOps[T Num]() []binCase[T] {
	first := func(x, _ T) T { return x }
	second := func(_, y T) T { return y }
	mn := func(x, y T) T {
		if x < y {
			return x
		}
		return y
	}
	mx := func(x, y T) T {
		if x > y {
			return x
		}
		return y
	}
	add := func(x, y T) T { return x + y }
	sub := func(x, y T) T { return x - y }
	mul := func(x, y T) T { return x * y }
	div := func(x, y T) T { return x / y }
	return []binCase[T]{
		{"operators.FirstArgument", operators.FirstArgument[T](), first, false},
		{"operators.SecondArgument", operators.SecondArgument[T](), second, false},
		{"operators.Minimum", operators.Minimum[T](), mn, false},
		{"operators.Maximum", operators.Maximum[T](), mx, false},
		{"operators.Addition", operators.Addition[T](), add, false},
		{"operators.Subtraction", operators.Subtraction[T](), sub, false},
		{"operators.Multiplication", operators.Multiplication[T](), mul, false},
		{"operators.Division", operators.Division[T](), div, true},
		{"binaryop.FirstArgument", binaryop.FirstArgument[T](), first, false},
		{"binaryop.SecondArgument", binaryop.SecondArgument[T](), second, false},
		{"binaryop.Minimum", binaryop.Minimum[T](), mn, false},
		{"binaryop.Maximum", binaryop.Maximum[T](), mx, false},
		{"binaryop.Addition", binaryop.Addition[T](), add, false},
		{"binaryop.Subtraction", binaryop.Subtraction[T](), sub, false},
		{"binaryop.Multiplication", binaryop.Multiplication[T](), mul, false},
		{"binaryop.Division", binaryop.Division[T](), div, true},
	}
}

func c26T[T Num](c *Case) {
	if c.p(0.5) {
		c26Fold[T](c)
		return
	}
	var xs, ys []T
	if bitsOf[T]() == 8 && c.p(0.06) {
		for i := 0; i < 256; i++ {
			for j := 0; j < 256; j++ {
				xs, ys = append(xs, T(i)), append(ys, T(j))
			}
		}
		c.Note("every pair of [%s]", tname[T]())
		c.Count("exhaustive batches", 1)
	} else {
		n := 60
		for i := 0; i < n; i++ {
			x, y := anyVal[T](c, true), anyVal[T](c, true)
			if c.p(0.2) {
				y = x
			} else if c.p(0.1) {
				y = x + 1
			} else if c.p(0.1) {
				y = -x
			}
			xs, ys = append(xs, x), append(ys, y)
		}
		c.Note("pairs [%s] %v %v", tname[T](), xs, ys)
	}
	c.Sig(tname[T](), xs, ys)
	type cmp struct {
		name string
		op   binaryop.BinaryOpToBool[T]
		f    func(x, y T) bool
	}
	for _, o := range binOps[T]() {
		for i, x := range xs {
			y := ys[i]
			if o.div && !isFloat[T]() && y == 0 {
				continue // no value is documented
			}
			c.Ev(1)
			if got, w := o.op.Apply(x, y), o.f(x, y); !bitSame(got, w) {
				c.Fail("C26/formula", "%s[%s](%v,%v) is %v, want %v", o.name, tname[T](), x, y, got, w)
			}
		}
	}
	for _, o := range []cmp{
		{"Equal", operators.Equal[T](), func(x, y T) bool { return x == y }},
		{"NotEqual", operators.NotEqual[T](), func(x, y T) bool { return x != y }},
		{"GreaterThan", operators.GreaterThan[T](), func(x, y T) bool { return x > y }},
		{"LessThan", operators.LessThan[T](), func(x, y T) bool { return x < y }},
		{"GreaterThanOrEqual", operators.GreaterThanOrEqual[T](), func(x, y T) bool { return x >= y }},
		{"LessThanOrEqual", operators.LessThanOrEqual[T](), func(x, y T) bool { return x <= y }},
	} {
		for i, x := range xs {
			c.Ev(1)
			if got := o.op.Apply(x, ys[i]); got != o.f(x, ys[i]) {
				c.Fail("C26/comparison", "%s[%s](%v,%v) is %v", o.name, tname[T](), x, ys[i], got)
			}
		}
	}
	if z := g.DefaultMonoIDAddition[T]().Zero(); z != 0 {
		c.Fail("C26/identity", "the default addition's identity is %v", z)
	}
	if z := g.DefaultMonoIDMaximum[T]().Zero(); z != 0 {
		c.Fail("C26/identity", "the default maximum's identity is %v", z)
	}
}

// feed runs one fold over vals and returns every result delivered.
func feed[T comparable](c *Case, m interface {
	Reduce(done <-chan struct{}, slice <-chan T) <-chan T
}, vals []T) (res []T, closed bool) {
	done, slice := make(chan struct{}), make(chan T)
	out := m.Reduce(done, slice)
	closing := c.p(0.3)
	disturb := c.p(0.5)
	go func() {
		for _, v := range vals {
			if disturb {
				runtime.Gosched()
			}
			slice <- v
		}
		if closing {
			close(done)
		} else {
			done <- struct{}{}
		}
	}()
	if disturb {
		c.yield()
	}
	for v := range out { // ends only when the fold closes its output
		res = append(res, v)
		if len(res) > 3 {
			break
		}
	}
	return res, true
}

func c26Fold[T Num](c *Case) {
	unit := small[T](c, 5)
	var op binaryop.BinaryOp[T]
	name := ""
	f := func(x, y T) T { return x }
	switch c.n(6) {
	case 0:
		name, op, f = "subtraction", binaryop.Subtraction[T](), func(x, y T) T { return x - y }
	case 1:
		name, op, f = "first argument", operators.FirstArgument[T](), func(x, y T) T { return x }
	case 2:
		name, op, f = "second argument", operators.SecondArgument[T](), func(x, y T) T { return y }
	case 3:
		name, op, f = "addition", operators.Addition[T](), func(x, y T) T { return x + y }
	default:
		name = "3x-y+1"
		f = func(x, y T) T {
			if isFloat[T]() {
				return (x - y) / 2
			}
			return x*3 - y + 1
		}
		op = binaryop.NewBinaryOp(func(x, y T) T {
			if y == 3 {
				runtime.Gosched()
			}
			return f(x, y)
		})
	}
	m := binaryop.NewMonoID(unit, op)
	if z := m.Zero(); z != unit {
		c.Fail("C26/identity", "the monoid's identity is %v, want %v", z, unit)
	}
	n := 1
	if c.p(0.6) {
		n = 2 + c.n(6)
	}
	c.Note("%d folds [%s] by %s from %v", n, tname[T](), name, unit)
	c.Sig("fold", n, tname[T](), name, unit)
	rounds := 3
	if k := c.marathon(); k > 0 {
		rounds = k
		c.ran("folds", k)
	}
	c.parallel(n, func(c *Case, _ int) {
		for q := 0; q < rounds; q++ {
			k := pick(c, 0, 1, 2, 5, 20, 60)
			if rounds > 3 {
				k = c.n(3)
			} else if c.p(0.03) { // beyond any buffer or batch
				k = pick(c, 256, 1024, 4096) + c.n(3) - 1
				c.Count("long folds", 1)
			}
			var vals []T
			w := unit
			for i := 0; i < k; i++ {
				v := small[T](c, 5)
				vals = append(vals, v)
				w = f(w, v)
			}
			res, _ := feed[T](c, m, vals)
			c.Ev(k + 1)
			c.Count("values folded", k)
			c.Count("folds", 1)
			if len(res) != 1 {
				c.Fail("C26/one-result", "the fold delivered %d results %v", len(res), res)
			}
			if !bitSame(res[0], w) {
				c.Fail("C26/fold", "folding %d values %v... by %s from %v gives %v, want %v", k, vals[:min(k, 60)], name, unit, res[0], w)
			}
			if z := m.Zero(); z != unit {
				c.Fail("C26/identity", "the identity became %v", z)
			}
		}
	})
	c.Sig(c.events)
	if n > 1 {
		c.Count("cases with concurrent folds", 1)
	}
	c.checkLeak("C26/leak")
}

func c26Bool(c *Case) {
	for _, x := range []bool{false, true} {
		for _, y := range []bool{false, true} {
			c.Ev(4)
			if operators.LOR.Apply(x, y) != (x || y) || operators.LAND.Apply(x, y) != (x && y) || operators.LXOR.Apply(x, y) != (x != y) || operators.LogicalInverse.Apply(x) == x {
				c.Fail("C26/logical", "a logical operator is wrong at %v, %v", x, y)
			}
		}
	}
	ops := []binaryop.BinaryOp[bool]{operators.LOR, operators.LAND, operators.LXOR}
	fs := []func(x, y bool) bool{func(x, y bool) bool { return x || y }, func(x, y bool) bool { return x && y }, func(x, y bool) bool { return x != y }}
	i := c.n(3)
	unit := c.p(0.5)
	m := binaryop.NewMonoID(unit, ops[i])
	var vals []bool
	w := unit
	for k := c.n(30); k > 0; k-- {
		v := c.p(0.5)
		vals = append(vals, v)
		w = fs[i](w, v)
	}
	c.Note("logical fold %d of %v from %v", i, vals, unit)
	c.Sig("bool", i, unit, vals)
	c.parallel(1+c.n(3), func(c *Case, _ int) {
		res, _ := feed[bool](c, m, vals)
		c.Ev(len(vals) + 1)
		c.Count("folds", 1)
		if len(res) != 1 || res[0] != w || m.Zero() != unit {
			c.Fail("C26/fold", "folding %v from %v gives %v, want %v once", vals, unit, res, w)
		}
	})
	c.checkLeak("C26/leak")
}
