//go:build all || c32

package main

import (
	g "github.com/rossmerr/graphblas"
)

func init() {
	register("C32", 12000, 120000, "a case is either 2 to 5 goroutines that each run a whole workload of another property on objects of their own, or as many that each write to one of the copies, views and results taken from a single matrix; each goroutine's monitors compare its own objects with its own model; distinct by the goroutines' workloads", c32)
}

var c32Work = []struct {
	name string
	fn   func(*Case)
}{
	{"C01 int", c01T[int]}, {"C01 float64", c01T[float64]}, {"C01 uint8", c01T[uint8]}, {"C01 logical", c01Bool},
	{"C02 int", c02T[int]}, {"C02 float64", c02T[float64]}, {"C02 logical", c02Bool},
	{"C03 int", c03T[int]}, {"C03 float64", c03T[float64]},
	{"C04 int", c04T[int]}, {"C04 float64", c04T[float64]},
	{"C05 int", c05T[int]}, {"C05 logical", c05Logical},
	{"C06 int", c06T[int]}, {"C06 float64", c06T[float64]}, {"C06 rune", c06Logical},
	{"C07 int", c07T[int]}, {"C07 logical", c07Logical},
	{"C08 int", c08T[int]}, {"C08 float64", c08T[float64]},
	{"C09 int", c09T[int]}, {"C09 float64", c09T[float64]},
	{"C10 int", c10T[int]}, {"C10 uint8", c10T[uint8]},
	{"C11 int", c11T[int]}, {"C11 logical", c11Logical},
	{"C12 int", c12T[int]}, {"C12 float64", c12T[float64]},
	{"C13 int", c13T[int]}, {"C13 float64", c13T[float64]},
	{"C21 float64", c21T[float64]}, {"C21 float32", c21T[float32]},
	{"C22 int", c22T[int]}, {"C22 float64", c22T[float64]},
	{"C23 int", c23T[int]}, {"C23 float64", c23T[float64]},
	{"C24", c24}, {"C25", c25},
	{"C29 int", c29T[int]}, {"C29 float64", c29T[float64]}, {"C29 uint8", c29T[uint8]},
	{"C31 int", c31T[int]}, {"C31 float64", c31T[float64]},
}

func c32(c *Case) {
	c.area = 400
	switch c.n(4) {
	case 0:
		c32Origin[int](c)
	case 1:
		c32Origin[float64](c)
	default:
		n := 2 + c.n(4)
		same := c.p(0.3) // all of one kind, which meets shared state sooner
		w := make([]int, n)
		for i := range w {
			w[i] = c.n(len(c32Work))
			if same {
				w[i] = w[0]
			}
			c.Note("goroutine %d runs %s", i, c32Work[w[i]].name)
			c.Count("workloads of "+c32Work[w[i]].name[:3], 1)
		}
		c.Sig(w, c.R.Uint64())
		c.parallel(n, func(s *Case, i int) {
			for k := 0; k < 2; k++ {
				c32Work[w[i]].fn(s)
			}
			s.counts = nil // the workloads' own counters belong to their properties
		})
	}
	c.Ev(1)
}

// c32Origin: copies, views and results of one matrix go to one goroutine each.
func c32Origin[T Num](c *Case) {
	ctx := c.Ctx()
	r, k := 1+c.n(8), 1+c.n(8)
	if c.p(0.3) {
		k = 1
	}
	kind := c.kind(k, false)
	ref := genRef(c, r, k, func() T { return smallNZ[T](c, 4) })
	x := build(c, kind, ref)
	zero := empty[T](c.kind(k, false), r, k)
	c.Note("%s[%s] %v", kindName[kind], tname[T](), ref)
	c.Sig(kind, tname[T](), r, k, ref.D)
	type obj struct {
		x g.MatrixLogical[T]
		m *Ref[T]
	}
	derive := func(c *Case, take int) obj {
		switch take {
		case 0, 1, 2:
			return obj{x.Copy(), ref.Clone()}
		case 3:
			return obj{x.CopyLogical(), ref.Clone()}
		case 4:
			i := c.n(r)
			return obj{x.RowsAt(i), rowOf(ref, i)}
		case 5, 6:
			j := c.n(k)
			return obj{x.ColumnsAt(j), colOf(ref, j)}
		case 7:
			return obj{x.Scalar(1), ref.Clone()}
		case 8:
			return obj{x.Negative(), mapRef(ref, func(v T) T { return -v })}
		case 9:
			return obj{x.Transpose(), ref.T()}
		case 10:
			return obj{x.Add(zero), ref.Clone()}
		case 11:
			return obj{x.Subtract(zero), ref.Clone()}
		case 12:
			return obj{g.TransposeToCSR[T](ctx, x), ref.T()}
		default:
			return obj{g.TransposeToCSC[T](ctx, x), ref.T()}
		}
	}
	n := 2 + c.n(4)
	objs := make([]obj, n)
	inside := c.p(0.4) // taken by the goroutines themselves, at the same time
	takes := make([]int, n)
	for i := range objs {
		takes[i] = c.n(14)
		if i > 0 && c.p(0.3) {
			takes[i] = takes[0]
		}
		if !inside {
			objs[i] = derive(c, takes[i])
		}
	}
	if !inside && c.p(0.6) {
		objs[c.n(n)] = obj{x, ref.Clone()} // one goroutine has the matrix itself
	}
	c.Note("taken %v inside %v", takes, inside)
	c.Sig(takes, inside)
	c.Count("objects derived from one matrix", n)
	c.parallel(n, func(c *Case, i int) {
		o := objs[i]
		if inside {
			o = derive(c, takes[i])
		}
		for s := 0; s < 12; s++ {
			j := c.n(len(o.m.D))
			v := small[T](c, 3)
			switch c.n(10) {
			case 0, 1:
				o.x.Update(j/o.m.C, j%o.m.C, func(T) T { return v })
				o.m.D[j] = v
			case 2:
				if c.p(0.2) {
					o.x.Clear()
					o.m = newRef[T](o.m.R, o.m.C)
				}
			case 3, 4:
				want[T](c, "C32/derived", o.x, o.m)
			default:
				o.x.Set(j/o.m.C, j%o.m.C, v)
				o.m.D[j] = v
			}
			c.yield()
		}
		want[T](c, "C32/derived", o.x, o.m)
	})
	if inside {
		want[T](c, "C32/origin", x, ref)
	}
}

func rowOf[T Num](m *Ref[T], i int) *Ref[T] {
	o := newRef[T](m.C, 1)
	copy(o.D, m.D[i*m.C:(i+1)*m.C])
	return o
}

func colOf[T Num](m *Ref[T], j int) *Ref[T] {
	o := newRef[T](m.R, 1)
	for i := range o.D {
		o.D[i] = m.At(i, j)
	}
	return o
}
