//go:build all || c23 || c32

package main

import (
	"fmt"
	"math"
	"sync/atomic"

	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/breadthfirst"
)

func init() {
	register("C23", 156000, 3120000, "a case is one graph, one source and one stopping rule; every call of the callback is compared with the level sets and path counts of a queue-based search; distinct by graph, format, type, source and rule", perType(c23T[int], c23T[int8], c23T[int16], c23T[int32], c23T[int64], c23T[uint], c23T[uint8], c23T[uint16], c23T[uint32], c23T[uint64], c23T[uintptr], c23T[float32], c23T[float64]))
}

// graph makes an adjacency: e[c][r] is an edge from c to r.
func graph(c *Case, n int) (string, [][]bool) {
	e := make([][]bool, n)
	for i := range e {
		e[i] = make([]bool, n)
	}
	perm := c.R.Perm(n)
	if c.p(0.3) {
		for i := range perm {
			perm[i] = i
		}
	}
	add := func(a, b int) { e[perm[a]][perm[b]] = true }
	name := ""
	shape := c.n(11)
	if n > 90 && (shape == 6 || shape == 7) { // too many edges
		shape = 5
	}
	switch shape {
	case 0:
		name = "path"
		for i := 0; i+1 < n; i++ {
			add(i, i+1)
		}
	case 1:
		name = "cycle"
		for i := 0; i < n; i++ {
			add(i, (i+1)%n)
		}
	case 2:
		name = "star"
		for i := 1; i < n; i++ {
			add(0, i)
			if c.p(0.3) {
				add(i, 0)
			}
		}
	case 3:
		name = "tree"
		for i := 1; i < n; i++ {
			add(c.n(i), i)
		}
	case 4:
		name = "layers"
		w := 1 + c.n(3)
		d := pick(c, 0.85, 0.85, 1)
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if j/w == i/w+1 && c.p(d) {
					add(i, j)
				}
			}
		}
	case 5:
		name = "grid"
		w := 1 + c.n(4)
		for i := 0; i < n; i++ {
			if (i+1)%w != 0 && i+1 < n {
				add(i, i+1)
				add(i+1, i)
			}
			if i+w < n {
				add(i, i+w)
				if c.p(0.5) {
					add(i+w, i)
				}
			}
		}
	case 6:
		name = "complete"
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if i != j || c.p(0.3) {
					add(i, j)
				}
			}
		}
	case 7:
		name = "two parts"
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if i%2 == j%2 && c.p(0.4) {
					add(i, j)
				}
			}
		}
	case 8:
		name = "back edges"
		for i := 0; i+1 < n; i++ {
			add(i, i+1)
			add(i+1, c.n(i+1))
			if c.p(0.3) {
				add(i, i)
			}
		}
	default:
		name = "random"
		d := pick(c, 0.05, 0.15, 0.3, 0.6)
		if n > 90 {
			d = pick(c, 1.5, 2, 4) / float64(n)
		}
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if c.p(d) {
					add(i, j)
				}
			}
		}
	}
	return name, e
}

var c23Lost atomic.Int64

func c23T[T Num](c *Case) {
	n := 1 + c.n(9)
	if c.p(0.25) {
		c.area = 180
		n = c.length(22)
	}
	if c.Tier == "thorough" && c.p(0.05) {
		n = 1 + c.n(40)
	}
	if c.Prop == "C23" && c.Idx%400 == 31 {
		n = 91 + c.n(200)
		c.Count("graphs of more than ninety vertices", 1)
	}
	name, e := graph(c, n)
	src := c.n(n)
	if m := c.Idx % 3900; c.Prop == "C23" && (m == 1 || m == 6) { // int8 and uint8
		name, e = "diamonds", diamonds(25)
		n, src = 25+c.n(12), 0
		e = append(e, make([][]bool, n-25)...)
		for i := range e {
			e[i] = append(e[i], make([]bool, n-len(e[i]))...)
		}
		for i := 24; i+1 < n; i++ {
			e[i][i+1] = true
		}
	}
	if c.p(0.3) {
		src = 0
	}
	dist := make([]int, n)
	paths := make([]float64, n)
	for i := range dist {
		dist[i] = -1
	}
	dist[src], paths[src] = 0, 1
	far := 0
	for q := []int{src}; len(q) > 0; q = q[1:] {
		u := q[0]
		far = max(far, dist[u])
		for v := 0; v < n; v++ {
			if !e[u][v] {
				continue
			}
			if dist[v] < 0 {
				dist[v] = dist[u] + 1
				q = append(q, v)
			}
			if dist[v] == dist[u]+1 {
				paths[v] += paths[u]
			}
		}
	}
	// the numbers of paths in the arithmetic of the element type
	count := make([]T, n)
	count[src] = 1
	over := n + 1 // the first level with a count that wraps round to zero or less in the element type, or to infinity
	for d := 1; d <= far; d++ {
		for v := range count {
			if dist[v] != d {
				continue
			}
			for u := range count {
				if e[u][v] && dist[u] == d-1 {
					count[v] += count[u]
				}
			}
			if count[v] <= 0 || count[v]-count[v] != 0 {
				over = min(over, d)
			}
		}
	}
	if over <= n && c.Prop != "C23" {
		c.Trivial()
		return
	}
	near := func(v T, i int) bool { // float sums of more than 2^24 paths are rounded
		if !isFloat[T]() || paths[i] < 16000000 {
			return v == count[i]
		}
		return math.Abs(float64(v)/paths[i]-1) < 1e-3
	}
	a := newRef[T](n, n)
	edges := 0
	for u := range e {
		for v, o := range e[u] {
			if o {
				a.Set(v, u, 1)
				edges++
			}
		}
	}
	kind := c.kind(n, true)
	x := build(c, kind, a)
	stop := 1 + c.n(n+3)
	if c.p(0.4) {
		stop = n + 10
	} else if c.p(0.3) {
		stop = max(1, far)
	}
	ctx := c.Ctx()
	if c.p(0.2) {
		ctx = g.NewContext(ctx, g.NonBlocking)
	}
	c.Note("%s graph of %d vertices %s[%s] %v from %d, stop at call %d", name, n, kindName[kind], tname[T](), a, src, stop)
	c.Sig(kind, tname[T](), n, a.D, src, stop)
	calls := 0
	// what plain sums of counts give where a count wraps round: at
	// zero its vertex is not reached, below zero it is reached again
	level, visited := make([]T, n), make([]T, n)
	level[src], visited[src] = 1, 1
	lost := ""
	var last []T
	res := breadthfirst.Search(ctx, x, src, func(v g.Vector[T]) bool {
		calls++
		if calls > n {
			c.Fail("C23/calls", "more than %d calls", n)
		}
		if v.Length() != n {
			c.Fail("C23/length", "call %d got a vector of length %d, want %d", calls, v.Length(), n)
		}
		sums := make([]T, n)
		last = make([]T, n)
		for i := 0; over <= n && i < n; i++ {
			for u := range level {
				edge := T(0)
				if e[u][i] {
					edge = 1
				}
				if visited[i] <= 0 {
					sums[i] += edge * level[u]
				}
			}
		}
		for i := 0; i < n; i++ {
			got := v.AtVec(i)
			last[i] = got
			right := got == 0
			if dist[i] == calls {
				right = got != 0 && near(got, i)
				if count[i] == 0 || count[i]-count[i] != 0 { // any value says it was reached
					right = got != 0
				}
			}
			if right {
				continue
			}
			if calls >= over && (isFloat[T]() || same(got, sums[i])) {
				if lost == "" {
					lost = fmt.Sprintf("call %d gives vertex %d the value %v (distance %d): there are %v shortest paths to a vertex, which wraps round in the element type %s", calls, i, got, dist[i], maxFloat(paths), tname[T]())
					if isFloat[T]() {
						lost = fmt.Sprintf("call %d gives vertex %d the value %v (distance %d): there are %v shortest paths to a vertex, which is an infinity in the element type %s", calls, i, got, dist[i], maxFloat(paths), tname[T]())
					}
				}
				continue
			}
			c.Fail("C23/level", "call %d gives vertex %d the value %v, want %v (distance %d, %v shortest paths)", calls, i, got, count[i], dist[i], paths[i])
		}
		if over <= n {
			for i := range sums {
				if sums[i] != 0 {
					visited[i] = sums[i]
				}
			}
			level = sums
		}
		c.Ev(n)
		return calls == stop
	})
	c.Count("callback calls", calls)
	c.Count("levels reached", far)
	c.Count(name+" graphs", 1)
	if over <= n {
		c.Count("graphs with more shortest paths than the element type can count", 1)
	}
	if lost == "" && calls < stop && calls < far {
		c.Fail("C23/calls", "the search ended after %d calls, but vertices at distance %d are reachable", calls, far)
	}
	if calls > stop {
		c.Fail("C23/calls", "the search called back %d times, asked to stop at %d", calls, stop)
	}
	w := newRef[T](n, 1)
	if calls == stop {
		c.Count("stopped by the callback", 1)
		copy(w.D, last)
	}
	want[T](c, "C23/result", res, w)
	want[T](c, "C23/input-changed", x, a)
	if lost != "" {
		c.Count("searches whose levels went wrong after such a count (known finding)", 1)
	}
	if lost != "" && c23Lost.Add(1) <= 3 { // a few reports are enough
		c.Fail("C23/path-count", "%s", lost)
	}
}

func maxFloat(a []float64) float64 {
	m := 0.0
	for _, v := range a {
		m = max(m, v)
	}
	return m
}

// diamonds is a row of graphs of two ways each from one vertex to the next.
func diamonds(n int) [][]bool {
	e := make([][]bool, n)
	for i := range e {
		e[i] = make([]bool, n)
	}
	for i := 0; i+3 < n; i += 3 {
		e[i][i+1], e[i][i+2], e[i+1][i+3], e[i+2][i+3] = true, true, true, true
	}
	return e
}
