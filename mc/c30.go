package main

// C30: collections of nodes are sets.

import (
	"fmt"
	"sort"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
)

func init() {
	register(&Check{ID: "C30", Run: runC30, Procs: 1,
		Rule: "A case is a pair of lists of distinct nodes in every order and with and without room behind them, a list with repetitions, a pair of subsets, or a sequence of additions and removals. Every exported operation on Nodes and NodeSet is compared with the same operation on sets of numbers; the operands must keep their elements. states: distinct operands or sequences; transitions: operations; traces: results compared."})
}

// sequences lists every sequence of up to n of the numbers 0..k-1; distinct
// leaves out those with repetitions.
func sequences(k, n int, distinct bool) (l [][]int) {
	var rec func(s []int)
	rec = func(s []int) {
		l = append(l, append([]int{}, s...))
		if len(s) == n {
			return
		}
	next:
		for i := 0; i < k; i++ {
			if distinct {
				for _, x := range s {
					if x == i {
						continue next
					}
				}
			}
			rec(append(s[:len(s):len(s)], i))
		}
	}
	rec(nil)
	return
}

type nodePool struct {
	nodes []*G.Node
	at    map[*G.Node]int
}

func newNodePool(n int) *nodePool {
	g := G.NewGraph()
	p := &nodePool{at: map[*G.Node]int{}}
	for i := 0; i < n; i++ {
		p.nodes = append(p.nodes, G.NewScalar(g, tensor.Float64, G.WithName(fmt.Sprint("n", i))))
	}
	for i, x := range p.nodes {
		p.at[x] = i
	}
	return p
}

// list makes a slice of the nodes with room for more behind them, which is
// filled with nodes that are none of the slice's business.
func (p *nodePool) list(s []int, room int, fill *G.Node) (G.Nodes, G.Nodes) {
	all := make(G.Nodes, 0, len(s)+room)
	for _, i := range s {
		all = append(all, p.nodes[i])
	}
	l := len(all)
	for i := 0; i < room; i++ {
		all = append(all, fill)
	}
	return all[:l], all
}

// elems is what is in the list, in order of number; -1 for strangers.
func (p *nodePool) elems(l []*G.Node) []int {
	r := []int{}
	for _, n := range l {
		if i, ok := p.at[n]; ok {
			r = append(r, i)
		} else {
			r = append(r, -1)
		}
	}
	sort.Ints(r)
	return r
}

func (p *nodePool) setElems(s G.NodeSet) []int {
	var l []*G.Node
	for n := range s {
		l = append(l, n)
	}
	return p.elems(l)
}

// pick lists the numbers below n that satisfy f.
func pick(n int, f func(i int) bool) []int {
	r := []int{}
	for i := 0; i < n; i++ {
		if f(i) {
			r = append(r, i)
		}
	}
	return r
}

func has(s []int, i int) bool {
	for _, x := range s {
		if x == i {
			return true
		}
	}
	return false
}

func runC30(c *Ctx) {
	N := 4
	if c.Thorough {
		N = 5
	}
	want := func(t *T, what string, got, want interface{}) {
		t.Trans(1)
		t.Trace(1)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			t.Failf("%s: %v, want %v", what, got, want)
		}
	}
	lists := sequences(N, N, true)
	for _, a := range lists {
		for _, b := range lists {
			for _, room := range []int{0, 1, 2 * N} {
				a, b, room := a, b, room
				c.Case(func() string { return fmt.Sprintf("lists|%v|%v|%d", a, b, room) }, func(t *T) {
					t.State(a, b, room)
					p := newNodePool(N)
					stranger := G.NewScalar(G.NewGraph(), tensor.Float64, G.WithName("s"))
					fresh := func() (G.Nodes, G.Nodes, func()) {
						x, xs := p.list(a, room, stranger)
						y, ys := p.list(b, room, stranger)
						return x, y, func() {
							want(t, "elements of the left operand afterwards", p.elems(x), pick(N, func(i int) bool { return has(a, i) }))
							want(t, "elements of the right operand afterwards", p.elems(y), pick(N, func(i int) bool { return has(b, i) }))
							for i, n := range append(xs[len(x):len(xs):len(xs)], ys[len(y):]...) {
								if n != stranger {
									t.Failf("memory behind an operand (%d) was overwritten", i)
								}
							}
						}
					}
					x, y, same := fresh()
					want(t, "Difference", p.elems(x.Difference(y)), pick(N, func(i int) bool { return has(a, i) && !has(b, i) }))
					same()
					x, y, same = fresh()
					want(t, "Intersect", p.elems(x.Intersect(y)), pick(N, func(i int) bool { return has(a, i) && has(b, i) }))
					same()
					x, y, same = fresh()
					want(t, "Equals", x.Equals(y), fmt.Sprint(pick(N, func(i int) bool { return has(a, i) })) == fmt.Sprint(pick(N, func(i int) bool { return has(b, i) })))
					same()
				})
			}
		}
	}
	for _, a := range sequences(N-1, N+1, false) {
		a := a
		c.Case(func() string { return fmt.Sprintf("list|%v", a) }, func(t *T) {
			t.State("list", a)
			p := newNodePool(N)
			x, _ := p.list(a, 0, nil)
			want(t, "Len", x.Len(), len(a))
			for i, n := range p.nodes {
				want(t, "Contains", x.Contains(n), has(a, i))
				y, _ := p.list(a, 0, nil)
				y = y.Add(n)
				exp := append([]int{}, a...)
				if !has(a, i) {
					exp = append(exp, i)
				}
				l := []int{}
				for _, m := range y {
					l = append(l, p.at[m])
				}
				want(t, fmt.Sprintf("Add(%d)", i), l, exp)
			}
			want(t, "elements of NewNodeSet", p.setElems(G.NewNodeSet(x...)), pick(N, func(i int) bool { return has(a, i) }))
			s := x.Set()
			want(t, "Set", p.elems(s), pick(N, func(i int) bool { return has(a, i) }))
			want(t, "Set of a set", p.elems(s.Set()), p.elems(s))
		})
	}
	// nodes of two graphs, constants, and values bound to nodes
	for _, a := range sequences(6, 3, false) {
		a := a
		c.Case(func() string { return fmt.Sprintf("graphs|%v", a) }, func(t *T) {
			t.State("graphs", a)
			g, h := G.NewGraph(), G.NewGraph()
			k := G.NewConstant(2.0)
			x := G.NewScalar(g, tensor.Float64, G.WithName("x"))
			all := []*G.Node{x, G.Must(G.Add(x, k)), G.NewScalar(h, tensor.Float64, G.WithName("x")), G.NewConstant(1.0), g.AddNode(G.NewConstant(3.0)), h.AddNode(G.NewConstant(3.0))}
			var l G.Nodes
			in := [2]bool{}
			for _, i := range a {
				l = append(l, all[i])
				if i < 3 {
					in[i/2] = true
				}
			}
			want(t, "AllSameGraph", l.AllSameGraph(), len(a) > 0 && !(in[0] && in[1]))
		})
	}
	M := 5
	if c.Thorough {
		M = 7
	}
	for a := 0; a < 1<<M; a++ {
		for b := 0; b < 1<<M; b++ {
			a, b := a, b
			c.Case(func() string { return fmt.Sprintf("sets|%b|%b", a, b) }, func(t *T) {
				t.State("sets", a, b)
				p := newNodePool(M)
				mk := func(m int) (G.NodeSet, []*G.Node) {
					var l []*G.Node
					for i := 0; i < M; i++ {
						if m>>i&1 == 1 {
							l = append(l, p.nodes[i])
						}
					}
					return G.NewNodeSet(l...), l
				}
				x, lx := mk(a)
				y, ly := mk(b)
				bits := func(m int) []int { return pick(M, func(i int) bool { return m>>i&1 == 1 }) }
				want(t, "elements", p.setElems(x), bits(a))
				want(t, "Union", p.setElems(x.Union(y)), bits(a|b))
				want(t, "Intersect", p.setElems(x.Intersect(y)), bits(a&b))
				want(t, "Difference", p.setElems(x.Difference(y)), bits(a&^b))
				want(t, "SymmetricDifference", p.setElems(x.SymmetricDifference(y)), bits(a^b))
				want(t, "IsSubset", x.IsSubset(y), a&^b == 0)
				want(t, "IsSuperset", x.IsSuperset(y), b&^a == 0)
				want(t, "Equal", x.Equal(y), a == b)
				want(t, "ContainsAll", x.ContainsAll(ly...), b&^a == 0)
				want(t, "ToSlice", p.elems(x.ToSlice()), bits(a))
				want(t, "Cardinality", x.Cardinality(), len(lx))
				var l []*G.Node
				for n := range x.Iter() {
					l = append(l, n)
				}
				want(t, "Iter", p.elems(l), bits(a))
				z := x.Clone()
				want(t, "Clone", p.setElems(z), bits(a))
				for _, n := range ly { // the clone is a set of its own
					want(t, "Add to the clone", z.Add(n), !x.Contains(n))
				}
				want(t, "clone and elements", p.setElems(z), bits(a|b))
				for _, n := range ly {
					z.Remove(n)
				}
				want(t, "clone without elements", p.setElems(z), bits(a&^b))
				want(t, "left operand afterwards", p.setElems(x), bits(a))
				want(t, "right operand afterwards", p.setElems(y), bits(b))
				z.Clear()
				want(t, "Clear", z.Cardinality(), 0)
				want(t, "the set cloned", p.setElems(x), bits(a))
			})
		}
	}
	// additions (0..2), removals (3..5) and clearing (6)
	depth := 5
	if c.Thorough {
		depth = 6
	}
	for _, s := range sequences(7, depth, false) {
		s := s
		c.Case(func() string { return fmt.Sprintf("history|%v", s) }, func(t *T) {
			p := newNodePool(3)
			x, m := G.NewNodeSet(), 0
			for _, e := range s {
				switch {
				case e < 3:
					want(t, "Add", x.Add(p.nodes[e]), m>>e&1 == 0)
					m |= 1 << e
				case e < 6:
					x.Remove(p.nodes[e-3])
					m &^= 1 << (e - 3)
				default:
					x.Clear()
					m = 0
				}
				want(t, "elements", p.setElems(x), pick(3, func(i int) bool { return m>>i&1 == 1 }))
				t.State("history", m)
			}
		})
	}
}
