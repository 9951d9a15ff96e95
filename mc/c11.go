package main

import (
	"fmt"

	G "gorgonia.org/gorgonia"
)

func init() {
	register(&Check{ID: "C11", Run: runC11, Procs: 1,
		Rule: "states: distinct reference results; transitions: contractions applied; traces: executions and gradients compared element by element"})
}

// opContract is Tensordot without any restriction on extents.
func opContract(aAxes, bAxes []int) *Op {
	return &Op{Name: fmt.Sprintf("Contract(%v,%v)", axesName(aAxes), axesName(bAxes)), N: 2,
		Ref:   func(in []*RT) (*RT, error) { return tensordotRT(in[0], in[1], aAxes, bAxes) },
		Build: func(in []*G.Node) (*G.Node, error) { return G.Tensordot(cp(aAxes), cp(bAxes), in[0], in[1]) }}
}

// mixedViews applies op with each operand plain or one of the four views.
func mixedViews(c *Ctx, tag string, op *Op, ins []*RT, grad bool) {
	var forms func(cur []int)
	forms = func(cur []int) {
		if len(cur) < len(ins) {
			for f := 0; f <= 4; f++ {
				forms(append(cp(cur), f))
			}
			return
		}
		p := &Prog{DT: ins[0].DT, NIn: len(ins)}
		var mid []*RT
		var at []int
		for i, t := range ins {
			if cur[i] == 0 {
				p.Vals = append(p.Vals, t)
				continue
			}
			src, _, err := viewSource(t, cur[i])
			if err != nil {
				return
			}
			p.Vals = append(p.Vals, src)
		}
		for i, t := range ins {
			if cur[i] == 0 {
				at = append(at, i)
				mid = append(mid, t)
				continue
			}
			_, pre, _ := viewSource(t, cur[i])
			r, err := pre.Ref([]*RT{p.Vals[i]})
			if err != nil {
				return
			}
			at = append(at, len(p.Vals))
			p.Instrs = append(p.Instrs, Instr{pre, []int{i}})
			p.Vals = append(p.Vals, r)
			mid = append(mid, r)
		}
		r, err := op.Ref(mid)
		if err != nil {
			return
		}
		p.Instrs = append(p.Instrs, Instr{op, at})
		p.Vals = append(p.Vals, r)
		name := func(p *Prog, what string) func() string {
			return func() string { return fmt.Sprintf("%s|%s|%s", tag, p.String(), what) }
		}
		c.Case(name(p, "tape"), func(t *T) { tapeCase(t, p, 0) })
		c.Case(name(p, "lisp"), func(t *T) { lispCase(t, p, false, 0) })
		if grad {
			suiteGrad(c, p, name)
		}
	}
	forms(nil)
}

func runC11(c *Ctx) {
	// the result of contracting every axis is a vector of one element (the
	// repository's tests say so), although the node is announced as a scalar
	lenientOne = true
	ext := []int{1, 2, 3}
	if c.Thorough {
		ext = []int{1, 2, 3, 4}
	}
	for _, dt := range []string{"int", "i64", "i32", "u8"} {
		one := func(op *Op, a, b []int) {
			intAnswer(c, "int", intOf(op), []*RT{intRT(dt, 1, a...), intRT(dt, 2, b...)})
		}
		for _, m := range ext {
			one(opMul(), []int{m}, []int{m})
			for _, n := range ext {
				one(opOuter(), []int{m}, []int{n})
				one(opMul(), []int{m, n}, []int{n})
				one(opMul(), []int{m}, []int{m, n})
				for _, k := range ext {
					one(opMul(), []int{m, k}, []int{k, n})
					one(opBatchedMatMul(false, false), []int{2, m, k}, []int{2, k, n})
					one(opTensordot([]int{1}, []int{0}), []int{m, k}, []int{k, n})
					one(opTensordot([]int{0}, []int{1}), []int{k, m}, []int{n, k})
				}
			}
		}
	}
	for _, dt := range []string{"f64", "f32"} {
		full := dt == "f64" || c.Thorough
		gen := func(salt int, sh ...int) *RT { return genRT(dt, 1, salt, sh...) }
		one := func(tag string, op *Op, a, b *RT) {
			parts := "frg"
			suite(c, tag, op, []*RT{a, b}, parts)
			if full {
				mixedViews(c, tag+"v", op, []*RT{a, b}, true)
			}
			if sameShape(a.Shape, b.Shape) {
				suite(c, tag+"self", op, []*RT{a}, "frg")
			}
		}
		for _, m := range ext {
			one("dot", opMul(), gen(1, m), gen(2, m))
			for _, n := range ext {
				one("outer", opOuter(), gen(1, m), gen(2, n))
				one("matvec", opMul(), gen(1, m, n), gen(2, n))
				one("vecmat", opMul(), gen(1, m), gen(2, m, n))
				for _, k := range ext {
					one("matmul", opMul(), gen(1, m, k), gen(2, k, n))
				}
			}
		}
		// larger operands reach the blocked paths of the kernels
		for _, s := range [][3]int{{5, 7, 3}, {8, 8, 8}, {1, 16, 1}, {16, 1, 16}, {17, 3, 9}} {
			a, b := gen(1, s[0], s[1]), gen(2, s[1], s[2])
			suite(c, "matmulL", opMul(), []*RT{a, b}, "frgv")
			suite(c, "matvecL", opMul(), []*RT{a, gen(2, s[1])}, "frgv")
			suite(c, "vecmatL", opMul(), []*RT{gen(1, s[0]), a}, "frgv")
			suite(c, "outerL", opOuter(), []*RT{gen(1, s[0]), gen(2, s[1])}, "frg")
		}
		// batched
		for _, bt := range [][]int{{1}, {2}, {3}, {1, 2}, {2, 1}, {2, 2}, {1, 1}} {
			for _, ta := range []bool{false, true} {
				for _, tb := range []bool{false, true} {
					for _, m := range []int{1, 2, 3} {
						for _, k := range []int{1, 2, 3} {
							for _, n := range []int{1, 2, 3} {
								if !full && m == 3 {
									continue
								}
								ma, mb := []int{m, k}, []int{k, n}
								if ta {
									ma = []int{k, m}
								}
								if tb {
									mb = []int{n, k}
								}
								a, b := gen(1, append(cp(bt), ma...)...), gen(2, append(cp(bt), mb...)...)
								suite(c, "bmm", opBatchedMatMul(ta, tb), []*RT{a, b}, "frg")
								if len(bt) == 1 && full {
									mixedViews(c, "bmmv", opBatchedMatMul(ta, tb), []*RT{a, b}, true)
								}
							}
						}
					}
				}
			}
		}
		contractions(c, dt, full)
		if full {
			chains(c, dt)
		}
	}
}

// contractions: every pair of shapes up to three dimensions with extents 1..2
// (and distinct extents), every pairing of axes in every order.
func contractions(c *Ctx, dt string, full bool) {
	do := func(as, bs []int, views bool) {
		for _, aa := range append([][]int{{}}, axisLists(len(as), true)...) {
			for _, ba := range append([][]int{{}}, axisLists(len(bs), true)...) {
				if len(aa) != len(ba) || len(aa) == 0 {
					continue
				}
				ok := true
				for i := range aa {
					ok = ok && as[aa[i]] == bs[ba[i]]
				}
				if !ok {
					continue
				}
				in := []*RT{genRT(dt, 1, 1, as...), genRT(dt, 1, 2, bs...)}
				suite(c, "contract", opContract(aa, ba), in, "frg")
				if views {
					mixedViews(c, "contractv", opContract(aa, ba), in, true)
				}
			}
		}
	}
	ext := []int{1, 2}
	if c.Thorough {
		ext = []int{1, 2, 3}
	}
	sh := shapesUpTo(3, ext...)
	for _, as := range sh {
		for _, bs := range sh {
			if !full && len(as)+len(bs) > 4 {
				continue
			}
			do(as, bs, full && len(as) <= 2 && len(bs) <= 2)
		}
	}
	for _, as := range [][]int{{3}, {3, 2}, {2, 3}, {4, 3, 2}, {2, 3, 4}} {
		for _, bs := range [][]int{{3}, {3, 2}, {2, 3}, {3, 4}, {4, 3, 2}, {3, 2, 4}} {
			do(as, bs, false)
		}
	}
	do([]int{2, 3, 2, 2}, []int{2, 3}, false)
	do([]int{3, 2}, []int{2, 2, 3, 2}, false)
	do([]int{2, 2, 3, 2}, []int{3, 2, 2, 2}, false)
}

// chains: products of products, and results of contractions used further.
func chains(c *Ctx, dt string) {
	put := func(tag string, p *Prog, op *Op, args ...int) *Prog {
		var in []*RT
		for _, a := range args {
			in = append(in, p.Vals[a])
		}
		r, err := op.Ref(in)
		if err != nil {
			return nil
		}
		q := p.clone()
		q.Instrs = append(q.Instrs, Instr{op, args})
		q.Vals = append(q.Vals, r)
		name := func(p *Prog, what string) func() string {
			return func() string { return fmt.Sprintf("%s|%s|%s", tag, p.String(), what) }
		}
		c.Case(name(q, "tape"), func(t *T) { tapeCase(t, q, 0) })
		c.Case(name(q, "lisp"), func(t *T) { lispCase(t, q, false, 0) })
		suiteGrad(c, q, name)
		return q
	}
	shapes := [][][]int{{{2, 3}, {3, 2}, {2}}, {{2, 2}, {2, 2}, {2, 2}}, {{3}, {3, 2}, {2, 1}}, {{1, 3}, {3, 1}, {1}}, {{2, 3, 2}, {2, 2, 2}, {3, 2}}, {{2}, {2}, {2, 2}}}
	for _, s := range shapes {
		var in []*RT
		for i, x := range s {
			in = append(in, genRT(dt, 1, i+1, x...))
		}
		var l []*Op
		l = append(l, opMul(), opOuter(), opBatchedMatMul(false, false), opBatchedMatMul(true, false), opBatchedMatMul(false, true),
			opContract([]int{0}, []int{0}), opContract([]int{1}, []int{0}), opContract([]int{0}, []int{1}), opContract([]int{1}, []int{1}), opContract([]int{0, 1}, []int{1, 0}))
		p := &Prog{DT: dt, NIn: 3, Vals: in}
		for _, o1 := range l {
			for a := 0; a < 3; a++ {
				for b := 0; b < 3; b++ {
					q := put("chain1", p, o1, a, b)
					if q == nil {
						continue
					}
					// a completely contracted result is not accepted as the
					// scalar it is announced as: one instance is kept
					scalar := q.Vals[3].isScalar() && o1.Name != "Mul"
					if scalar {
						if o1.Name == "Contract([0],[0])" && a == 2 && b == 2 && s[0][0] == 2 && s[0][1] == 3 && dt == "f64" {
							put("chainscalar", q, opMul(), 3, 0)
						}
						continue
					}
					for _, o2 := range append(append([]*Op{}, l...), uops("Square", "Tanh")...) {
						if o2.N == 1 {
							put("chain2", q, o2, 3)
							continue
						}
						for d := 0; d < 4; d++ {
							put("chain2", q, o2, 3, d)
							if d < 3 {
								put("chain2", q, o2, d, 3)
							}
						}
					}
				}
			}
		}
	}
}
