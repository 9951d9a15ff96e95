package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{ID: "C04", Run: func(c *Ctx) { runGrad(c, false) }, Procs: 1,
		Rule: "states: distinct reference gradients; transitions: instructions differentiated; traces: gradient programs executed and compared"})
	register(&Check{ID: "C05", Run: func(c *Ctx) { runGrad(c, true) }, Procs: 1,
		Rule: "states: distinct reference gradients; transitions: instructions differentiated; traces: backward runs executed and compared"})
}

// simplified tells whether applying op to args is rewritten on construction in
// a way that leaves an operand without users: that operand would be a second
// cost for the interpreting machine.
func simplified(p *Prog, op *Op, args []int) bool {
	if skipLogSoftmax(p, op, args) {
		return true
	}
	for _, a := range args {
		if a < p.NIn {
			continue
		}
		in := p.Instrs[a-p.NIn].Op.Name
		switch op.Name {
		case "Neg":
			if in == "Neg" {
				return true
			}
		case "Log":
			if in == "Sigmoid" || strings.HasPrefix(in, "Add") || strings.HasPrefix(in, "Sub") {
				return true
			}
		case "Log1p":
			if in == "Exp" || in == "Neg" {
				return true
			}
		}
	}
	return false
}

func gradAlpha() []*Op {
	a := cat(uops("Neg", "Square", "Tanh", "Exp"), bops("Add", "Sub", "Prod", "Div"))
	return append(a, opSum(0), opSum(1), opTranspose(1, 0), opReshape(4), opSlice(nil, &sl{1, 2, 0}), opSlice(&sl{0, 1, 0}), opMul(), opConcat(0, 2), opConcat(1, 2), opSoftmax(0, false))
}

func runGrad(c *Ctx, ad bool) {
	skip := skipLogSoftmax
	if ad {
		skip = simplified
	}
	run := func(tag, dt string, mode int, shapes [][]int, alpha []*Op, d int, masks ...int) {
		var ins []*RT
		for i, s := range shapes {
			ins = append(ins, genRT(dt, mode, i, s...))
		}
		enumProgs(c, dt, ins, nil, alpha, d, EnumOpts{Skip: skip, Limit: 1e3}, func(p *Prog) {
			if !p.diffable(ad) || !p.noDead() {
				return
			}
			if ad {
				c.Case(func() string { return fmt.Sprintf("%s|m%d|%s", tag, mode, p.String()) }, func(t *T) { adGradCase(t, p) })
				return
			}
			for _, m := range masks {
				if m == -1 {
					m = 1<<len(p.Vals) - 1
				}
				if m>>p.NIn == 0 && m&(1<<p.NIn-1) == 0 {
					continue
				}
				m := m
				c.Case(func() string { return fmt.Sprintf("%s|m%d|%s|wrt=%b", tag, mode, p.String(), m) }, func(t *T) { symGradCase(t, p, m) })
			}
		})
	}
	second := func(tag string, mode int, shapes [][]int, alpha []*Op, d int) {
		var ins []*RT
		for i, s := range shapes {
			ins = append(ins, genRT("f64", mode, i, s...))
		}
		enumProgs(c, "f64", ins, nil, alpha, d, EnumOpts{Skip: skip, Limit: 1e3}, func(p *Prog) {
			if p.diffable(ad) && p.noDead() {
				c.Case(func() string { return fmt.Sprintf("second|%s|m%d|%s", tag, mode, p.String()) }, func(t *T) { secondCase(t, p, ad) })
			}
		})
	}

	vjp := func(tag string, shapes [][]int, alpha []*Op, d int) {
		if ad {
			return
		}
		var ins []*RT
		for i, s := range shapes {
			ins = append(ins, genRT("f64", 0, i, s...))
		}
		enumProgs(c, "f64", ins, nil, alpha, d, EnumOpts{Skip: skip, Limit: 1e3}, func(p *Prog) {
			for outs := 1; outs < 1<<len(p.Instrs); outs++ {
				if outs>>(len(p.Instrs)-1) == 0 {
					continue // that is the case of a shorter program
				}
				outs := outs << p.NIn
				for _, wrt := range []int{1<<p.NIn - 1, 1<<len(p.Vals) - 1} {
					wrt := wrt
					c.Case(func() string { return fmt.Sprintf("vjp|%s|%s|outs=%b|wrt=%b", tag, p.String(), outs, wrt) }, func(t *T) { vjpCase(t, p, outs, wrt) })
				}
			}
		})
	}
	for _, shapes := range univ {
		vjp("wide", shapes, wideAlpha(), 1)
	}
	for _, shapes := range [][][]int{{{}, {}}, {{2}, {}}, {{2, 2}}, {{2, 2}, {2}}, {{2, 3}, {3, 2}}} {
		vjp("core", shapes, gradAlpha(), 2)
	}
	vjp("core3", [][]int{{2, 2}}, cat(uops("Tanh", "Square"), bops("Add", "Sub", "Prod"), []*Op{opMul(), opSum(0)}), 3)
	if c.Thorough {
		vjp("core3", [][]int{{2, 2}}, gradAlpha(), 3)
		for _, shapes := range univ {
			vjp("wide", shapes, wideAlpha(), 2)
		}
	}

	for _, dt := range []string{"f64", "f32"} {
		for mode := 0; mode < 2; mode++ {
			for _, shapes := range univ {
				run("wide", dt, mode, shapes, wideAlpha(), 1, 1, 2, 3)
			}
		}
	}
	for _, shapes := range univ {
		run("wide", "f64", 0, shapes, wideAlpha(), 2, 3)
		run("wide", "f32", 1, shapes, wideAlpha(), 2, 3)
	}
	for _, shapes := range univ {
		second("wide", 0, shapes, wideAlpha(), 1)
		second("wide", 1, shapes, wideAlpha(), 1)
	}
	for _, shapes := range [][][]int{{{}, {}}, {{2}, {}}, {{2, 2}}} {
		second("core", 0, shapes, gradAlpha(), 2)
	}
	one := oneAlpha()
	for _, shapes := range oneShapes {
		run("one", "f64", 0, shapes, one, 3, 1)
		run("one", "f32", 0, shapes, one, 3, 1)
		second("one", 0, shapes, one, 2)
	}
	run("core", "f64", 0, [][]int{{2, 2}}, gradAlpha(), 3, 1)
	run("core", "f64", 1, [][]int{{2, 2}, {}}, cat(uops("Neg", "Square", "Tanh"), bops("Add", "Sub", "Prod", "Div"), []*Op{opSum(), opSum(0)}), 3, 1, 2, 3)
	run("small", "f64", 0, [][]int{{2, 2}}, cat(uops("Tanh"), bops("Add", "Sub", "Prod"), []*Op{opMul()}), 4, 1)
	// operands of every pair of small shapes broadcast along every set of axes
	small := [][]int{{1}, {2}, {3}, {1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}, {2, 3}, {1, 1, 1}, {1, 1, 2}, {1, 2, 1}, {2, 1, 1}, {1, 2, 2}, {2, 1, 2}, {2, 2, 1}, {2, 2, 2}, {2, 3, 2}, {1, 3, 1}}
	for _, a := range small {
		for _, b := range small {
			a, b := a, b
			c.Group(func() {
				ins := []*RT{genRT("f64", 0, 1, a...), genRT("f64", 0, 2, b...)}
				for _, n := range []string{"Add", "Sub", "Prod", "Div", "Pow"} {
					eachAxes(binDefByName(n), a, b, ins, func(op *Op) {
						p, err := single(op, ins)
						if err != nil || !p.diffable(ad) {
							return
						}
						if ad {
							c.Case(func() string { return "bc|" + p.String() }, func(t *T) { adGradCase(t, p) })
							return
						}
						for m := 1; m <= 3; m++ {
							m := m
							c.Case(func() string { return fmt.Sprintf("bc|%s|wrt=%b", p.String(), m) }, func(t *T) { symGradCase(t, p, m) })
						}
					})
				}
			})
		}
	}
	// reductions of small shapes along every set of axes, given in any order
	for _, a := range small {
		for _, dt := range []string{"f64", "f32"} {
			a, dt := a, dt
			c.Group(func() {
				ins := []*RT{genRT(dt, 0, 1, a...)}
				for _, ax := range sequences(len(a), len(a), true) {
					for _, op := range []*Op{opSum(ax...), opMean(ax...), opMax(ax...)} {
						op := op
						p, err := single(op, ins)
						if err != nil || !p.diffable(ad) {
							continue
						}
						if ad {
							c.Case(func() string { return "red|" + p.String() }, func(t *T) { adGradCase(t, p) })
							continue
						}
						c.Case(func() string { return "red|" + p.String() }, func(t *T) { symGradCase(t, p, 1) })
					}
				}
				// pieces of every extent joined
				for ax := range a {
					for _, n := range []int{2, 3} {
						p, err := single(opConcat(ax, n), []*RT{ins[0], genRT(dt, 0, 2, a...), genRT(dt, 0, 3, a...)}[:n])
						if err != nil || !p.diffable(ad) {
							continue
						}
						if ad {
							c.Case(func() string { return "join|" + p.String() }, func(t *T) { adGradCase(t, p) })
							continue
						}
						c.Case(func() string { return "join|" + p.String() }, func(t *T) { symGradCase(t, p, 1<<n-1) })
					}
				}
			})
		}
	}
	if c.Thorough {
		for _, shapes := range univ {
			run("wide", "f64", 1, shapes, wideAlpha(), 2, 1, 2, 3)
			run("wide", "f32", 0, shapes, wideAlpha(), 2, 3)
			second("wide", 0, shapes, wideAlpha(), 2)
		}
		second("core", 0, [][]int{{}, {}}, gradAlpha(), 3)
		second("core", 0, [][]int{{2, 2}}, gradAlpha(), 3)
		run("core", "f32", 0, [][]int{{2, 2}, {2, 2}}, gradAlpha(), 3, 3)
		run("core", "f64", 0, [][]int{{2, 2}, {2}}, gradAlpha(), 3, 1, 2, 3)
		run("core4", "f64", 0, [][]int{{2, 2}}, gradAlpha(), 4, 1)
		for _, shapes := range univ[1:4] {
			run("wide3", "f64", 0, shapes, wideAlpha(), 3, 3)
		}
	}
}

// eachAxes lists the operation with every pair of axis sets for which it is
// defined on the operands, and with the axes found automatically.
func eachAxes(d binDef, a, b []int, ins []*RT, visit func(op *Op)) {
	if len(a) == len(b) {
		visit(opAuto(d))
	}
	for l := 0; l < 1<<len(b); l++ {
		for r := 0; r < 1<<len(a); r++ {
			if l != 0 || r != 0 {
				op := opBroadcast(d, bits(l), bits(r))
				if _, err := op.Ref(ins); err == nil {
					visit(op)
				}
			}
		}
	}
}
