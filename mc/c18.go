package main

// C18: compiling a chosen part of a graph.

import (
	"fmt"

	G "gorgonia.org/gorgonia"
)

func init() {
	register(&Check{ID: "C18", Run: runC18, Procs: 2,
		Rule: "A case is a program, a choice of values as outputs, what else is in the graph (statements, gradients), a way of compiling the part and a number of runs. states: (program, outputs, way); transitions: runs of compiled parts; traces: runs whose outputs were compared with the reference for the whole program."})
}

const (
	partRoots   = iota // machine for SubgraphRoots
	partExact          // machine for ExactSubgraphRoots
	partLisp           // lisp machine for ExactSubgraphRoots
	partFunc           // CompileFunction
	partProg           // Compile of the sub-graph, two machines
	partFuncTwo        // CompileFunction, two machines
	nParts
)

var partName = []string{"roots", "exact", "lisp", "func", "prog", "functwo"}

func partCase(t *T, p *Prog, outs []int, way, extra int) {
	g := G.NewGraph()
	nodes, err := p.build(g)
	if err != nil {
		t.Failf("build: %v", err)
	}
	var sink [8]G.Value
	switch extra {
	case 1: // statements on everything
		for i := p.NIn; i < len(nodes); i++ {
			G.Read(nodes[i], &sink[i])
		}
	case 2: // gradients of the last value
		cost, err := p.buildCost(g, nodes)
		if err != nil {
			t.Failf("cost: %v", err)
		}
		var xs G.Nodes
		for i, u := range p.reach(len(p.Vals) - 1)[:p.NIn] {
			if u {
				xs = append(xs, nodes[i])
			}
		}
		if _, err := G.Grad(cost, xs...); err != nil {
			t.Count("refused", 1)
			return
		}
	case 3: // an unrelated expression whose input has no value
		z := G.NewMatrix(g, G.Float64, G.WithShape(2, 2), G.WithName("unbound"))
		G.Must(G.Tanh(G.Must(G.Add(z, nodes[0]))))
	}
	var on, in G.Nodes
	need := make([]bool, len(nodes))
	for _, o := range outs {
		on = append(on, nodes[o])
		for i, u := range p.reach(o) {
			need[i] = need[i] || u
		}
	}
	for i := 0; i < p.NIn; i++ {
		if need[i] && (p.Const == nil || !p.Const[i]) {
			in = append(in, nodes[i])
		}
	}
	if len(in) == 0 {
		return
	}
	var ms []G.VM
	switch way {
	case partRoots:
		ms = append(ms, G.NewTapeMachine(g.SubgraphRoots(on...)))
	case partExact:
		ms = append(ms, G.NewTapeMachine(g.ExactSubgraphRoots(on...)))
	case partLisp:
		ms = append(ms, G.NewLispMachine(g.ExactSubgraphRoots(on...), G.ExecuteFwdOnly()))
	case partFunc, partFuncTwo:
		prog, loc, err := G.CompileFunction(g, in, on)
		if err != nil {
			t.Failf("CompileFunction: %v", err)
		}
		for k := 0; k == 0 || k == 1 && way == partFuncTwo; k++ {
			ms = append(ms, G.NewTapeMachine(g, G.WithPrecompiled(prog, loc)))
		}
	case partProg:
		sg := g.ExactSubgraphRoots(on...)
		prog, loc, err := G.Compile(sg)
		if err != nil {
			t.Failf("Compile: %v", err)
		}
		ms = append(ms, G.NewTapeMachine(sg, G.WithPrecompiled(prog, loc)), G.NewTapeMachine(sg, G.WithPrecompiled(prog, loc)))
	}
	defer func() {
		for _, m := range ms {
			closeVM(m)
		}
	}()
	t.State(p.String(), fmt.Sprint(outs), way, extra)
	for r := 0; r < 4; r++ {
		m := ms[r%len(ms)]
		ins := make([]*RT, p.NIn)
		for i := range ins {
			ins[i] = p.Vals[i]
			if r%2 == 1 && (p.Const == nil || !p.Const[i]) {
				ins[i] = genRT(p.Vals[i].DT, 2, 31+i, p.Vals[i].Shape...)
			}
			if p.Const == nil || !p.Const[i] {
				if err := G.Let(nodes[i], goVal(ins[i])); err != nil {
					t.Failf("binding: %v", err)
				}
			}
		}
		vals, err := p.eval(ins)
		if err != nil {
			return
		}
		if r >= len(ms) {
			m.Reset()
		}
		t.Trans(1)
		if err := m.RunAll(); err != nil {
			t.Failf("run %d: %v", r, err)
		}
		scale := (&Prog{Vals: vals}).scale()
		for _, o := range outs {
			if d := diffValue(nodes[o].Value(), vals[o], tolFor(p.DT, scale)); d != "" {
				t.Failf("run %d: output %d: %s", r, o, d)
			}
		}
		for i := 0; i < p.NIn; i++ {
			if d := diffValue(nodes[i].Value(), ins[i], 0); d != "" {
				t.Failf("run %d: input %d: %s", r, i, d)
			}
		}
		t.Trace(1)
	}
}

// gradPart compiles only the gradients of some inputs.
func gradPart(t *T, p *Prog, pick int, way int) {
	g := G.NewGraph()
	used := p.reach(len(p.Vals) - 1)
	nodes, err := p.buildFor(g, used)
	if err != nil {
		t.Failf("build: %v", err)
	}
	cost, err := p.buildCost(g, nodes)
	if err != nil {
		t.Failf("cost: %v", err)
	}
	var xs G.Nodes
	var xi []int
	for i := 0; i < p.NIn; i++ {
		if used[i] {
			xs = append(xs, nodes[i])
			xi = append(xi, i)
		}
	}
	gs, err := G.Grad(cost, xs...)
	if err != nil {
		t.Count("refused", 1)
		return
	}
	var outs G.Nodes
	for k := range gs {
		if pick>>k&1 == 1 {
			outs = append(outs, gs[k])
		}
	}
	if len(outs) == 0 || pick >= 1<<len(gs) {
		return
	}
	sub := g.ExactSubgraphRoots(outs...)
	var in G.Nodes
	for _, x := range xs {
		if sub.AllNodes().Contains(x) {
			in = append(in, x)
		}
	}
	if len(in) == 0 {
		return // gradients that do not depend on the inputs
	}
	var m G.VM
	if way == partFunc {
		prog, loc, err := G.CompileFunction(g, in, outs)
		if err != nil {
			t.Failf("CompileFunction: %v", err)
		}
		m = G.NewTapeMachine(g, G.WithPrecompiled(prog, loc))
	} else {
		m = G.NewTapeMachine(sub)
	}
	defer closeVM(m)
	t.State(p.String(), "grad", pick, way)
	for r := 0; r < 3; r++ {
		ins := make([]*RT, p.NIn)
		for i := range ins {
			ins[i] = p.Vals[i]
			if r%2 == 1 {
				ins[i] = genRT(p.Vals[i].DT, 2, 31+i, p.Vals[i].Shape...)
			}
			if nodes[i] != nil {
				if err := G.Let(nodes[i], goVal(ins[i])); err != nil {
					t.Failf("binding: %v", err)
				}
			}
		}
		vals, err := p.eval(ins)
		if err != nil {
			return
		}
		q := &Prog{DT: p.DT, NIn: p.NIn, Instrs: p.Instrs, Vals: vals}
		if r > 0 {
			m.Reset()
		}
		t.Trans(1)
		if err := m.RunAll(); err != nil {
			t.Failf("run %d: %v", r, err)
		}
		for k, i := range xi {
			if pick>>k&1 == 0 {
				continue
			}
			want, err := p.gradAt(q.plain(), i, p.weights())
			if err != nil {
				return
			}
			if d := diffValue(gs[k].Value(), want, gradTol(p.DT, q.scale())*(1+want.maxAbs())); d != "" {
				t.Failf("run %d: gradient of input %d: %s", r, i, d)
			}
		}
		t.Trace(1)
	}
}

func runC18(c *Ctx) {
	run := func(tag string, ins []*RT, consts []bool, alpha []*Op, n int, extras []int) {
		enumProgs(c, "f64", ins, consts, alpha, n, EnumOpts{Limit: 1e3, MaxElems: 16, NoDup: true}, func(p *Prog) {
			if len(p.Instrs) != n {
				return
			}
			c.Group(func() {
				for mask := 1; mask < 1<<n; mask++ {
					var outs []int
					for i := 0; i < n; i++ {
						if mask>>i&1 == 1 {
							outs = append(outs, p.NIn+i)
						}
					}
					for way := 0; way < nParts; way++ {
						for _, extra := range extras {
							if extra == 2 && !p.diffable(false) {
								continue
							}
							way, extra := way, extra
							c.Case(func() string {
								return fmt.Sprintf("%s|%s|out=%v|%s|extra%d", tag, p.String(), outs, partName[way], extra)
							},
								func(t *T) { partCase(t, p, outs, way, extra) })
						}
					}
				}
				if p.diffable(false) && p.noDead() && consts == nil {
					for pick := 1; pick < 1<<p.NIn; pick++ {
						for _, way := range []int{partExact, partFunc} {
							way, pick := way, pick
							c.Case(func() string { return fmt.Sprintf("%s|%s|grad%b|%s", tag, p.String(), pick, partName[way]) },
								func(t *T) { gradPart(t, p, pick, way) })
						}
					}
				}
			})
		})
	}
	sh := func(shapes ...[]int) (r []*RT) {
		for i, s := range shapes {
			r = append(r, genRT("f64", 1, 1+i, s...))
		}
		return r
	}
	m22 := []int{2, 2}
	wide := cat(uops("Neg", "Tanh", "Square"), bops("Add", "Sub", "Prod"), []*Op{opSum(), opSum(0), opMul(), opReshape(4), opTranspose(1, 0), opConcat(0, 2), opSlice(&sl{0, 1, 0})})
	core := cat(uops("Neg", "Exp"), bops("Add", "Sub"), []*Op{opSum()})
	all := []int{0, 1, 2, 3}
	run("one", sh(m22, m22), nil, wide, 1, all)
	run("two", sh(m22, m22), nil, wide, 2, []int{0})
	run("two", sh(m22), nil, wide, 2, all)
	run("const", sh(m22, m22), []bool{false, true}, core, 2, []int{0, 1})
	run("scalar", sh(nil, nil), nil, core, 2, []int{0})
	for _, shapes := range oneShapes {
		run("single", sh(shapes[0]), nil, oneAlpha(), 3, []int{0})
	}
	run("three", sh(m22), nil, core, 3, all)
	if c.Thorough {
		run("twox", sh(m22, m22), nil, wide, 2, all)
		run("threex", sh(m22), nil, wide, 3, []int{0, 1})
		run("four", sh(m22), nil, cat(uops("Neg"), bops("Add"), []*Op{opSum()}), 4, []int{0, 2})
	}
}
