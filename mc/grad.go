package main

import (
	"fmt"
	"math"

	G "gorgonia.org/gorgonia"
)

// Gradients. The cost of a program is its last value if that is a scalar and
// otherwise the sum of its last value weighted by a generic tensor, so that no
// two elements are interchangeable.

func (p *Prog) weights() *RT {
	last := p.Vals[len(p.Vals)-1]
	if last.isScalar() {
		return nil
	}
	return genRT(last.DT, 0, 5, last.Shape...)
}

func costDual(last, w *RT) Dual {
	if w == nil {
		return last.D[0]
	}
	s := Dual{}
	for i := range last.D {
		s = dAdd(s, dMul(last.D[i], cst(w.D[i].V)))
	}
	return s
}

// gradAt is the exact gradient of the cost with respect to value v (an input
// or an intermediate value), by forward differentiation with one pass per
// element of v.
func (p *Prog) gradAt(vals []*RT, v int, w *RT) (*RT, error) {
	r := newRT(p.DT, vals[v].Shape...)
	dep := make([]bool, len(vals))
	dep[v] = true
	for i, in := range p.Instrs {
		for _, a := range in.Args {
			dep[p.NIn+i] = dep[p.NIn+i] || dep[a]
		}
	}
	cur := append([]*RT{}, vals...)
	for e := range vals[v].D {
		x := vals[v].clone()
		x.D[e].D = 1
		cur[v] = x
		for i, in := range p.Instrs {
			if k := p.NIn + i; dep[k] && k > v {
				args := make([]*RT, len(in.Args))
				for j, a := range in.Args {
					args[j] = cur[a]
				}
				y, err := in.Op.Ref(args)
				if err != nil {
					return nil, err
				}
				cur[k] = y
			}
		}
		c := costDual(cur[len(cur)-1], w)
		if math.IsNaN(c.D) || math.IsInf(c.D, 0) || math.Abs(c.D) > 1e5 {
			return nil, errNA
		}
		r.D[e] = cst(c.D)
	}
	return r, nil
}

// plain are the values of the program without derivative parts.
func (p *Prog) plain() []*RT {
	vals := make([]*RT, len(p.Vals))
	for i, v := range p.Vals {
		c := v.clone()
		for j := range c.D {
			c.D[j].D = 0
		}
		vals[i] = c
	}
	return vals
}

// diffable reports whether the last value is a differentiable function.
func (p *Prog) diffable(ad bool) bool {
	if !isFloatDT(p.Vals[len(p.Vals)-1].DT) {
		return false
	}
	r := p.reach(len(p.Vals) - 1)
	for i, in := range p.Instrs {
		if !r[p.NIn+i] {
			continue
		}
		if in.Op.NoD || ad && in.Op.NoAD || !ad && in.Op.NoSym {
			return false
		}
	}
	return true
}

// buildCost adds the cost to the graph.
func (p *Prog) buildCost(g *G.ExprGraph, nodes []*G.Node) (*G.Node, error) {
	last := nodes[len(nodes)-1]
	w := p.weights()
	if w == nil {
		return last, nil
	}
	wn := g.AddNode(G.NewConstant(goVal(w), G.WithName("weights")))
	pr, err := G.HadamardProd(last, wn)
	if err != nil {
		return nil, err
	}
	return G.Sum(pr)
}

// gradTol allows for the conditioning of sums of products.
func gradTol(dt string, scale float64) float64 {
	if dt == "f32" {
		return 2e-3 * math.Max(1, scale)
	}
	return 1e-7 * math.Max(1, scale)
}

// useOnly lists programs in which the last value depends on every instruction
// (no dead code: gradients of dead code are trivially absent).
func (p *Prog) noDead() bool {
	for _, b := range p.reach(len(p.Vals) - 1)[p.NIn:] {
		if !b {
			return false
		}
	}
	return true
}

// wants computes the reference gradients of the cost by the values in wrt that
// the cost depends on.
func (p *Prog) wants(wrt []int, w *RT) (idx []int, want []*RT, err error) {
	reach := p.reach(len(p.Vals) - 1)
	vals := p.plain()
	for _, i := range wrt {
		if !reach[i] || !isFloatDT(vals[i].DT) {
			continue
		}
		gr, err := p.gradAt(vals, i, w)
		if err != nil {
			return nil, nil, err
		}
		idx, want = append(idx, i), append(want, gr)
	}
	return
}

func distinct(nodes []*G.Node) bool {
	seen := map[*G.Node]bool{}
	for _, n := range nodes {
		if seen[n] {
			return false
		}
		seen[n] = true
	}
	return true
}

// symGradCase differentiates symbolically and runs on the compiling machine.
// Bit i of mask asks for the derivative by value i.
func symGradCase(t *T, p *Prog, mask int) {
	w := p.weights()
	var wrt []int
	for i := range p.Vals {
		if mask>>i&1 == 1 {
			wrt = append(wrt, i)
		}
	}
	wrt, want, err := p.wants(wrt, w)
	if err != nil || len(wrt) == 0 {
		t.Count("outside_domain", 1)
		return
	}
	g := G.NewGraph()
	nodes, err := p.build(g)
	if err != nil {
		t.Failf("build: %v", err)
	}
	if !distinct(nodes) && mask>>p.NIn != 0 {
		t.Count("outside_domain", 1)
		return
	}
	cost, err := p.buildCost(g, nodes)
	if err != nil {
		t.Failf("cost: %v", err)
	}
	var xs G.Nodes
	for _, i := range wrt {
		xs = append(xs, nodes[i])
	}
	grads, err := G.Grad(cost, xs...)
	if err != nil {
		t.Failf("Grad: %v", err)
	}
	if len(grads) != len(xs) {
		t.Failf("Grad returned %d expressions for %d variables", len(grads), len(xs))
	}
	vals := make([]G.Value, len(grads))
	for i, gn := range grads {
		G.Read(gn, &vals[i])
	}
	var cv G.Value
	G.Read(cost, &cv)
	m := G.NewTapeMachine(g, G.BindDualValues(xs...))
	defer closeVM(m)
	if err := m.RunAll(); err != nil {
		t.Failf("run: %v", err)
	}
	cw := newRT(p.DT)
	cw.D[0] = costDual(p.Vals[len(p.Vals)-1], w)
	tol := gradTol(p.DT, p.scale())
	if d := diffValue(cv, cw, tol); d != "" {
		t.Failf("cost: %s", d)
	}
	for i := range wrt {
		tg := tol * math.Max(1, want[i].maxAbs())
		if d := diffValue(vals[i], want[i], tg); d != "" {
			t.Failf("gradient by value %d: %s", wrt[i], d)
		}
		if wrt[i] >= p.NIn {
			continue
		}
		gv, err := xs[i].Grad()
		if err != nil {
			t.Failf("Grad() of value %d: %v", wrt[i], err)
		}
		if d := diffValue(gv, want[i], tg); d != "" {
			t.Failf("bound gradient of value %d: %s", wrt[i], d)
		}
		t.State(want[i])
	}
	t.Trans(len(p.Instrs))
	t.Trace(1)
}

// vjpCase asks Backpropagate for the derivatives of several outputs at once,
// each multiplied by a given tensor of its own shape. outs and wrt are sets of
// values.
func vjpCase(t *T, p *Prog, outs, wrt int) {
	reach := make([]bool, len(p.Vals))
	var os []int
	for v := range p.Vals {
		if outs>>v&1 == 1 {
			os = append(os, v)
			for i, b := range p.reach(v) {
				reach[i] = reach[i] || b
			}
		}
	}
	for i, in := range p.Instrs {
		if reach[p.NIn+i] && (in.Op.NoD || in.Op.NoSym) {
			t.Count("outside_domain", 1)
			return
		}
	}
	seeds := make([]*RT, len(p.Vals))
	for k, o := range os {
		if !isFloatDT(p.Vals[o].DT) {
			t.Count("outside_domain", 1)
			return
		}
		seeds[o] = genRT(p.DT, 0, 7+k, p.Vals[o].Shape...)
	}
	// the reference
	vals := p.plain()
	var idx []int
	var want []*RT
	for v := range vals {
		if wrt>>v&1 == 0 || !reach[v] || !isFloatDT(vals[v].DT) {
			continue
		}
		r := newRT(p.DT, vals[v].Shape...)
		for e := range r.D {
			cur := append([]*RT{}, vals...)
			cur[v] = vals[v].clone()
			cur[v].D[e].D = 1
			for i, in := range p.Instrs {
				if k := p.NIn + i; k > v {
					args := make([]*RT, len(in.Args))
					for j, a := range in.Args {
						args[j] = cur[a]
					}
					y, err := in.Op.Ref(args)
					if err != nil {
						t.Count("outside_domain", 1)
						return
					}
					cur[k] = y
				}
			}
			sum := 0.0
			for _, o := range os {
				for i := range cur[o].D {
					sum += cur[o].D[i].D * seeds[o].D[i].V
				}
			}
			if math.IsNaN(sum) || math.IsInf(sum, 0) || math.Abs(sum) > 1e5 {
				t.Count("outside_domain", 1)
				return
			}
			r.D[e] = cst(sum)
		}
		idx, want = append(idx, v), append(want, r)
	}
	for _, o := range os {
		ok := false
		for _, v := range idx {
			ok = ok || p.reach(o)[v]
		}
		if !ok { // an output that none of the variables affects
			t.Count("outside_domain", 1)
			return
		}
	}
	g := G.NewGraph()
	nodes, err := p.build(g)
	if err != nil {
		t.Failf("build: %v", err)
	}
	if !distinct(nodes) {
		t.Count("outside_domain", 1)
		return
	}
	var on, sn, xs G.Nodes
	for _, o := range os {
		on, sn = append(on, nodes[o]), append(sn, newBoundInput(g, fmt.Sprintf("seed%d", o), seeds[o]))
	}
	for _, v := range idx {
		xs = append(xs, nodes[v])
	}
	grads, err := G.Backpropagate(on, sn, xs)
	if err != nil {
		t.Failf("Backpropagate: %v", err)
	}
	if len(grads) != len(xs) {
		t.Failf("Backpropagate returned %d expressions for %d variables", len(grads), len(xs))
	}
	got := make([]G.Value, len(grads))
	for i, n := range grads {
		G.Read(n, &got[i])
	}
	m := G.NewTapeMachine(g)
	defer closeVM(m)
	if err := m.RunAll(); err != nil {
		t.Failf("run: %v", err)
	}
	tol := gradTol(p.DT, p.scale())
	for i, v := range idx {
		if d := diffValue(got[i], want[i], tol*math.Max(1, want[i].maxAbs())); d != "" {
			t.Failf("derivative by value %d: %s", v, d)
		}
		t.State(want[i])
	}
	t.Trans(len(p.Instrs))
	t.Trace(1)
}

// secondCase differentiates the weighted sum of the gradients again and
// compares with central differences of the reference gradient (f64 only).
// With ad the interpreting machine differentiates the second time, in the
// subgraph of that sum.
func secondCase(t *T, p *Prog, ad bool) {
	w := p.weights()
	reach := p.reach(len(p.Vals) - 1)
	var wrt []int
	for i := 0; i < p.NIn; i++ {
		if reach[i] {
			wrt = append(wrt, i)
		}
	}
	first := func(ins []*RT) (float64, error) {
		vals, err := p.eval(ins)
		if err != nil {
			return 0, err
		}
		s := 0.0
		for k, i := range wrt {
			gr, err := p.gradAt(vals, i, w)
			if err != nil {
				return 0, err
			}
			w2 := genRT(p.DT, 2, 9+k, gr.Shape...)
			for e := range gr.D {
				s += gr.D[e].V * w2.D[e].V
			}
		}
		return s, nil
	}
	const h = 1e-4
	var want []*RT
	ins := append([]*RT{}, p.Vals[:p.NIn]...)
	big := 1.0
	for _, i := range wrt {
		r := newRT(p.DT, ins[i].Shape...)
		orig := ins[i]
		for e := range orig.D {
			at := func(d float64) float64 {
				x := orig.clone()
				x.D[e].V += d
				ins[i] = x
				v, err2 := first(ins)
				if err2 != nil {
					return nan
				}
				big = math.Max(big, math.Abs(v))
				return v
			}
			d1 := (at(h) - at(-h)) / (2 * h)
			d2 := (at(2*h) - at(-2*h)) / (4 * h)
			r.D[e] = cst((4*d1 - d2) / 3)
			if v := r.D[e].V; math.IsNaN(v) || math.Abs(v) > 1e4 || math.Abs(d1-d2) > 1e-2*math.Max(1, math.Abs(v)) {
				t.Count("outside_domain", 1)
				return
			}
		}
		ins[i] = orig
		want = append(want, r)
	}
	g := G.NewGraph()
	nodes, err := p.build(g)
	if err != nil {
		t.Failf("build: %v", err)
	}
	cost, err := p.buildCost(g, nodes)
	if err != nil {
		t.Failf("cost: %v", err)
	}
	var xs G.Nodes
	for _, i := range wrt {
		xs = append(xs, nodes[i])
	}
	grads, err := G.Grad(cost, xs...)
	if err != nil {
		t.Failf("Grad: %v", err)
	}
	var sum *G.Node
	for k, gn := range grads {
		w2 := genRT(p.DT, 2, 9+k, want[k].Shape...)
		wn := g.AddNode(G.NewConstant(goVal(w2), G.WithName(fmt.Sprintf("w2%d", k))))
		pr, err := G.HadamardProd(gn, wn)
		if err != nil {
			t.Failf("second cost: %v", err)
		}
		if pr.Dims() > 0 {
			if pr, err = G.Sum(pr); err != nil {
				t.Failf("second cost: %v", err)
			}
		}
		if sum == nil {
			sum = pr
		} else if sum, err = G.Add(sum, pr); err != nil {
			t.Failf("second cost: %v", err)
		}
	}
	if ad {
		sub := g.SubgraphRoots(sum)
		in := map[*G.Node]bool{}
		for _, n := range sub.AllNodes() {
			in[n] = true
		}
		m := G.NewLispMachine(sub)
		defer closeVM(m)
		if err := m.RunAll(); err != nil {
			t.Count("refused", 1)
			return
		}
		for k, i := range wrt {
			if !in[nodes[i]] {
				continue // the first gradient does not depend on it
			}
			d, err := nodes[i].Grad()
			if err != nil {
				t.Failf("gradient of value %d: %v", i, err)
			}
			if m := diffValue(d, want[k], 1e-5*math.Max(big, want[k].maxAbs())); m != "" {
				t.Failf("second derivative by value %d: %s", i, m)
			}
			t.State(want[k])
		}
		t.Trans(2 * len(p.Instrs))
		t.Trace(1)
		t.Count("second_order", 1)
		return
	}
	g2, err := G.Grad(sum, xs...)
	if err != nil {
		// the gradient may not depend on a variable at all, or go through an
		// operation that is not differentiable twice: refused, not wrong
		t.Count("refused", 1)
		return
	}
	vals := make([]G.Value, len(g2))
	for i, gn := range g2 {
		G.Read(gn, &vals[i])
	}
	m := G.NewTapeMachine(g)
	defer closeVM(m)
	if err := m.RunAll(); err != nil {
		t.Failf("run: %v", err)
	}
	for i := range wrt {
		if d := diffValue(vals[i], want[i], 1e-5*math.Max(big, want[i].maxAbs())); d != "" {
			t.Failf("second derivative by value %d: %s", wrt[i], d)
		}
		t.State(want[i])
	}
	t.Trans(2 * len(p.Instrs))
	t.Trace(1)
	t.Count("second_order", 1)
}

// adGradCase runs the interpreting machine, which differentiates while it
// runs. With sym it also differentiates symbolically.
func adGradCase(t *T, p *Prog) {
	w := p.weights()
	all := make([]int, len(p.Vals))
	for i := range all {
		all[i] = i
	}
	wrt, want, err := p.wants(all, w)
	if err != nil {
		t.Count("outside_domain", 1)
		return
	}
	g := G.NewGraph()
	nodes, err := p.buildFor(g, p.reach(len(p.Vals)-1))
	if err != nil {
		t.Failf("build: %v", err)
	}
	cost, err := p.buildCost(g, nodes)
	if err != nil {
		t.Failf("cost: %v", err)
	}
	m := G.NewLispMachine(g)
	defer closeVM(m)
	if err := m.RunAll(); err != nil {
		t.Failf("run: %v", err)
	}
	cw := newRT(p.DT)
	cw.D[0] = costDual(p.Vals[len(p.Vals)-1], w)
	tol := gradTol(p.DT, p.scale())
	if d := diffValue(cost.Value(), cw, tol); d != "" {
		t.Failf("cost: %s", d)
	}
	for i, k := range wrt {
		if k >= p.NIn || p.Const != nil && p.Const[k] {
			continue
		}
		tg := tol * math.Max(1, want[i].maxAbs())
		gv, err := nodes[k].Grad()
		if err != nil {
			t.Failf("Grad() of value %d: %v", k, err)
		}
		if d := diffValue(gv, want[i], tg); d != "" {
			t.Failf("gradient of value %d: %s", k, d)
		}
		t.State(want[i])
	}
	t.Trans(len(p.Instrs))
	t.Trace(1)
}
