package main

// suite: the executions every single operation goes through.

import (
	"fmt"
	"strings"

	G "gorgonia.org/gorgonia"
)

// single makes the program that applies op to inputs of the given shapes.
func single(op *Op, ins []*RT) (*Prog, error) {
	p := &Prog{DT: ins[0].DT, NIn: len(ins), Vals: append([]*RT{}, ins...)}
	args := make([]int, op.N)
	in := make([]*RT, op.N)
	for i := range args {
		args[i] = i % len(ins)
		in[i] = ins[args[i]]
	}
	r, err := op.Ref(in)
	if err != nil {
		return nil, err
	}
	p.Instrs = []Instr{{op, args}}
	p.Vals = append(p.Vals, r)
	return p, nil
}

// viewed makes the program in which every input first goes through a
// structural operation that leaves a view or a fresh tensor: 1 transposition,
// 2 slice off the last column, 3 reshape, 4 negation twice removed (x*1).
func viewed(op *Op, ins []*RT, form int) (*Prog, error) {
	p := &Prog{DT: ins[0].DT, NIn: len(ins)}
	var mid []*RT
	for i, t := range ins {
		src, pre, err := viewSource(t, form)
		if err != nil {
			return nil, err
		}
		p.Vals = append(p.Vals, src)
		p.Instrs = append(p.Instrs, Instr{pre, []int{i}})
		r, err := pre.Ref([]*RT{src})
		if err != nil {
			return nil, err
		}
		mid = append(mid, r)
	}
	p.Vals = append(p.Vals, mid...)
	args := make([]int, op.N)
	in := make([]*RT, op.N)
	for i := range args {
		args[i] = len(ins) + i%len(ins)
		in[i] = mid[i%len(ins)]
	}
	r, err := op.Ref(in)
	if err != nil {
		return nil, err
	}
	p.Instrs = append(p.Instrs, Instr{op, args})
	p.Vals = append(p.Vals, r)
	return p, nil
}

func viewSource(t *RT, form int) (*RT, *Op, error) {
	nd := len(t.Shape)
	switch form {
	case 1:
		if nd < 2 {
			return nil, nil, errNA
		}
		perm := make([]int, nd)
		for i := range perm {
			perm[i] = nd - 1 - i
		}
		return transposeRT(t, perm), opTranspose(perm...), nil
	case 2:
		if nd < 1 {
			return nil, nil, errNA
		}
		sh := cp(t.Shape)
		w := sh[nd-1]
		if w < 2 {
			return nil, nil, errNA
		}
		sh[nd-1]++
		src := newRT(t.DT, sh...)
		for i := range src.D {
			src.D[i] = cst(0.7)
		}
		for i := range t.D {
			src.D[i/w*(w+1)+i%w] = t.D[i]
		}
		sls := make([]*sl, nd)
		sls[nd-1] = &sl{0, w, 0}
		return src, opSlice(sls...), nil
	case 3:
		if nd < 2 {
			return nil, nil, errNA
		}
		r, _ := reshapeRT(t, []int{len(t.D)})
		return r, opReshape(t.Shape...), nil
	}
	return t, uops("Neg")[0], nil
}

// suite registers the executions of one operation on operands of one kind.
// parts: f forward on both machines, r repeated runs, g gradients, v operands
// that are views.
func suite(c *Ctx, tag string, op *Op, ins []*RT, parts string) {
	p, err := single(op, ins)
	if err != nil {
		return
	}
	name := func(p *Prog, what string) func() string {
		return func() string { return fmt.Sprintf("%s|%s|%s", tag, p.String(), what) }
	}
	has := func(x string) bool { return strings.Contains(parts, x) }
	if has("f") {
		c.Case(name(p, "tape"), func(t *T) { tapeCase(t, p, 0) })
		c.Case(name(p, "taperead"), func(t *T) { tapeCase(t, p, 1) })
		c.Case(name(p, "lisp"), func(t *T) { lispCase(t, p, false, 1) })
		c.Case(name(p, "announced"), func(t *T) { announced(t, p) })
	}
	if has("r") {
		for _, kind := range []int{kTape, kLispFwd} {
			kind := kind
			c.Case(name(p, "rerun-"+kindName[kind]), func(t *T) {
				histCase(t, p, kind, false, []int{evRun, evReset, evLet + 1, evRun, evReset, evLet, evRun})
			})
		}
	}
	if has("g") {
		suiteGrad(c, p, name)
	}
	if has("v") {
		for form := 1; form <= 4; form++ {
			q, err := viewed(op, ins, form)
			if err != nil {
				continue
			}
			c.Case(name(q, "tape"), func(t *T) { tapeCase(t, q, 0) })
			c.Case(name(q, "lisp"), func(t *T) { lispCase(t, q, false, 0) })
			if has("g") {
				suiteGrad(c, q, name)
			}
		}
	}
}

func suiteGrad(c *Ctx, p *Prog, name func(*Prog, string) func() string) {
	if p.diffable(false) {
		c.Case(name(p, "grad"), func(t *T) { symGradCase(t, p, 1<<p.NIn-1) })
		if p.NIn > 1 {
			for i := 0; i < p.NIn; i++ {
				i := i
				c.Case(name(p, fmt.Sprintf("grad%d", i)), func(t *T) { symGradCase(t, p, 1<<i) })
			}
		}
		c.Case(name(p, "rerun-tapegrad"), func(t *T) {
			histCase(t, p, kTapeGrad, false, []int{evRun, evClear, evReset, evLet + 1, evRun})
		})
	}
	if p.diffable(true) && !orphans(p) {
		c.Case(name(p, "ad"), func(t *T) { adGradCase(t, p) })
		c.Case(name(p, "rerun-lisp"), func(t *T) {
			histCase(t, p, kLisp, false, []int{evRun, evClear, evReset, evLet + 1, evRun})
		})
	}
}

// announced compares what every node says about itself before the run with
// the value it has afterwards.
func announced(t *T, p *Prog) {
	g := G.NewGraph()
	nodes, err := p.build(g)
	if err != nil {
		t.Failf("build: %v", err)
	}
	for i, n := range nodes {
		want := p.Vals[i]
		if !sameShape(n.Shape(), want.Shape) {
			t.Failf("value %d announces shape %v, want %v", i, n.Shape(), want.Shape)
		}
		if d := dtName(n.Dtype()); d != want.DT {
			t.Failf("value %d announces element type %s, want %s", i, d, want.DT)
		}
		if n.Dims() != len(want.Shape) {
			t.Failf("value %d announces %d dimensions, want %v", i, n.Dims(), want.Shape)
		}
	}
	t.Trans(1)
}
