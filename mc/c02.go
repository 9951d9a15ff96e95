package main

import (
	"fmt"
	"math"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
)

func init() {
	register(&Check{ID: "C02", Run: runC02, Procs: 1,
		Rule: "states: distinct reference values; transitions: instructions executed; traces: runs after which every caller-owned memory was compared bit by bit"})
	register(&Check{ID: "C03", Run: runC03, Procs: 1,
		Rule: "states: distinct reference values; transitions: instructions executed; traces: interpreted runs in which every node was compared"})
}

// owned is memory the caller handed to the library.
type owned struct {
	val    interface{} // what is bound
	f64    []float64
	f32    []float32
	was64  []uint64
	was32  []uint32
	sc     G.Value
	wasSc  uint64
	shape  []int
	stride []int
}

// own makes a caller-owned value. form 0: contiguous; 1: a slice of a larger
// tensor; 2: a lazily transposed tensor.
func own(t *RT, form int) *owned {
	o := &owned{}
	if t.isScalar() {
		if t.DT == "f64" {
			o.sc = G.NewF64(t.D[0].V)
		} else {
			o.sc = G.NewF32(float32(t.D[0].V))
		}
		o.val = o.sc
		o.freeze()
		return o
	}
	shape := append([]int{}, t.Shape...)
	src := t
	switch {
	case form == 1:
		// one more column on the right of the last axis
		shape[len(shape)-1]++
		src = newRT(t.DT, shape...)
		for i := range src.D {
			src.D[i] = cst(100 + float64(i))
		}
		w := t.Shape[len(t.Shape)-1]
		for i := range t.D {
			src.D[i/w*(w+1)+i%w] = t.D[i]
		}
	case form == 2:
		perm := make([]int, len(shape))
		for i := range perm {
			perm[i] = len(shape) - 1 - i
		}
		src = transposeRT(t, perm)
		shape = src.Shape
	}
	b := backing(src)
	switch x := b.(type) {
	case []float64:
		o.f64 = x
	case []float32:
		o.f32 = x
	}
	d := tensor.New(tensor.WithShape(shape...), tensor.WithBacking(b))
	o.val = d
	switch form {
	case 1:
		sls := make([]tensor.Slice, len(shape))
		w := t.Shape[len(t.Shape)-1]
		sls[len(sls)-1] = G.S(0, w)
		v, err := d.Slice(sls...)
		if err != nil {
			return nil
		}
		o.val = v
	case 2:
		if err := d.T(); err != nil {
			return nil
		}
	}
	tt := o.val.(tensor.Tensor)
	if !sameShape(tt.Shape(), t.Shape) {
		return nil
	}
	o.shape = append([]int{}, tt.Shape()...)
	o.stride = append([]int{}, tt.Strides()...)
	o.freeze()
	return o
}

func (o *owned) freeze() {
	for _, x := range o.f64 {
		o.was64 = append(o.was64, math.Float64bits(x))
	}
	for _, x := range o.f32 {
		o.was32 = append(o.was32, math.Float32bits(x))
	}
	if o.sc != nil {
		f, _ := scalarFloat(o.sc.Data())
		o.wasSc = math.Float64bits(f)
	}
}

func (o *owned) changed() string {
	for i, x := range o.f64 {
		if math.Float64bits(x) != o.was64[i] {
			return fmt.Sprintf("element %d of the caller's memory changed from %v to %v", i, math.Float64frombits(o.was64[i]), x)
		}
	}
	for i, x := range o.f32 {
		if math.Float32bits(x) != o.was32[i] {
			return fmt.Sprintf("element %d of the caller's memory changed from %v to %v", i, math.Float32frombits(o.was32[i]), x)
		}
	}
	if o.sc != nil {
		f, _ := scalarFloat(o.sc.Data())
		if math.Float64bits(f) != o.wasSc {
			return fmt.Sprintf("the caller's scalar changed from %v to %v", math.Float64frombits(o.wasSc), f)
		}
	}
	if t, ok := o.val.(tensor.Tensor); ok {
		if !sameShape(t.Shape(), o.shape) || !sameShape(t.Strides(), o.stride) {
			return fmt.Sprintf("the caller's tensor changed its layout from %v/%v to %v/%v", o.shape, o.stride, t.Shape(), t.Strides())
		}
	}
	return ""
}

const (
	kTape = iota
	kTapeGrad
	kLispFwd
	kLisp
)

var kindName = []string{"tape", "tapegrad", "lispfwd", "lisp"}

// ownedCase builds p over caller-owned memory, runs it on one kind of machine
// several times and compares the memory after every step.
func ownedCase(t *T, p *Prog, kind, form, runs int) {
	own1 := make([]*owned, p.NIn)
	reach := p.reach(len(p.Vals) - 1)
	g := G.NewGraph()
	var nodes []*G.Node
	for i := 0; i < p.NIn; i++ {
		if kind >= kTapeGrad && !reach[i] {
			nodes = append(nodes, nil)
			continue
		}
		if own1[i] = own(p.Vals[i], form); own1[i] == nil {
			t.Count("outside_domain", 1)
			return
		}
		if p.Const != nil && p.Const[i] {
			nodes = append(nodes, g.AddNode(G.NewConstant(own1[i].val, G.WithName("k"+inNames[i]))))
		} else {
			nodes = append(nodes, newInput(g, inNames[i], p.Vals[i], G.WithValue(own1[i].val)))
		}
	}
	check := func(when string) {
		for i, o := range own1 {
			if o != nil {
				if d := o.changed(); d != "" {
					t.Failf("%s: input %d: %s", when, i, d)
				}
			}
		}
	}
	for i, in := range p.Instrs {
		args := make([]*G.Node, len(in.Args))
		for j, a := range in.Args {
			if nodes[a] == nil {
				t.Count("outside_domain", 1)
				return
			}
			args[j] = nodes[a]
		}
		n, err := in.Op.Build(args)
		if err != nil {
			if form != 0 {
				t.Count("refused", 1)
				check("refused")
				return
			}
			t.Failf("build: instruction %d: %v", i, err)
		}
		nodes = append(nodes, n)
	}
	check("built")
	reads := make([]G.Value, len(nodes))
	var m G.VM
	var xs G.Nodes
	switch kind {
	case kTapeGrad, kLisp:
		cost, err := p.buildCost(g, nodes)
		if err != nil {
			t.Failf("cost: %v", err)
		}
		if kind == kTapeGrad {
			for i := 0; i < p.NIn; i++ {
				if nodes[i] != nil && (p.Const == nil || !p.Const[i]) && isFloatDT(p.Vals[i].DT) {
					xs = append(xs, nodes[i])
				}
			}
			if len(xs) == 0 {
				t.Count("outside_domain", 1)
				return
			}
			if _, err := G.Grad(cost, xs...); err != nil {
				t.Count("refused", 1)
				check("refused")
				return
			}
			m = G.NewTapeMachine(g, G.BindDualValues(xs...))
		} else {
			m = G.NewLispMachine(g)
		}
	case kTape:
		for i := range p.Instrs {
			G.Read(nodes[p.NIn+i], &reads[p.NIn+i])
		}
		m = G.NewTapeMachine(g)
	default:
		for i := range p.Instrs {
			G.Read(nodes[p.NIn+i], &reads[p.NIn+i])
		}
		m = G.NewLispMachine(g, G.ExecuteFwdOnly())
	}
	defer closeVM(m)
	tol := tolFor(p.DT, p.scale())
	for r := 0; r < runs; r++ {
		err := m.RunAll()
		check(fmt.Sprintf("run %d", r+1))
		if err != nil {
			if form != 0 || kind == kTapeGrad || kind == kLisp {
				t.Count("refused", 1)
				return
			}
			t.Failf("run: %v", err)
		}
		if kind == kTape || kind == kLispFwd {
			if form == 0 {
				for i := p.NIn; i < len(nodes); i++ {
					if d := diffValue(reads[i], p.Vals[i], tol); d != "" {
						t.Failf("reading of value %d after run %d: %s", i, r+1, d)
					}
				}
			}
		}
		m.Reset()
		check(fmt.Sprintf("reset %d", r+1))
	}
	t.Trans(len(p.Instrs) * runs)
	t.Trace(runs)
	for _, v := range p.Vals[p.NIn:] {
		t.State(v)
	}
}

// rebindCase reads every node, inputs included, and runs p on one machine with
// two sets of caller-owned values in turn. Neither set may change, and the
// readings are those of the set that is bound.
func rebindCase(t *T, p *Prog, kind int) {
	ins := make([]*RT, p.NIn)
	for i := range ins {
		ins[i] = genRT(p.Vals[i].DT, 0, 7+i, p.Vals[i].Shape...)
	}
	other, err := p.eval(ins)
	if err != nil {
		t.Count("outside_domain", 1)
		return
	}
	sets := [][]*RT{p.Vals, other}
	g := G.NewGraph()
	var nodes []*G.Node
	var mem [2][]*owned
	for i := 0; i < p.NIn; i++ {
		nodes = append(nodes, newInput(g, inNames[i], p.Vals[i]))
		for k := range mem {
			mem[k] = append(mem[k], own(sets[k][i], 0))
		}
	}
	for i, in := range p.Instrs {
		args := make([]*G.Node, len(in.Args))
		for j, a := range in.Args {
			args[j] = nodes[a]
		}
		n, err := in.Op.Build(args)
		if err != nil {
			t.Failf("build: instruction %d: %v", i, err)
		}
		nodes = append(nodes, n)
	}
	reads := make([]G.Value, len(nodes))
	for i, n := range nodes {
		G.Read(n, &reads[i])
	}
	var m G.VM
	if kind == kTape {
		m = G.NewTapeMachine(g)
	} else {
		m = G.NewLispMachine(g, G.ExecuteFwdOnly())
	}
	defer closeVM(m)
	tol := tolFor(p.DT, math.Max(scaleOf(p.Vals), scaleOf(other)))
	for r, k := range []int{0, 1, 0} {
		for i := 0; i < p.NIn; i++ {
			if err := G.Let(nodes[i], mem[k][i].val); err != nil {
				t.Failf("run %d: binding input %d: %v", r+1, i, err)
			}
		}
		if err := m.RunAll(); err != nil {
			t.Failf("run %d: %v", r+1, err)
		}
		for i := range nodes {
			if d := diffValue(reads[i], sets[k][i], tol); d != "" {
				t.Failf("reading of value %d after run %d: %s", i, r+1, d)
			}
		}
		m.Reset()
		for k := range mem {
			for i, o := range mem[k] {
				if d := o.changed(); d != "" {
					t.Failf("run %d: value %d bound to input %d: %s", r+1, k+1, i, d)
				}
			}
		}
	}
	t.Trans(3 * len(p.Instrs))
	t.Trace(3)
	for _, v := range other[p.NIn:] {
		t.State(v)
	}
}

func scaleOf(vals []*RT) float64 {
	q := Prog{Vals: vals}
	return q.scale()
}

func runC02(c *Ctx) {
	run := func(tag, dt string, mode int, shapes [][]int, consts []bool, alpha []*Op, d int, forms, kinds []int) {
		var ins []*RT
		for i, s := range shapes {
			ins = append(ins, genRT(dt, mode, i, s...))
		}
		enumProgs(c, dt, ins, consts, alpha, d, EnumOpts{Skip: simplified, Limit: 1e3}, func(p *Prog) {
			for _, form := range forms {
				for _, kind := range kinds {
					if form == 2 && kind == kLisp {
						continue // slicing the derivative of a transposed input crashes in the tensor library
					}
					if kind == kTapeGrad && !(p.diffable(false) && p.noDead()) || kind == kLisp && !(p.diffable(true) && p.noDead()) {
						continue
					}
					kind, form := kind, form
					c.Case(func() string {
						return fmt.Sprintf("%s|m%d|%s|%s|form%d", tag, mode, p.String(), kindName[kind], form)
					}, func(t *T) { ownedCase(t, p, kind, form, 2) })
				}
			}
		})
	}
	rebind := func(dt string, mode int, shapes [][]int, alpha []*Op, d int) {
		var ins []*RT
		for i, s := range shapes {
			ins = append(ins, genRT(dt, mode, i, s...))
		}
		enumProgs(c, dt, ins, nil, alpha, d, EnumOpts{Skip: simplified, Limit: 1e3}, func(p *Prog) {
			for _, kind := range []int{kTape, kLispFwd} {
				kind := kind
				c.Case(func() string { return fmt.Sprintf("rebind|m%d|%s|%s", mode, p.String(), kindName[kind]) }, func(t *T) { rebindCase(t, p, kind) })
			}
		})
	}
	all := []int{kTape, kTapeGrad, kLispFwd, kLisp}
	for _, shapes := range univ {
		rebind("f64", 0, shapes, wideAlpha(), 1)
		rebind("f32", 1, shapes, wideAlpha(), 1)
		rebind("f64", 0, shapes, coreAlpha(), 2)
		for _, cfg := range []struct {
			dt   string
			mode int
		}{{"f64", 0}, {"f32", 1}} {
			run("wide", cfg.dt, cfg.mode, shapes, nil, wideAlpha(), 1, []int{0, 1, 2}, all)
			for _, k := range [][]bool{{true, false}, {false, true}} {
				run("const", cfg.dt, cfg.mode, shapes, k, wideAlpha(), 1, []int{0}, all)
			}
		}
		run("wide", "f64", 0, shapes, nil, wideAlpha(), 2, []int{0}, []int{kTape, kTapeGrad, kLisp})
		run("const", "f32", 0, shapes, []bool{false, true}, wideAlpha(), 2, []int{0}, []int{kTapeGrad})
	}
	run("core", "f64", 0, [][]int{{2, 2}}, nil, coreAlpha(), 3, []int{0}, all)
	for _, shapes := range oneShapes {
		run("one", "f64", 0, shapes, nil, oneAlpha(), 3, []int{0}, all)
		run("one", "f32", 0, shapes, nil, oneAlpha(), 2, []int{0}, all)
	}
	run("core", "f64", 0, [][]int{{2, 2}, {2, 2}}, []bool{true, false}, cat(uops("Neg", "Tanh"), bops("Add", "Sub", "Prod"), []*Op{opMul(), opReshape(4), opTranspose(1, 0)}), 3, []int{0}, []int{kTape, kTapeGrad})
	if c.Thorough {
		for _, shapes := range univ {
			run("wide", "f64", 1, shapes, nil, wideAlpha(), 2, []int{0, 1, 2}, all)
			run("const", "f64", 0, shapes, []bool{true, false}, wideAlpha(), 2, []int{0}, all)
		}
		run("core4", "f64", 0, [][]int{{2, 2}}, nil, coreAlpha(), 4, []int{0}, []int{kTape, kTapeGrad})
		run("core", "f32", 0, [][]int{{2, 2}, {2, 2}}, []bool{false, true}, coreAlpha(), 3, []int{0}, all)
	}
}

var univ = [][][]int{{{}, {}}, {{2, 2}, {2, 2}}, {{2, 3}, {3}}, {{2, 3}, {3, 2}}, {{2, 3}, {}}, {{4}, {4}}, {{2, 3, 2}, {2, 3, 2}}, {{1, 3}, {3, 1}}}

// lispCase interprets p and compares every node. Bit i of mask asks for a
// reading of the result of instruction i.
func lispCase(t *T, p *Prog, full bool, mask int) {
	g := G.NewGraph()
	var used []bool
	if full {
		used = p.reach(len(p.Vals) - 1)
	}
	nodes, err := p.buildFor(g, used)
	if err != nil {
		t.Failf("build: %v", err)
	}
	var cost *G.Node
	if full {
		if cost, err = p.buildCost(g, nodes); err != nil {
			t.Failf("cost: %v", err)
		}
	}
	reads := make([]G.Value, len(nodes))
	for i := range p.Instrs {
		if mask>>i&1 == 1 {
			G.Read(nodes[p.NIn+i], &reads[p.NIn+i])
		}
	}
	var m G.VM
	if full {
		m = G.NewLispMachine(g)
	} else {
		m = G.NewLispMachine(g, G.ExecuteFwdOnly())
	}
	defer closeVM(m)
	if err := m.RunAll(); err != nil {
		t.Failf("run: %v", err)
	}
	tol := tolFor(p.DT, p.scale())
	for i, n := range nodes {
		if n == nil {
			continue
		}
		if d := diffValue(n.Value(), p.Vals[i], tol); d != "" {
			t.Failf("value %d: %s", i, d)
		}
		if i >= p.NIn && mask>>(i-p.NIn)&1 == 1 {
			if d := diffValue(reads[i], p.Vals[i], tol); d != "" {
				t.Failf("reading of value %d: %s", i, d)
			}
		}
	}
	if full {
		cw := newRT(p.DT)
		cw.D[0] = costDual(p.Vals[len(p.Vals)-1], p.weights())
		if d := diffValue(cost.Value(), cw, 10*tol); d != "" {
			t.Failf("cost: %s", d)
		}
	}
	t.Trans(len(p.Instrs))
	t.Trace(1)
	for _, v := range p.Vals[p.NIn:] {
		t.State(v)
	}
}

func runC03(c *Ctx) {
	run := func(tag, dt string, mode int, shapes [][]int, consts []bool, alpha []*Op, d int, masks []int) {
		var ins []*RT
		for i, s := range shapes {
			ins = append(ins, genRT(dt, mode, i, s...))
		}
		enumProgs(c, dt, ins, consts, alpha, d, EnumOpts{Skip: skipLogSoftmax, Limit: 1e3}, func(p *Prog) {
			for _, mask := range masks {
				c.Case(func() string { return fmt.Sprintf("%s|m%d|%s|fwd|read=%b", tag, mode, p.String(), mask) }, func(t *T) { lispCase(t, p, false, mask) })
			}
			if !p.diffable(true) || !p.noDead() || orphans(p) {
				return
			}
			mask := masks[len(masks)-1]
			c.Case(func() string { return fmt.Sprintf("%s|m%d|%s|full|read=%b", tag, mode, p.String(), mask) }, func(t *T) { lispCase(t, p, true, mask) })
		})
	}
	for _, shapes := range univ {
		for _, dt := range []string{"f64", "f32"} {
			for mode := 0; mode < 2; mode++ {
				run("wide", dt, mode, shapes, nil, wideAlpha(), 1, []int{0, 1})
			}
		}
		for _, k := range [][]bool{{true, false}, {false, true}} {
			run("const", "f64", 0, shapes, k, append(cat(uops("Neg", "Exp"), bops("Add", "Sub", "Prod", "Div", "Gt", "Ltb")), opSum(0), opTranspose(), opReshape(6), opReshape(12), opMul()), 2, []int{0, 3})
		}
		run("wide", "f64", 0, shapes, nil, wideAlpha(), 2, []int{0})
		run("wide", "f32", 1, shapes, nil, wideAlpha(), 2, []int{3})
	}
	run("core", "f64", 0, [][]int{{2, 2}}, nil, coreAlpha(), 3, []int{0, 7})
	run("core", "f64", 1, [][]int{{2, 2}, {}}, nil, cat(uops("Neg", "Cube"), bops("Add", "Sub", "Prod", "Gt")), 3, []int{0})
	for _, shapes := range oneShapes {
		run("one", "f64", 0, shapes, nil, oneAlpha(), 3, []int{0, 7})
		run("one", "f32", 0, shapes, nil, oneAlpha(), 3, []int{0})
	}
	run("small", "f64", 0, [][]int{{2, 2}}, nil, append(cat(uops("Neg"), bops("Add", "Sub")), opReshape(4)), 4, []int{0})
	if c.Thorough {
		for _, shapes := range univ {
			run("wide", "f64", 1, shapes, nil, wideAlpha(), 2, []int{0, 3})
			run("wide", "f32", 0, shapes, nil, wideAlpha(), 2, []int{0, 3})
		}
		for _, dt := range []string{"f64", "f32"} {
			run("core", dt, 0, [][]int{{2, 2}, {2, 2}}, []bool{false, true}, coreAlpha(), 3, []int{0, 7})
		}
		run("core4", "f64", 0, [][]int{{2, 2}}, nil, coreAlpha(), 4, []int{0})
		for _, shapes := range univ[1:4] {
			run("wide3", "f64", 0, shapes, nil, wideAlpha(), 3, []int{0})
		}
	}
}

// orphans tells whether building p leaves nodes behind that nothing uses.
func orphans(p *Prog) bool {
	q := &Prog{DT: p.DT, NIn: p.NIn, Vals: p.Vals}
	for _, in := range p.Instrs {
		if simplified(q, in.Op, in.Args) {
			return true
		}
		q.Instrs = append(q.Instrs, in)
	}
	return false
}
