package main

import (
	"fmt"
	"strings"

	G "gorgonia.org/gorgonia"
)

func init() {
	register(&Check{ID: "C01", Run: runC01, Procs: 1,
		Rule: "after RunAll on the compiling machine every node nothing else consumes, every input and every node asked to be read holds the value of the defining expression"})
}

func cat(ls ...[]*Op) (r []*Op) {
	for _, l := range ls {
		r = append(r, l...)
	}
	return
}

var allUnary = []string{"Neg", "Square", "Exp", "Tanh", "Sigmoid", "Log", "Sqrt", "Abs", "Sign", "Ceil", "Floor", "Sin", "Cos", "Log2", "Inverse", "InverseSqrt", "Cube", "Log1p", "Expm1", "Softplus", "Mish", "Rectify", "LeakyRelu"}
var allBin = []string{"Add", "Sub", "Prod", "Div", "Pow", "MaxB", "MinB", "Gt", "Lt", "Gte", "Lte", "Eq", "Ne", "Gtb", "Eqb"}

func wideAlpha() []*Op {
	a := cat(uops(allUnary...), bops(allBin...))
	a = append(a, opSum(), opSum(0), opSum(1), opSum(0, 1), opMean(), opMean(0), opMean(1), opMax(), opMax(0), opMax(1),
		opNorm(0, 2), opNorm(1, 2), opNorm(0, 3))
	a = append(a, opTranspose(1, 0), opTranspose(), opTranspose(0, 2, 1), opTranspose(2, 0, 1), opReshape(6), opReshape(4), opReshape(3, 2), opReshape(2, -1), opRavel(),
		opSlice(&sl{0, 1, 0}), opSlice(&sl{1, 2, 0}), opSlice(nil, &sl{1, 2, 0}), opSlice(nil, &sl{0, 2, 0}), opSlice(&sl{0, 2, 0}), opSlice(&sl{0, 1, 0}, &sl{1, 2, 0}), opSlice(nil, &sl{0, 3, 2}),
		opConcat(0, 2), opConcat(1, 2))
	a = append(a, opMul(), opOuter(), opBatchedMatMul(false, false), opTensordot([]int{0}, []int{0}), opTensordot([]int{1}, []int{0}),
		opSoftmax(0, false), opSoftmax(1, false), opSoftmax(-1, false), opSoftmax(0, true), opSoftmax(1, true))
	for _, n := range []string{"Add", "Sub", "Prod", "Div", "Pow"} {
		d := binDefByName(n)
		a = append(a, opBroadcast(d, nil, []int{0}), opBroadcast(d, nil, []int{1}), opBroadcast(d, []int{0}, nil), opBroadcast(d, []int{1}, nil))
	}
	return a
}

// skipLogSoftmax leaves out the logarithm of a softmax (or of a product with
// one): building it changes the softmax node, which C15 decides.
func skipLogSoftmax(p *Prog, op *Op, args []int) bool {
	if op.Name != "Log" {
		return false
	}
	isSm := func(v int) bool {
		return v >= p.NIn && strings.HasPrefix(p.Instrs[v-p.NIn].Op.Name, "SoftMax")
	}
	if isSm(args[0]) {
		return true
	}
	if v := args[0]; v >= p.NIn {
		for _, a := range p.Instrs[v-p.NIn].Args {
			if isSm(a) {
				return true
			}
		}
	}
	return false
}

// coreAlpha are the ops that compete for registers: in place, external,
// aliasing, allocating and shrinking ones.
func coreAlpha() []*Op {
	a := cat(uops("Neg", "Cube", "Tanh"), bops("Add", "Sub", "Prod", "Gt", "Ltb"))
	return append(a, opSum(0), opTranspose(1, 0), opReshape(4), opSlice(nil, &sl{1, 2, 0}), opMul(), opConcat(0, 2), opSoftmax(0, false))
}

func runC01(c *Ctx) {
	run := func(tag, dt string, mode int, shapes [][]int, consts []bool, alpha []*Op, d int, masks []int) {
		var ins []*RT
		for i, s := range shapes {
			ins = append(ins, genRT(dt, mode, i, s...))
		}
		enumProgs(c, dt, ins, consts, alpha, d, EnumOpts{Skip: skipLogSoftmax}, func(p *Prog) {
			for _, mask := range masks {
				c.Case(func() string { return fmt.Sprintf("%s|m%d|%s|read=%b", tag, mode, p.String(), mask) }, func(t *T) { tapeCase(t, p, mask) })
			}
		})
	}
	all := func(d int) (r []int) {
		for m := 0; m < 1<<d; m++ {
			r = append(r, m)
		}
		return
	}

	// every op on its own, and every pair of ops
	for _, cfg := range []struct {
		dt   string
		mode int
	}{{"f64", 0}, {"f32", 1}, {"f64", 1}, {"f32", 0}} {
		for _, shapes := range univ {
			run("wide", cfg.dt, cfg.mode, shapes, nil, wideAlpha(), 1, all(1))
		}
	}
	for _, shapes := range univ {
		run("wide", "f64", 0, shapes, nil, wideAlpha(), 2, []int{0, 3})
		run("wide", "f32", 1, shapes, nil, wideAlpha(), 2, []int{0})
	}
	// constants of every rank
	for _, shapes := range univ {
		for _, k := range [][]bool{{true, false}, {false, true}} {
			run("const", "f64", 0, shapes, k, append(cat(uops("Neg", "Exp"), bops("Add", "Sub", "Prod", "Div", "Gt", "Ltb")), opSum(0), opTranspose(), opReshape(6), opReshape(12), opMul()), 2, []int{0, 3})
		}
	}
	// three ops competing for registers
	run("core", "f64", 0, [][]int{{2, 2}}, nil, coreAlpha(), 3, all(3))
	run("core", "f32", 0, [][]int{{2, 2}, {2, 2}}, []bool{false, true}, cat(uops("Neg"), bops("Add", "Sub", "Prod", "Gt"), []*Op{opMul(), opReshape(4)}), 3, []int{0, 7})
	run("core", "f64", 1, [][]int{{2, 2}, {}}, nil, cat(uops("Neg", "Cube"), bops("Add", "Sub", "Prod", "Gt")), 3, []int{0, 3})
	// scalars and tensors of one element
	for _, shapes := range [][][]int{{nil}, {{1}}, {{1, 1}}} {
		run("one", "f64", 0, shapes, nil, append(cat(uops("Neg"), bops("Add", "Prod")), opReshape1(), opReshape1(1), opReshape1(1, 1)), 3, all(3))
		run("one", "f32", 0, shapes, nil, append(cat(uops("Neg"), bops("Sub")), opReshape1(), opReshape1(1), opReshape1(1, 1)), 4, []int{0, 15})
	}
	// four and five ops
	small := append(cat(uops("Neg"), bops("Add", "Sub")), opMul(), opReshape(4), opSum(0))
	run("small", "f64", 0, [][]int{{2, 2}}, nil, append(cat(uops("Neg"), bops("Add", "Sub")), opReshape(4)), 4, []int{0, 1, 2, 4, 8, 15})
	run("five", "f64", 0, [][]int{{2, 2}}, nil, cat(uops("Neg"), bops("Sub")), 5, []int{0})
	if c.Thorough {
		for _, dt := range []string{"f64", "f32"} {
			for _, k := range [][]bool{nil, {false, true}} {
				run("core", dt, 0, [][]int{{2, 2}, {2, 2}}, k, coreAlpha(), 3, all(3))
			}
		}
		for _, shapes := range univ {
			run("wide", "f64", 1, shapes, nil, wideAlpha(), 2, all(2))
			run("wide", "f32", 0, shapes, nil, wideAlpha(), 2, []int{0, 3})
		}
		run("core4", "f64", 0, [][]int{{2, 2}, {2, 2}}, nil, coreAlpha(), 4, []int{0})
		run("small", "f32", 0, [][]int{{2, 2}, {2, 2}}, nil, small, 4, all(4))
		run("five", "f64", 0, [][]int{{2, 2}}, nil, small, 5, []int{0, 31})
		run("six", "f64", 0, [][]int{{2, 2}}, nil, append(cat(uops("Neg"), bops("Sub")), opTranspose(1, 0)), 6, []int{0})
		for _, shapes := range univ[1:4] {
			run("wide3", "f64", 0, shapes, nil, wideAlpha(), 3, []int{0})
		}
	}
}

// tapeCase runs p on the compiling machine; bit i of mask asks for a reading
// of the result of instruction i.
func tapeCase(t *T, p *Prog, mask int) {
	g := G.NewGraph()
	nodes, err := p.build(g)
	if err != nil {
		t.Failf("build: %v", err)
	}
	used := map[*G.Node]bool{}
	for _, n := range nodes {
		used[n] = g.To(n.ID()).Len() > 0
	}
	reads := make([]G.Value, len(nodes))
	for i := range p.Instrs {
		if mask>>i&1 == 1 {
			G.Read(nodes[p.NIn+i], &reads[p.NIn+i])
		}
	}
	m := G.NewTapeMachine(g)
	defer closeVM(m)
	if err := m.RunAll(); err != nil {
		t.Failf("run: %v", err)
	}
	tol := tolFor(p.DT, p.scale())
	for i, n := range nodes {
		if i >= p.NIn && mask>>(i-p.NIn)&1 == 1 {
			if d := diffValue(reads[i], p.Vals[i], tol); d != "" {
				t.Failf("reading of value %d: %s", i, d)
			}
		}
		if i < p.NIn || !used[n] {
			if d := diffValue(n.Value(), p.Vals[i], tol); d != "" {
				t.Failf("value %d: %s", i, d)
			}
		}
	}
	t.Trans(len(p.Instrs))
	t.Trace(1)
	for _, v := range p.Vals[p.NIn:] {
		t.State(v)
	}
}
