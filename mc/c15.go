package main

// C15: numerical rewrites.

import (
	"fmt"
	"strings"

	G "gorgonia.org/gorgonia"
)

func init() {
	register(&Check{ID: "C15", Run: runC15, Procs: 4,
		Rule: "A case is a program over the operations that rewrites recognise, built with rewriting on, in a graph that does or does not know the constants already, with every handle read afterwards, read at once, or used again. Every handle must have the reference value, and gradients must be those of the program built with rewriting off. states: distinct programs; transitions: expressions built; traces: runs compared."})
}

// xentOp is the binary cross entropy of an output and a target.
var xentOp = &Op{Name: "Xent", N: 2,
	Ref: func(in []*RT) (*RT, error) {
		if in[0].DT != in[1].DT || !sameShape(in[0].Shape, in[1].Shape) {
			return nil, errNA
		}
		for i := range in[0].D {
			if o := in[0].D[i].V; o <= 0 || o >= 1 {
				return nil, errNA
			}
		}
		return zip2(in[0], in[1], func(o, t Dual) Dual {
			one := cst(1)
			return dScale(dAdd(dMul(t, dLog(o)), dMul(dSub(one, t), dLog(dSub(one, o)))), -1)
		})
	},
	Build: func(in []*G.Node) (*G.Node, error) { return G.BinaryXent(in[0], in[1]) }}

var primes = []string{"none", "grad", "xent"}

// prime makes the library's own constants known to the graph.
func prime(g *G.ExprGraph, how int, dt string) {
	if how == 0 {
		return
	}
	x := newBoundInput(g, "prime", genRT(dt, 0, 77))
	if how == 1 {
		if _, err := G.Grad(G.Must(G.Square(x)), x); err != nil {
			panic(err)
		}
		return
	}
	y := newBoundInput(g, "primf", genRT(dt, 0, 78))
	G.Must(G.BinaryXent(G.Must(G.Sigmoid(x)), y))
}

// stabBuild builds the program. hold "at once": every handle is read as soon
// as it exists; "used at once": every handle gets a user at once.
func stabBuild(g *G.ExprGraph, p *Prog, how int, hold string, sink []G.Value) (nodes, uses []*G.Node, err error) {
	prime(g, how, p.DT)
	for i := 0; i < p.NIn; i++ {
		if p.Const[i] {
			nodes = append(nodes, g.AddNode(G.NewConstant(goVal(p.Vals[i]))))
			continue
		}
		nodes = append(nodes, newBoundInput(g, inNames[i], p.Vals[i]))
	}
	use := func(i int) error {
		u, err := G.Square(nodes[i])
		uses = append(uses, u)
		return err
	}
	for k, in := range p.Instrs {
		var args []*G.Node
		for _, a := range in.Args {
			args = append(args, nodes[a])
		}
		n, err := in.Op.Build(args)
		if err != nil {
			return nil, nil, fmt.Errorf("instruction %d: %v", k, err)
		}
		nodes = append(nodes, n)
		switch hold {
		case "read at once":
			G.Read(n, &sink[k])
		case "used at once":
			if err := use(p.NIn + k); err != nil {
				return nil, nil, err
			}
		}
	}
	for k := range p.Instrs {
		switch hold {
		case "read":
			G.Read(nodes[p.NIn+k], &sink[k])
		case "used":
			if err := use(p.NIn + k); err != nil {
				return nil, nil, err
			}
		}
	}
	return nodes, uses, nil
}

var holds = []string{"none", "read", "read at once", "used", "used at once"}

func stabCase(t *T, p *Prog, how int, hold string, kind int) {
	g := G.NewGraph()
	sink := make([]G.Value, len(p.Instrs))
	nodes, uses, err := stabBuild(g, p, how, hold, sink)
	if err != nil {
		t.Failf("build: %v", err)
	}
	t.Trans(len(p.Instrs))
	t.Trace(1)
	var vm G.VM
	if kind == kTape {
		vm = G.NewTapeMachine(g)
	} else {
		vm = G.NewLispMachine(g, G.ExecuteFwdOnly())
	}
	defer closeVM(vm)
	if err := vm.RunAll(); err != nil {
		t.Failf("run: %v", err)
	}
	tol := 100 * tolFor(p.DT, p.scale())
	for k := range p.Instrs {
		v := p.NIn + k
		switch {
		case sink[k] != nil:
			if d := diffValue(sink[k], p.Vals[v], tol); d != "" {
				t.Failf("read of value %d: %s", v, d)
			}
		case strings.HasPrefix(hold, "used"):
			sq := map1(p.Vals[v], func(x Dual) Dual { return dMul(x, x) })
			if d := diffValue(uses[k].Value(), sq, tol*(1+sq.maxAbs())); d != "" {
				// a square that is an operand of a later instruction need not be kept
				if kind != kTape || len(drain(g.To(uses[k].ID()))) == 0 {
					t.Failf("square of value %d: %s", v, d)
				}
			}
		case strings.HasPrefix(hold, "read"):
			t.Failf("value %d was not read", v)
		default:
			if kind == kTape && len(drain(g.To(nodes[v].ID()))) > 0 {
				continue
			}
			if d := diffValue(nodes[v].Value(), p.Vals[v], tol); d != "" {
				t.Failf("value %d: %s", v, d)
			}
		}
	}
}

// stabGrad compares gradients of a cost over the last value (all false) or
// over all values, with and without rewriting.
func stabGrad(t *T, p *Prog, how int, all bool, kind int) {
	grads := func(plain bool) []*RT {
		if plain {
			G.UseNonStable()
			defer G.UseStabilization()
		}
		g := G.NewGraph()
		hold := "none"
		if kind == kLisp {
			how = 0 // a second cost otherwise
		}
		nodes, _, err := stabBuild(g, p, how, hold, nil)
		if err != nil {
			t.Failf("build: %v", err)
		}
		var cost *G.Node
		for v := p.NIn; v < len(nodes); v++ {
			if !all && v != len(nodes)-1 {
				continue
			}
			n := nodes[v]
			w := genRT(p.DT, 0, 50+v, p.Vals[v].Shape...)
			n = G.Must(G.HadamardProd(n, newBoundInput(g, fmt.Sprint("w", v), w)))
			if !n.IsScalar() {
				n = G.Must(G.Sum(n))
			}
			if cost == nil {
				cost = n
			} else {
				cost = G.Must(G.Add(cost, n))
			}
		}
		var vm G.VM
		var wrt []*G.Node
		for i := 0; i < p.NIn; i++ {
			used := false
			for v := p.NIn; v < len(p.Vals); v++ {
				used = used || (all || v == len(p.Vals)-1) && p.reach(v)[i]
			}
			if !p.Const[i] && used {
				wrt = append(wrt, nodes[i])
			}
		}
		if kind == kTapeGrad {
			gs, err := G.Grad(cost, wrt...)
			if err != nil {
				t.Failf("gradient (plain %v): %v", plain, err)
			}
			vm = G.NewTapeMachine(g)
			defer closeVM(vm)
			if err := vm.RunAll(); err != nil {
				t.Failf("run (plain %v): %v", plain, err)
			}
			var r []*RT
			for _, n := range gs {
				rt, err := readValue(n.Value())
				if err != nil {
					t.Failf("gradient (plain %v): %v", plain, err)
				}
				r = append(r, rt)
			}
			return r
		}
		vm = G.NewLispMachine(g)
		defer closeVM(vm)
		if err := vm.RunAll(); err != nil {
			t.Failf("run (plain %v): %v", plain, err)
		}
		var r []*RT
		for _, n := range wrt {
			gv, err := n.Grad()
			if err != nil {
				t.Failf("gradient (plain %v): %v", plain, err)
			}
			rt, err := readValue(gv)
			if err != nil {
				t.Failf("gradient (plain %v): %v", plain, err)
			}
			r = append(r, rt)
		}
		return r
	}
	t.Trans(2 * len(p.Instrs))
	t.Trace(1)
	want := grads(true)
	got := grads(false)
	for i := range want {
		if d := diffRT(got[i], want[i], 100*gradTol(p.DT, p.scale())*(1+want[i].maxAbs())); d != "" {
			t.Failf("gradient %d: %s", i, d)
		}
	}
}

// freeSoftmax: the logarithm of a softmax without another user turns the
// softmax itself into a log-softmax (known finding); cases of their own.
func freeSoftmax(p *Prog, op *Op, args []int) bool {
	if op.Name != "Log" {
		return false
	}
	v := args[0]
	if v < p.NIn || !strings.HasPrefix(p.Instrs[v-p.NIn].Op.Name, "SoftMax") {
		return false
	}
	for _, in := range p.Instrs {
		for _, a := range in.Args {
			if a == v {
				return false
			}
		}
	}
	return true
}

func runC15(c *Ctx) {
	cases := func(tag string, p *Prog, grads bool) {
		c.Group(func() {
			for how := range primes {
				how := how
				for _, hold := range holds {
					for _, kind := range []int{kTape, kLispFwd} {
						hold, kind := hold, kind
						if kind == kLispFwd && hold != "none" && len(p.Instrs) > 2 && !c.Thorough {
							continue
						}
						c.Case(func() string {
							return fmt.Sprintf("%s|%s|%s|%s|%s", tag, p.String(), primes[how], hold, kindName[kind])
						}, func(t *T) { t.State(p.String()); stabCase(t, p, how, hold, kind) })
					}
				}
				if !grads {
					continue
				}
				for _, all := range []bool{false, true} {
					for _, kind := range []int{kTapeGrad, kLisp} {
						if kind == kLisp && (!all || how > 0 || !p.usesAll()) || !p.reaches(all) {
							continue
						}
						all, kind := all, kind
						c.Case(func() string {
							return fmt.Sprintf("%s|%s|%s|all=%v|%s", tag, p.String(), primes[how], all, kindName[kind])
						}, func(t *T) { t.State(p.String()); stabGrad(t, p, how, all, kind) })
					}
				}
			}
		})
	}
	unit := func(dt string, salt int, shape ...int) *RT { // between 0 and 1
		r := genRT(dt, 0, salt, shape...)
		for i := range r.D {
			r.D[i].V = float64(float32(r.D[i].V / 2))
		}
		return r
	}
	run := func(tag, dt string, ins []*RT, consts []bool, alpha []*Op, n int) {
		enumProgs(c, dt, ins, consts, alpha, n, EnumOpts{Limit: 100, MaxElems: 16, NoDup: true, Skip: freeSoftmax}, func(p *Prog) {
			if len(p.Instrs) == n {
				cases(tag, p, true)
			}
		})
	}
	one := func(dt string) *RT { return rtOf(dt, nil, 1) }
	ft := []bool{false, true}
	alpha := cat(uops("Log", "Log1p", "Neg", "Sigmoid", "Exp"), bops("Add", "Sub", "Prod"), []*Op{opSoftmax(0, false)})
	for _, dt := range []string{"f64", "f32"} {
		for n := 1; n <= 2; n++ {
			run("vec", dt, []*RT{unit(dt, 1, 3), one(dt)}, ft, append(alpha[:len(alpha):len(alpha)], xentOp, opSoftmax(0, true)), n)
			run("scalar", dt, []*RT{unit(dt, 1), one(dt)}, ft, append(alpha[:len(alpha)-1:len(alpha)-1], xentOp), n)
		}
		run("xent", dt, []*RT{unit(dt, 1, 2), unit(dt, 2, 2)}, []bool{false, false}, []*Op{xentOp}, 2)
		run("xent", dt, []*RT{unit(dt, 1, 2), unit(dt, 2, 2)}, []bool{false, false}, []*Op{xentOp}, 3)
	}
	run("mat", "f64", []*RT{unit("f64", 1, 2, 2), one("f64")}, ft, cat(uops("Log", "Exp"), bops("Sub", "Prod"), []*Op{opSoftmax(0, false), opSoftmax(1, false)}), 3)
	if c.Thorough {
		run("vec", "f64", []*RT{unit("f64", 1, 3), one("f64")}, ft, append(alpha[:len(alpha):len(alpha)], xentOp), 3)
		run("two", "f64", []*RT{unit("f64", 1, 2), unit("f64", 2, 2), one("f64")}, []bool{false, false, true}, append(alpha[:len(alpha):len(alpha)], xentOp), 2)
	} else {
		run("vec", "f64", []*RT{unit("f64", 1, 3), one("f64")}, ft, cat(uops("Log", "Log1p", "Neg", "Sigmoid", "Exp"), bops("Sub")), 3)
	}
	// programs that resemble the rewritten ones: every operation inside and out,
	// operands on either side of one, and constants other than one
	like := func(tag string, p *Prog, hows int) {
		c.Group(func() {
			for how := 0; how < hows; how++ {
				how := how
				for _, hold := range []string{"none", "used at once"} {
					for _, kind := range []int{kTape, kLispFwd} {
						hold, kind := hold, kind
						if kind == kLispFwd && hold != "none" && !c.Thorough {
							continue
						}
						c.Case(func() string {
							return fmt.Sprintf("%s|%s|%s|%s|%s", tag, p.String(), primes[how], hold, kindName[kind])
						}, func(t *T) { t.State(p.String()); stabCase(t, p, how, hold, kind) })
					}
				}
				if p.reaches(false) && p.diffable(false) {
					c.Case(func() string { return fmt.Sprintf("%s|%s|%s|grad", tag, p.String(), primes[how]) },
						func(t *T) { t.State(p.String()); stabGrad(t, p, how, false, kTapeGrad) })
				}
			}
		})
	}
	above := func(dt string, salt int, sign float64, shape ...int) *RT { // beyond one
		r := unit(dt, salt, shape...)
		for i := range r.D {
			r.D[i].V = sign * float64(float32(r.D[i].V+1.125))
		}
		return r
	}
	all := uops("Abs", "Sign", "Ceil", "Floor", "Sin", "Cos", "Exp", "Log", "Log2", "Neg", "Square", "Sqrt", "Inverse", "InverseSqrt", "Cube", "Tanh", "Sigmoid", "Log1p", "Expm1", "Softplus")
	for _, dt := range []string{"f64", "f32"} {
		for mode, x := range []*RT{unit(dt, 1, 2), above(dt, 1, 1, 2), above(dt, 1, -1, 2)} {
			tag := fmt.Sprintf("like%d", mode)
			for _, k := range []float64{1, 2, 0, -1} {
				if !c.Thorough && (k <= 0 || dt == "f32" && mode == 0) {
					continue
				}
				ins := []*RT{x, rtOf(dt, nil, k)}
				enumProgs(c, dt, ins, ft, cat(all, bops("Add", "Sub", "Prod", "Div")), 2, EnumOpts{Limit: 100, MaxElems: 16, NoDup: true}, func(p *Prog) {
					if len(p.Instrs) == 2 && p.noDead() {
						like(fmt.Sprintf("%s,%v", tag, k), p, len(primes))
					}
				})
			}
			// chains of three
			if (dt == "f32" || mode == 2) && !c.Thorough {
				continue
			}
			enumProgs(c, dt, []*RT{x}, []bool{false}, all, 3, EnumOpts{Limit: 100, MaxElems: 16, NoDup: true, Skip: func(p *Prog, op *Op, args []int) bool {
				return args[0] != len(p.Vals)-1
			}}, func(p *Prog) {
				if len(p.Instrs) == 3 {
					like(tag, p, 1)
				}
			})
			// logarithms of products of softmaxes
			sm := cat(uops("Log"), bops("Prod"), []*Op{opSoftmax(0, false), opSoftmax(0, true)})
			depth := 4
			enumProgs(c, dt, []*RT{x, above(dt, 2, 1, 2)}, []bool{false, false}, sm, depth, EnumOpts{Limit: 100, MaxElems: 16, NoDup: true, Skip: freeSoftmax}, func(p *Prog) {
				if len(p.Instrs) > 2 && p.Instrs[len(p.Instrs)-1].Op.Name == "Log" && p.noDead() {
					like(tag+",sm", p, 1)
				}
			})
		}
	}
	// the known finding
	for ax := 0; ax < 2; ax++ {
		p := &Prog{DT: "f64", NIn: 1, Const: []bool{false}, Vals: []*RT{unit("f64", 1, 2, 2)}}
		for _, in := range []Instr{{opSoftmax(ax, false), []int{0}}, {uops("Log")[0], []int{1}}} {
			v, err := in.Op.Ref([]*RT{p.Vals[in.Args[0]]})
			if err != nil {
				panic(err)
			}
			p.Instrs = append(p.Instrs, in)
			p.Vals = append(p.Vals, v)
		}
		cases("free softmax", p, false)
	}
}

// reaches tells whether the cost depends on an input.
func (p *Prog) reaches(all bool) bool {
	for v := p.NIn; v < len(p.Vals); v++ {
		if !all && v != len(p.Vals)-1 {
			continue
		}
		r := p.reach(v)
		for i := 0; i < p.NIn; i++ {
			if r[i] && !p.Const[i] {
				return true
			}
		}
	}
	return false
}

// usesAll: an input without users is another root of the graph, which the
// Lisp machine takes for a cost.
func (p *Prog) usesAll() bool {
	used := map[int]bool{}
	for _, in := range p.Instrs {
		for _, a := range in.Args {
			used[a] = true
		}
	}
	for i := 0; i < p.NIn; i++ {
		if !used[i] && !p.Const[i] {
			return false
		}
	}
	return true
}
