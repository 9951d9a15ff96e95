package main

// C19: NaN and infinity watches.

import (
	"fmt"
	"math"

	G "gorgonia.org/gorgonia"
)

func init() {
	register(&Check{ID: "C19", Run: runC19, Procs: 2,
		Rule: "A case is a program, an assignment of ordinary and exceptional elements to its inputs, a machine and a set of watches. Which operations produce a NaN or an infinity is found out on a machine without watches that keeps every intermediate value (and, where IEEE arithmetic defines them, by the reference); the watching machine must report an error exactly then. states: (program, exceptional values present); transitions: operations executed; traces: watched runs judged."})
}

// special scans a value for NaN and infinities.
func special(v G.Value) (nan, inf bool, err error) {
	r, err := readValue(v)
	if err != nil {
		return false, false, err
	}
	for _, d := range r.D {
		nan = nan || math.IsNaN(d.V)
		inf = inf || math.IsInf(d.V, 0)
	}
	return
}

type watchNet struct {
	g     *G.ExprGraph
	nodes []*G.Node
	reads []G.Value
	xs    G.Nodes
}

func newWatchNet(t *T, p *Prog, kind int, reads bool) *watchNet {
	s := &watchNet{g: G.NewGraph()}
	grad := kind == kTapeGrad || kind == kLisp
	used := make([]bool, len(p.Vals))
	for i := range used {
		used[i] = true
	}
	if grad {
		used = p.reach(len(p.Vals) - 1)
	}
	var err error
	if s.nodes, err = p.buildFor(s.g, used); err != nil {
		t.Failf("build: %v", err)
	}
	if grad {
		cost, err := p.buildCost(s.g, s.nodes)
		if err != nil {
			t.Failf("cost: %v", err)
		}
		for i := 0; i < p.NIn; i++ {
			if used[i] {
				s.xs = append(s.xs, s.nodes[i])
			}
		}
		if kind == kTapeGrad {
			if _, err := G.Grad(cost, s.xs...); err != nil {
				t.Failf("Grad: %v", err)
			}
		}
	}
	s.reads = make([]G.Value, len(s.nodes))
	if reads && !grad {
		for i := p.NIn; i < len(s.nodes); i++ {
			G.Read(s.nodes[i], &s.reads[i])
		}
	}
	return s
}

func (s *watchNet) machine(kind int, opts ...G.VMOpt) G.VM {
	switch kind {
	case kTape:
		return G.NewTapeMachine(s.g, opts...)
	case kTapeGrad:
		return G.NewTapeMachine(s.g, append(opts, G.BindDualValues(s.xs...))...)
	case kLispFwd:
		return G.NewLispMachine(s.g, append(opts, G.ExecuteFwdOnly())...)
	}
	return G.NewLispMachine(s.g, opts...)
}

// watchCase runs p once without watches to find out what is produced, and then
// with every set of watches; ieee says that the reference defines the values.
func watchCase(t *T, p *Prog, kind int, ieee bool) {
	lisp := kind == kLisp || kind == kLispFwd
	o := newWatchNet(t, p, kind, true)
	var opts []G.VMOpt
	if !lisp {
		opts = append(opts, G.TraceExec())
	}
	m := o.machine(kind, opts...)
	err := m.RunAll()
	defer closeVM(m)
	if err != nil {
		t.Failf("without watches: %v", err)
	}
	if ieee && o.xs == nil {
		for i := p.NIn; i < len(o.nodes); i++ {
			if d := sameIEEE(o.reads[i], p.Vals[i], p.DT); d != "" {
				t.Failf("without watches: value %d: %s", i, d)
			}
		}
	}
	var nan, inf, murky bool
	for _, n := range o.g.AllNodes() {
		v := n.Value()
		if v == nil || n.IsVar() && !lisp {
			continue
		}
		isOp := !n.IsVar() && o.g.From(n.ID()).Len() > 0
		a, b, err := special(v)
		if err != nil {
			t.Failf("value of %v: %v", n, err)
		}
		if isOp {
			t.Trans(1)
			nan, inf = nan || a, inf || b
		} else if a || b {
			// an exceptional element of an input is not produced by an operation
			murky = murky || kind == kLisp
		}
		if kind == kLisp {
			if gv, err := n.Grad(); err == nil && gv != nil {
				a, b, err := special(gv)
				if err == nil {
					nan, inf = nan || a, inf || b
					murky = murky || a && !b
				}
			}
		}
	}
	t.State(p.String(), kind, nan, inf)
	for w := 1; w < 4; w++ {
		s := newWatchNet(t, p, kind, false)
		var opts []G.VMOpt
		if w&1 != 0 {
			opts = append(opts, G.WithNaNWatch())
		}
		if w&2 != 0 {
			opts = append(opts, G.WithInfWatch())
		}
		wm := s.machine(kind, opts...)
		want := w&1 != 0 && nan || w&2 != 0 && inf
		for r := 0; r < 2; r++ {
			if r > 0 {
				wm.Reset()
			}
			err := wm.RunAll()
			t.Trace(1)
			if (murky || kind == kLisp && r > 0 && inf) && !want {
				continue // an infinity that has since turned into a NaN may have been there; infinite gradients add up to NaN
			}
			if want && err == nil {
				closeVM(wm)
				t.Failf("watch %d, run %d: nothing reported, but an operation produced nan=%v inf=%v", w, r, nan, inf)
			}
			if !want && err != nil {
				closeVM(wm)
				t.Failf("watch %d, run %d: reported %v, but the operations produced nan=%v inf=%v", w, r, err, nan, inf)
			}
		}
		closeVM(wm)
	}
}

// sameIEEE compares values with NaN equal to NaN.
func sameIEEE(v G.Value, want *RT, dt string) string {
	got, err := readValue(v)
	if err != nil {
		return err.Error()
	}
	if len(got.D) != len(want.D) {
		return fmt.Sprintf("%d elements, want %d", len(got.D), len(want.D))
	}
	tol := 1e-9
	if dt == "f32" {
		tol = 1e-4
	}
	for i := range want.D {
		a, b := got.D[i].V, want.D[i].V
		if dt == "f32" {
			b = float64(float32(b))
		}
		if a == b || math.IsNaN(a) && math.IsNaN(b) {
			continue
		}
		if !(math.Abs(a-b) <= tol*(1+math.Abs(b))) {
			return fmt.Sprintf("element %d is %v, want %v", i, a, b)
		}
	}
	return ""
}

// rebind gives the program other inputs; ok is false if the reference does not
// define a value.
func rebind(p *Prog, ins []*RT) (*Prog, bool) {
	vals, err := p.eval(ins)
	if err == nil {
		return &Prog{DT: p.DT, NIn: p.NIn, Const: p.Const, Instrs: p.Instrs, Vals: vals}, true
	}
	return &Prog{DT: p.DT, NIn: p.NIn, Const: p.Const, Instrs: p.Instrs, Vals: append(append([]*RT{}, ins...), p.Vals[p.NIn:]...)}, false
}

// divisions reports whether the tensor library defines every quotient: 0/0 is
// NaN in place and an infinity elsewhere.
func divisions(p *Prog, grad bool) bool {
	for _, in := range p.Instrs {
		if in.Op.Name != "Div" {
			continue
		}
		x, y := p.Vals[in.Args[0]], p.Vals[in.Args[1]]
		for i := range y.D {
			if y.D[i].V == 0 && (grad || len(x.D) != len(y.D) || x.D[i].V == 0 || math.IsNaN(x.D[i].V)) {
				return false
			}
		}
	}
	return true
}

func runC19(c *Ctx) {
	// exceptional elements an input may hold
	fill := func(dt string, shape []int, salt, at int, x float64) *RT {
		r := genRT(dt, 1, salt, shape...)
		if at >= 0 {
			r.D[at] = cst(x)
		}
		return r
	}
	run := func(tag, dt string, shapes [][]int, alpha []*Op, n int, xs []float64, kinds []int) {
		var ins []*RT
		for i, s := range shapes {
			ins = append(ins, genRT(dt, 1, 1+i, s...))
		}
		enumProgs(c, dt, ins, nil, alpha, n, EnumOpts{Limit: 1e30, MaxElems: 16}, func(p *Prog) {
			if !p.noDead() || len(p.Instrs) != n {
				return
			}
			used := p.reach(len(p.Vals) - 1)
			for _, kind := range kinds {
				kind := kind
				if (kind == kTapeGrad || kind == kLisp) && (!p.diffable(kind == kLisp) || kind == kLisp && orphans(p)) {
					continue
				}
				c.Group(func() {
					for which := 0; which < p.NIn; which++ {
						if !used[which] {
							continue
						}
						elems := len(p.Vals[which].D)
						for at := -1; at < elems; at++ {
							for _, x := range xs {
								if at < 0 && x != xs[0] {
									continue
								}
								which, at, x := which, at, x
								c.Case(func() string {
									return fmt.Sprintf("%s|%s|%s|in%d[%d]=%v", tag, p.String(), kindName[kind], which, at, x)
								}, func(t *T) {
									in := append([]*RT{}, p.Vals[:p.NIn]...)
									in[which] = fill(dt, in[which].Shape, 1+which, at, x)
									q, ieee := rebind(p, in)
									quot := false
									for _, i := range p.Instrs {
										quot = quot || i.Op.Name == "Div"
									}
									if quot && !ieee || !divisions(q, kind == kTapeGrad || kind == kLisp) {
										t.Count("outside_domain", 1)
										return
									}
									for _, i := range p.Instrs {
										// the tensor library's division by zero and multiplication by zero in matrix products are its own
										ieee = ieee && i.Op.Name != "Div" && i.Op.Name != "Mul" && i.Op.Name != "Inverse"
									}
									watchCase(t, q, kind, ieee && dt == "f64")
								})
							}
						}
					}
				})
			}
		})
	}
	all := []int{kTape, kTapeGrad, kLispFwd, kLisp}
	fwd := []int{kTape, kLispFwd}
	inf, nan := math.Inf(1), math.NaN()
	u := uops("Neg", "Exp", "Log", "Sqrt", "Inverse", "Square", "Log1p", "Abs")
	// the library's single precision exponential of huge numbers is off
	u32 := uops("Neg", "Log", "Sqrt", "Inverse", "Square", "Log1p", "Abs")
	// division without the reference's usual distance from zero
	div := *bops("Div")[0]
	div.Ref = func(in []*RT) (*RT, error) {
		return zip2(in[0], in[1], func(x, y Dual) Dual { return Dual{V: x.V / y.V} })
	}
	b := cat(bops("Add", "Sub", "Prod"), []*Op{&div})
	st := []*Op{opSum(), opSum(0), opTranspose(1, 0), opReshape(4), opMul()}
	huge := 1e200
	var cmps []*Op
	for _, d := range cmpDefs {
		cmps = append(cmps, mkCmp(d, false), mkCmp(d, true))
	}
	run("one", "f64", [][]int{{2, 2}, {2, 2}}, cat(u, b, st), 1, []float64{0, -1, huge, 800, inf, -inf, nan}, all)
	run("two", "f64", [][]int{{2, 2}}, cat(u, b, st), 2, []float64{0, -1, huge, inf, nan}, all)
	run("one32", "f32", [][]int{{3}, {3}}, cat(u32, b, st), 1, []float64{0, -1, 1e30, inf, nan}, all)
	run("exp32", "f32", [][]int{{2}}, cat(uops("Exp", "Neg"), bops("Add", "Sub")), 2, []float64{0, -200, 100, inf, nan}, all)
	run("two32", "f32", [][]int{{2}}, cat(u32, b), 2, []float64{0, -1, 1e30, nan}, all)
	run("scalar", "f64", [][]int{nil, nil}, cat(u, b), 2, []float64{0, -1, huge, inf, nan}, all)
	run("scalar32", "f32", [][]int{nil}, cat(u32, b), 2, []float64{0, -1, 1e30, inf, nan}, all)
	// an exceptional element that no operation hands on
	run("drop", "f64", [][]int{{2, 2}}, cat(uops("Neg"), []*Op{opSlice(nil, &sl{1, 2, 0}), opSlice(&sl{0, 1, 0}), opSlice(nil, &sl{0, 1, 0}), opSlice(&sl{1, 2, 0})}), 1, []float64{inf, nan}, fwd)
	run("drop2", "f64", [][]int{{2, 2}}, cat(uops("Neg", "Exp"), []*Op{opSlice(nil, &sl{1, 2, 0}), opSlice(&sl{0, 1, 0})}), 2, []float64{inf, nan}, fwd)
	run("drop3", "f64", [][]int{{3, 3}}, []*Op{opSlice(&sl{0, 2, 0}, &sl{1, 3, 0}), opSlice(&sl{1, 3, 0}, &sl{0, 2, 0})}, 1, []float64{inf, nan}, fwd)
	// comparisons and integers produce neither
	run("int", "int", [][]int{{2}, {2}}, cat(uops("Neg", "Square", "Abs"), bops("Add", "Sub", "Prod")), 2, []float64{0}, fwd)
	run("intscalar", "int", [][]int{nil, nil}, cat(uops("Neg", "Square"), bops("Add", "Sub", "Prod")), 2, []float64{0}, fwd)
	run("cmp", "f64", [][]int{{2}, {2}}, cmps, 1, []float64{inf, nan}, fwd)
	run("cmpscalar", "f64", [][]int{nil, nil}, cmps, 1, []float64{inf, nan}, fwd)
	for _, mean := range []float64{0, inf, -inf, nan} {
		for _, shape := range [][]int{nil, {1}, {2}, {2, 2}} {
			for _, first := range []bool{true, false} {
				for _, kind := range fwd {
					mean, shape, first, kind := mean, shape, first, kind
					c.Case(func() string { return fmt.Sprintf("random|%v|%v|first=%v|%s", mean, shape, first, kindName[kind]) },
						func(t *T) { randomWatch(t, mean, shape, first, kind) })
				}
			}
		}
	}
	core := cat(uops("Neg", "Log", "Square"), bops("Sub"), []*Op{&div, opSum()})
	run("three", "f64", [][]int{{2}}, core, 3, []float64{0, -1, huge, nan}, all)
	if c.Thorough {
		run("two2", "f64", [][]int{{2, 2}, {2, 2}}, cat(u, b, st), 2, []float64{0, -1, huge, inf, nan}, all)
		run("threex", "f64", [][]int{{2, 2}}, cat(uops("Neg", "Exp", "Log", "Sqrt", "Square"), b, []*Op{opSum(), opSum(0), opTranspose(1, 0)}), 3, []float64{0, -1, huge, inf}, all)
		run("four", "f64", [][]int{{2}}, core, 4, []float64{0, -1, nan}, all)
	}
}

// randomWatch: a random node with an exceptional parameter, whose value only
// a comparison uses. first: the node is the first of its graph.
func randomWatch(t *T, mean float64, shape []int, first bool, kind int) {
	for w := 0; w < 4; w++ {
		g := G.NewGraph()
		var r, x *G.Node
		mk := func() { r = G.GaussianRandomNode(g, G.Float64, mean, 1, shape...) }
		if first {
			mk()
		}
		x = newBoundInput(g, "x", genRT("f64", 1, 1, shape...))
		if !first {
			mk()
		}
		G.Must(G.Gt(r, x, false))
		var opts []G.VMOpt
		if w&1 != 0 {
			opts = append(opts, G.WithNaNWatch())
		}
		if w&2 != 0 {
			opts = append(opts, G.WithInfWatch())
		}
		m := (&watchNet{g: g}).machine(kind, opts...)
		err := m.RunAll()
		closeVM(m)
		t.Trace(1)
		t.Trans(2)
		t.State("random", mean, fmt.Sprint(shape), first, kind)
		if want := w&1 != 0 && math.IsNaN(mean) || w&2 != 0 && math.IsInf(mean, 0); want != (err != nil) {
			t.Failf("watch %d: %v, want an error: %v", w, err, want)
		}
	}
}
