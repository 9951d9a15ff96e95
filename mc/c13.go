package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
)

func init() {
	register(&Check{ID: "C13", Run: runC13, Procs: 1,
		Rule: "states: distinct reference results and (running statistics, mode, data) states; transitions: operations and history events; traces: executions compared; masks: dropout masks seen, all of them are required"})
}

// opSparsemax is the Euclidean projection of every slice along the axis onto
// the probability simplex.
func opSparsemax(axes ...int) *Op {
	return &Op{Name: fmt.Sprintf("Sparsemax(%s)", axesName(axes)), N: 1,
		Ref: func(in []*RT) (*RT, error) {
			a := in[0]
			if a.isScalar() {
				return nil, errNA
			}
			ax := len(a.Shape) - 1
			if len(axes) > 0 && axes[0] != -1 {
				ax = axes[0]
			}
			if ax >= len(a.Shape) {
				return nil, errNA
			}
			r := newRT(a.DT, a.Shape...)
			str := strides(a.Shape)[ax]
			bad := false
			eachIdx(a.Shape, func(x []int, at int) {
				if x[ax] != 0 {
					return
				}
				n := a.Shape[ax]
				z := make([]Dual, n)
				for k := range z {
					z[k] = a.D[at+k*str]
				}
				sort.SliceStable(z, func(i, j int) bool { return z[i].V > z[j].V })
				var tau, sum Dual
				for k := range z {
					sum = dAdd(sum, z[k])
					edge := 1 + float64(k+1)*z[k].V - sum.V
					if math.Abs(edge) < 1e-4 {
						bad = true // on the edge of the support
					}
					if edge > 0 {
						tau = dScale(dSub(sum, cst(1)), 1/float64(k+1))
					}
				}
				for k := 0; k < n; k++ {
					if d := dSub(a.D[at+k*str], tau); d.V > 0 {
						r.D[at+k*str] = d
					}
				}
			})
			if bad {
				return nil, errNA
			}
			return r, nil
		},
		Build: func(in []*G.Node) (*G.Node, error) { return G.Sparsemax(in[0], cp(axes)...) }}
}

// bnStats are the mean, the biased and the unbiased variance per channel.
func bnStats(x *RT) (mean, biased, unbiased []Dual) {
	b, c := x.Shape[0], x.Shape[1]
	sp := len(x.D) / (b * c)
	n := float64(b * sp)
	for ch := 0; ch < c; ch++ {
		var s, q Dual
		each := func(f func(Dual)) {
			for i := 0; i < b; i++ {
				for d := 0; d < sp; d++ {
					f(x.D[(i*c+ch)*sp+d])
				}
			}
		}
		each(func(v Dual) { s = dAdd(s, v) })
		m := dScale(s, 1/n)
		each(func(v Dual) { e := dSub(v, m); q = dAdd(q, dMul(e, e)) })
		mean = append(mean, m)
		biased = append(biased, dScale(q, 1/n))
		unbiased = append(unbiased, dScale(q, 1/(n-1)))
	}
	return
}

// bnApply normalises x with the given statistics.
func bnApply(x, scale, bias *RT, mean, variance []Dual, eps float64) (*RT, error) {
	c := x.Shape[1]
	sp := len(x.D) / (x.Shape[0] * c)
	r := newRT(x.DT, x.Shape...)
	for i := range r.D {
		ch := i / sp % c
		v := dAdd(variance[ch], cst(eps))
		s := math.Sqrt(v.V)
		inv := Dual{1 / s, -v.D / (2 * s * v.V)}
		r.D[i] = dMul(dSub(x.D[i], mean[ch]), inv)
	}
	y, err := zip2(bcTo(scale, r.Shape), r, dMul)
	if err != nil {
		return nil, err
	}
	return zip2(y, bcTo(bias, r.Shape), dAdd)
}

// bcTo repeats the axes of extent one.
func bcTo(a *RT, to []int) *RT {
	if sameShape(a.Shape, to) {
		return a
	}
	r := newRT(a.DT, to...)
	str := strides(a.Shape)
	eachIdx(to, func(x []int, at int) {
		o := 0
		for i := range x {
			if a.Shape[i] > 1 {
				o += x[i] * str[i]
			}
		}
		r.D[at] = a.D[o]
	})
	return r
}

// opBatchNorm is batch normalisation while training.
func opBatchNorm(momentum, eps float64) *Op {
	return &Op{Name: fmt.Sprintf("BatchNorm(%v,%v)", momentum, eps), N: 3,
		Ref: func(in []*RT) (*RT, error) {
			x := in[0]
			if len(x.Shape) != 2 && len(x.Shape) != 4 || len(in[1].Shape) != len(x.Shape) {
				return nil, errNA
			}
			if len(x.D)/x.Shape[1] < 2 {
				return nil, errNA // a single element has no variance
			}
			mean, biased, _ := bnStats(x)
			return bnApply(x, in[1], in[2], mean, biased, eps)
		},
		Build: func(in []*G.Node) (*G.Node, error) {
			y, _, _, _, err := G.BatchNorm(in[0], in[1], in[2], momentum, eps)
			return y, err
		}}
}

// opKeepAll is dropout that drops nothing.
func opKeepAll() *Op {
	return &Op{Name: "Dropout(0)", N: 1, NoD: true, NoAD: true,
		Ref: func(in []*RT) (*RT, error) {
			if in[0].isScalar() {
				return nil, errNA
			}
			return in[0].clone(), nil
		},
		Build: func(in []*G.Node) (*G.Node, error) { return G.Dropout(in[0], 0) }}
}

func runC13(c *Ctx) {
	nd, ext := 3, []int{1, 2, 3}
	if c.Thorough {
		nd = 4
	}
	scaled := func(t *RT, k float64) *RT {
		r := t.clone()
		for i := range r.D {
			r.D[i].V = float64(float32(r.D[i].V * k))
		}
		return r
	}
	shapes := shapesUpTo(nd, ext...)
	if !c.Thorough {
		shapes = append(shapes, shapesOf(4, 1, 2)...)
	}
	for _, sh := range shapes {
		for _, dt := range []string{"f64", "f32"} {
			for ax := -1; ax < len(sh); ax++ {
				for _, l := range []bool{false, true} {
					suite(c, "softmax", opSoftmax(ax, l), []*RT{genRT(dt, 1, 1, sh...)}, "frgv")
					suite(c, "softmaxbig", opSoftmax(ax, l), []*RT{scaled(genRT(dt, 1, 2, sh...), 400)}, "f")
					suite(c, "softmaxsmall", opSoftmax(ax, l), []*RT{scaled(genRT(dt, 1, 2, sh...), 1e-3)}, "fg")
				}
				for _, k := range []float64{0.3, 1, 4} {
					suite(c, "sparsemax", opSparsemax(ax), []*RT{scaled(genRT(dt, 1, 3, sh...), k)}, "frgv")
				}
			}
			suite(c, "sparsemax", opSparsemax(), []*RT{genRT(dt, 1, 4, sh...)}, "fg")
		}
	}
	// two normalisations of one operand along different axes
	for _, sh := range [][]int{{2, 2}, {2, 3}, {2, 2, 2}} {
		var ops []*Op
		for ax := -1; ax < len(sh); ax++ {
			ops = append(ops, opSoftmax(ax, false), opSoftmax(ax, true), opSparsemax(ax))
		}
		pairsOf(c, "pair", ops, []*RT{genRT("f64", 1, 1, sh...)})
	}
	batchnorm(c)
	dropout(c)
}

// pairsOf applies two operations to the same operands and multiplies the
// results, and applies one after the other.
func pairsOf(c *Ctx, tag string, ops []*Op, ins []*RT) {
	name := func(p *Prog, what string) func() string {
		return func() string { return fmt.Sprintf("%s|%s|%s", tag, p.String(), what) }
	}
	run := func(p *Prog) {
		c.Case(name(p, "tape"), func(t *T) { tapeCase(t, p, 0) })
		c.Case(name(p, "lisp"), func(t *T) { lispCase(t, p, false, 0) })
		suiteGrad(c, p, name)
	}
	base := &Prog{DT: ins[0].DT, NIn: len(ins), Vals: ins}
	n := len(ins)
	args := func(first int) []int {
		a := []int{first}
		for i := 1; i < n; i++ {
			a = append(a, i)
		}
		return a
	}
	for _, a := range ops {
		p1 := extend(base, a, args(0)...)
		if p1 == nil {
			continue
		}
		if q := extend(p1, bops("Add")[0], n, 0); q != nil {
			run(q)
		}
		for _, b := range ops {
			if q := extend(p1, b, args(0)...); q != nil {
				if q = extend(q, bops("Prod")[0], n, n+1); q != nil {
					run(q)
				}
			}
			if q := extend(p1, b, args(n)...); q != nil {
				run(q)
			}
		}
	}
}

func extend(p *Prog, op *Op, args ...int) *Prog {
	in := make([]*RT, len(args))
	for i, a := range args {
		in[i] = p.Vals[a]
	}
	r, err := op.Ref(in)
	if err != nil {
		return nil
	}
	q := &Prog{DT: p.DT, NIn: p.NIn, Vals: append(append([]*RT{}, p.Vals...), r)}
	q.Instrs = append(append([]Instr{}, p.Instrs...), Instr{op, args})
	return q
}

func batchnorm(c *Ctx) {
	shapes := append(shapesOf(2, 1, 2, 3), shapesOf(4, 1, 2)...)
	shapes = append(shapes, []int{2, 3, 1, 2}, []int{3, 2, 2, 1}, []int{2, 2, 3, 2}, []int{4, 2}, []int{2, 4})
	if c.Thorough {
		shapes = append(shapes, shapesOf(4, 1, 2, 3)...)
	}
	for _, sh := range shapes {
		for _, dt := range []string{"f64", "f32"} {
			per := []int{1, sh[1]}
			if len(sh) == 4 {
				per = []int{1, sh[1], 1, 1}
			}
			for _, eps := range []float64{0.5, 0.01} {
				for _, ss := range [][]int{sh, per} {
					ins := []*RT{genRT(dt, 1, 1, sh...), genRT(dt, 1, 2, ss...), genRT(dt, 1, 3, ss...)}
					suite(c, "bn", opBatchNorm(0.9, eps), ins, "frgv")
				}
			}
		}
	}
	ops := []*Op{opBatchNorm(0.9, 0.5), opBatchNorm(0.9, 0.52), opBatchNorm(0.9, 0.01)}
	for _, sh := range [][]int{{3, 2}, {2, 2, 1, 2}} {
		pairsOf(c, "bnpair", ops, []*RT{genRT("f64", 1, 1, sh...), genRT("f64", 1, 2, sh...), genRT("f64", 1, 3, sh...)})
	}
	// histories
	depth := 4
	if c.Thorough {
		depth = 5
	}
	for _, sh := range [][]int{{3, 2}, {2, 2, 1, 2}} {
		for _, dt := range []string{"f64", "f32"} {
			for _, mom := range []float64{0.9, 0.25} {
				for kind := 0; kind < 2; kind++ {
					var rec func(h string)
					rec = func(h string) {
						if len(h) > 1 && h[len(h)-1] == 'r' {
							sh, dt, mom, kind, h := sh, dt, mom, kind, h
							c.Case(func() string {
								return fmt.Sprintf("bnhist|%s|%v|%v|%s|%s", dt, sh, mom, []string{"tape", "lisp"}[kind], h)
							}, func(t *T) { bnHist(t, dt, sh, mom, kind, h) })
						}
						if len(h) == depth+1 {
							return
						}
						for _, e := range "rltesxTE" {
							if strings.ContainsRune("ltexTE", e) && h[len(h)-1] == byte(e) {
								continue
							}
							rec(h + string(e))
						}
					}
					rec("T")
					rec("sE")
				}
			}
		}
	}
}

// bnHist: r run, l bind other data, t/e switch the operation to training or
// evaluation, s set statistics, x reset the operation, T/E new machine that
// trains or evaluates.
func bnHist(t *T, dt string, sh []int, mom float64, kind int, h string) {
	const eps = 0.3
	data := []*RT{genRT(dt, 1, 1, sh...), genRT(dt, 1, 5, sh...)}
	for i := range data[1].D {
		data[1].D[i].V = data[1].D[i].V*2 + 1
	}
	scale, bias := genRT(dt, 1, 2, sh...), genRT(dt, 1, 3, sh...)
	w := genRT(dt, 2, 9, sh...)
	g := G.NewGraph()
	xn, sn, bn := newBoundInput(g, "x", data[0]), newBoundInput(g, "s", scale), newBoundInput(g, "b", bias)
	y, _, _, op, err := G.BatchNorm(xn, sn, bn, mom, eps)
	if err != nil {
		t.Failf("build: %v", err)
	}
	wn := g.AddNode(G.NewConstant(goVal(w), G.WithName("w")))
	cost := G.Must(G.Sum(G.Must(G.HadamardProd(y, wn))))
	var grads G.Nodes
	if kind == 0 {
		if grads, err = G.Grad(cost, xn, sn, bn); err != nil {
			t.Failf("grad: %v", err)
		}
	}
	ch := sh[1]
	mean, variance := make([]Dual, ch), make([]Dual, ch)
	known := false // statistics before the first reset are not specified
	reset := func() {
		for i := range mean {
			mean[i], variance[i] = cst(0), cst(1)
		}
		known = true
	}
	training, cur, moved := true, 0, false
	var m G.VM
	defer func() {
		if m != nil {
			closeVM(m)
		}
	}()
	tol := tolFor(dt, 20)
	stats := func(when string) {
		rm, rv := op.Stats()
		for i, s := range []tensor.Tensor{rm, rv} {
			want := newRT(dt, ch)
			copy(want.D, [][]Dual{mean, variance}[i])
			if d := diffValue(s, want, tol); d != "" {
				t.Failf("%s: running %s: %s", when, []string{"mean", "variance"}[i], d)
			}
		}
	}
	for k := 0; k < len(h); k++ {
		when := fmt.Sprintf("event %d (%c)", k, h[k])
		switch h[k] {
		case 'T', 'E':
			if m != nil {
				closeVM(m)
				m = nil
			}
			var opts []G.VMOpt
			if h[k] == 'E' {
				opts = append(opts, G.EvalMode())
				training = false
			} else {
				reset()
				training = true
			}
			if kind == 0 {
				m = G.NewTapeMachine(g, opts...)
			} else {
				m = G.NewLispMachine(g, opts...)
			}
			moved = false
		case 't':
			if err := op.SetTraining(true); err != nil {
				t.Failf("%s: %v", when, err)
			}
			reset()
			training = true
		case 'e':
			if err := op.SetTraining(false); err != nil {
				t.Failf("%s: %v", when, err)
			}
			training = false
		case 'x':
			if err := op.Reset(); err != nil {
				t.Failf("%s: %v", when, err)
			}
			reset()
		case 's':
			rm, rv := newRT(dt, ch), newRT(dt, ch)
			for i := range mean {
				rm.D[i], rv.D[i] = cst(0.25*float64(i+1)), cst(0.5+0.75*float64(i))
			}
			if err := op.SetStats(goVal(rm).(tensor.Tensor), goVal(rv).(tensor.Tensor)); err != nil {
				t.Failf("%s: %v", when, err)
			}
			copy(mean, rm.D)
			copy(variance, rv.D)
			known = true
		case 'l':
			cur = 1 - cur
			if err := G.Let(xn, goVal(data[cur])); err != nil {
				t.Failf("%s: %v", when, err)
			}
		case 'r':
			if moved {
				m.Reset()
			}
			moved = true
			if err := m.RunAll(); err != nil {
				t.Failf("%s: %v", when, err)
			}
			t.Trace(1)
			eval := func(x, s, b *RT) (*RT, error) {
				if training {
					bm, bv, _ := bnStats(x)
					return bnApply(x, s, b, bm, bv, eps)
				}
				return bnApply(x, s, b, mean, variance, eps)
			}
			want, err := eval(data[cur], scale, bias)
			if err != nil {
				panic(err)
			}
			if d := diffValue(y.Value(), want, tol); d != "" {
				t.Failf("%s: %s", when, d)
			}
			ins := []*RT{data[cur], scale, bias}
			for v, n := range []*G.Node{xn, sn, bn} {
				wg := newRT(dt, sh...)
				for e := range wg.D {
					a := []*RT{ins[0], ins[1], ins[2]}
					a[v] = a[v].clone()
					a[v].D[e].D = 1
					r, _ := eval(a[0], a[1], a[2])
					wg.D[e] = cst(costDual(r, w).D)
				}
				var got G.Value
				if kind == 0 {
					got = grads[v].Value()
				} else if got, err = n.Grad(); err != nil {
					t.Failf("%s: gradient %d: %v", when, v, err)
				}
				if d := diffValue(got, wg, gradTol(dt, 20)); d != "" {
					t.Failf("%s: gradient by %s: %s", when, n.Name(), d)
				}
			}
			if kind == 1 {
				if err := G.NewVanillaSolver(G.WithLearnRate(0)).Step(G.NodesToValueGrads(G.Nodes{xn, sn, bn})); err != nil {
					t.Failf("solver: %v", err)
				}
			}
			if training {
				bm, _, uv := bnStats(data[cur])
				for i := range mean {
					mean[i] = cst(mom*bm[i].V + (1-mom)*mean[i].V)
					variance[i] = cst(mom*uv[i].V + (1-mom)*variance[i].V)
				}
			}
		}
		t.Trans(1)
		if known {
			stats(when)
		}
		st := newRT(dt, 2*ch+2)
		copy(st.D, append(append([]Dual{}, mean...), variance...))
		st.D[2*ch].V = float64(cur)
		if training {
			st.D[2*ch+1].V = 1
		}
		t.State(st)
	}
}

func dropout(c *Ctx) {
	for _, dt := range []string{"f64", "f32"} {
		for _, sh := range [][]int{{1}, {2}, {4}, {2, 2}, {1, 2, 2}, {1, 2, 1, 2}} {
			for _, p := range []float64{0.5, 0.2, 0.75} {
				for kind := 0; kind < 4; kind++ {
					dt, sh, p, kind := dt, sh, p, kind
					c.Case(func() string { return fmt.Sprintf("mask|%s|%v|p=%v|%s", dt, sh, p, kindName[kind]) },
						func(t *T) { dropMasks(t, dt, sh, p, kind, false) })
				}
			}
			for kind := 0; kind < 4; kind++ {
				for _, p := range []float64{0, 0.5, 0.2} {
					dt, sh, p, kind := dt, sh, p, kind
					c.Case(func() string { return fmt.Sprintf("eval|%s|%v|p=%v|%s", dt, sh, p, kindName[kind]) },
						func(t *T) { dropEval(t, dt, sh, p, kind) })
				}
			}
			suite(c, "keepall", opKeepAll(), []*RT{genRT(dt, 1, 1, sh...)}, "frv")
			p1, _ := single(opKeepAll(), []*RT{genRT(dt, 1, 1, sh...)})
			for _, u := range append(uops("Neg", "Exp", "Square", "Sigmoid", "Tanh"), opSum(), opReshape(len(p1.Vals[0].D))) {
				q := extend(p1, u, 1)
				if q == nil {
					continue
				}
				for _, kind := range []int{kTape, kLispFwd} {
					kind := kind
					c.Case(func() string { return fmt.Sprintf("keepall|%s|owned-%s", q.String(), kindName[kind]) },
						func(t *T) { ownedCase(t, q, kind, 0, 2) })
				}
			}
		}
	}
	// the factor of the gradient where it is not one half: known
	for _, kind := range []int{kTapeGrad, kLisp} {
		for _, p := range []float64{0.2, 0.75} {
			kind, p := kind, p
			c.Case(func() string { return fmt.Sprintf("gradscale|f64|[4]|p=%v|%s", p, kindName[kind]) },
				func(t *T) { dropMasks(t, "f64", []int{4}, p, kind, true) })
		}
	}
	// modes
	var rec func(h string)
	rec = func(h string) {
		if h[len(h)-1] == 'r' {
			for kind := 0; kind < 4; kind++ {
				kind := kind
				c.Case(func() string { return fmt.Sprintf("drophist|%s|%s", kindName[kind], h) }, func(t *T) { dropHist(t, kind, h) })
			}
		}
		if len(h) == 6 {
			return
		}
		for _, e := range "rlTE" {
			rec(h + string(e))
		}
	}
	rec("T")
	rec("E")
}

type dropNet struct {
	x, y  *G.Node
	grad  *G.Node
	m     G.VM
	g     *G.ExprGraph
	kind  int
	moved bool
	w     *RT
}

func newDropNet(t *T, in *RT, p float64, kind int) *dropNet {
	d := &dropNet{g: G.NewGraph(), kind: kind, w: genRT(in.DT, 2, 9, in.Shape...)}
	d.x = newBoundInput(d.g, "x", in)
	var err error
	if d.y, err = G.Dropout(d.x, p); err != nil {
		t.Failf("build: %v", err)
	}
	if kind == kTapeGrad || kind == kLisp {
		wn := d.g.AddNode(G.NewConstant(goVal(d.w), G.WithName("w")))
		cost := G.Must(G.Sum(G.Must(G.HadamardProd(d.y, wn))))
		if kind == kTapeGrad {
			gs, err := G.Grad(cost, d.x)
			if err != nil {
				t.Failf("grad: %v", err)
			}
			d.grad = gs[0]
		}
	}
	return d
}

func (d *dropNet) machine(eval bool) {
	if d.m != nil {
		closeVM(d.m)
	}
	var opts []G.VMOpt
	if eval {
		opts = append(opts, G.EvalMode())
	}
	switch d.kind {
	case kTape, kTapeGrad:
		d.m = G.NewTapeMachine(d.g, opts...)
	case kLispFwd:
		d.m = G.NewLispMachine(d.g, append(opts, G.ExecuteFwdOnly())...)
	default:
		d.m = G.NewLispMachine(d.g, opts...)
	}
	d.moved = false
}

// run gives the output and, where there is one, the gradient.
func (d *dropNet) run(t *T) (y, grad *RT) {
	if d.moved {
		d.m.Reset()
	}
	d.moved = true
	if err := d.m.RunAll(); err != nil {
		t.Failf("run: %v", err)
	}
	t.Trace(1)
	y, err := readValue(d.y.Value())
	if err != nil {
		t.Failf("output: %v", err)
	}
	var gv G.Value
	switch d.kind {
	case kTapeGrad:
		gv = d.grad.Value()
	case kLisp:
		if gv, err = d.x.Grad(); err != nil {
			t.Failf("gradient: %v", err)
		}
	default:
		return y, nil
	}
	if grad, err = readValue(gv); err != nil {
		t.Failf("gradient: %v", err)
	}
	if d.kind == kLisp {
		if err := G.NewVanillaSolver(G.WithLearnRate(0)).Step(G.NodesToValueGrads(G.Nodes{d.x})); err != nil {
			t.Failf("solver: %v", err)
		}
	}
	return
}

// checkMask compares one training run and gives the mask of kept elements.
func (d *dropNet) checkMask(t *T, in, y, grad *RT, p float64, factor bool) int {
	if !sameShape(y.Shape, in.Shape) {
		t.Failf("shape %v, want %v", y.Shape, in.Shape)
	}
	mask := 0
	tol := tolFor(in.DT, 10)
	for i := range in.D {
		if y.D[i].V != 0 {
			mask |= 1 << i
			if !close1(y.D[i].V, in.D[i].V/(1-p), tol) {
				t.Failf("surviving element %d is %v, want %v", i, y.D[i].V, in.D[i].V/(1-p))
			}
		}
		if grad != nil {
			if (grad.D[i].V != 0) != (y.D[i].V != 0) {
				t.Failf("gradient %v does not follow the mask of %v", grad.vals(), y.vals())
			}
			if want := d.w.D[i].V / (1 - p); mask>>i&1 == 1 && (factor || p == 0.5) && !close1(grad.D[i].V, want, tol) {
				t.Failf("gradient of element %d is off: %v, want %v", i, grad.D[i].V, want)
			}
		}
	}
	return mask
}

// dropMasks runs until every mask was seen.
func dropMasks(t *T, dt string, sh []int, p float64, kind int, factor bool) {
	in := genRT(dt, 1, 1, sh...)
	d := newDropNet(t, in, p, kind)
	d.machine(false)
	defer func() { closeVM(d.m) }()
	seen := map[int]bool{}
	for n := 0; len(seen) < 1<<len(in.D); n++ {
		if n > 50000 {
			t.Failf("of %d masks only %d occur", 1<<len(in.D), len(seen))
		}
		y, grad := d.run(t)
		m := d.checkMask(t, in, y, grad, p, factor)
		if !seen[m] {
			seen[m] = true
			st := newRT(dt, len(in.D)+1)
			for i := range in.D {
				st.D[i].V = y.D[i].V
			}
			st.D[len(in.D)].V = p
			t.State(st)
			t.Trans(1)
		}
	}
	t.Count("masks", len(seen))
}

// dropEval: the identity, and its derivative.
func dropEval(t *T, dt string, sh []int, p float64, kind int) {
	in := genRT(dt, 1, 1, sh...)
	d := newDropNet(t, in, p, kind)
	d.machine(true)
	defer func() { closeVM(d.m) }()
	for r := 0; r < 3; r++ {
		d.checkEval(t, in, kind)
	}
}

func (d *dropNet) checkEval(t *T, in *RT, kind int) {
	y, grad := d.run(t)
	if e := diffRT(y, in, 0); e != "" {
		t.Failf("evaluating: %s", e)
	}
	if grad != nil {
		if e := diffRT(grad, d.w, 0); e != "" {
			t.Failf("evaluating: gradient: %s", e)
		}
	}
	if e := diffValue(d.x.Value(), in, 0); e != "" {
		t.Failf("evaluating changed the operand: %s", e)
	}
	t.Trans(1)
}

func dropHist(t *T, kind int, h string) {
	data := []*RT{genRT("f64", 1, 1, 3), genRT("f64", 1, 2, 3)}
	d := newDropNet(t, data[0], 0.5, kind)
	defer func() { closeVM(d.m) }()
	eval, cur := false, 0
	for _, e := range h {
		switch e {
		case 'T', 'E':
			eval = e == 'E'
			d.machine(eval)
		case 'l':
			cur = 1 - cur
			if err := G.Let(d.x, goVal(data[cur])); err != nil {
				t.Failf("let: %v", err)
			}
		default:
			if eval {
				d.checkEval(t, data[cur], kind)
				continue
			}
			y, grad := d.run(t)
			d.checkMask(t, data[cur], y, grad, 0.5, true)
			t.Trans(1)
		}
	}
}
