package main

// C20: a failing operation is reported and leaves the machine reusable.

import (
	"errors"
	"fmt"
	"hash"
	"hash/fnv"

	"github.com/chewxy/hm"
	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
)

func init() {
	register(&Check{ID: "C20", Run: runC20, Procs: 2, HangSec: 60,
		Rule: "A case is a program, a machine and a sequence of runs, each with one point of the program (an operation forwards, one of its derivatives backwards, an input without a value) that fails or none; every sequence within the bound is executed on one machine with a reset in between. states: (program, machine, faults so far) visited; transitions: operations attempted; traces: runs compared with the reference."})
}

var errPlanned = errors.New("planned failure")

// faults says which point fails in the current run.
type faults struct {
	fwd, bwd   int // instruction, -1 none; bwd*4+operand on the way back
	tried      []int
	okFwd      []int
	triedB     []int
	afterInner bool // fail after the derivative has been computed
}

func (f *faults) reset(n int) {
	f.fwd, f.bwd = -1, -1
	f.tried, f.okFwd, f.triedB = make([]int, n), make([]int, n), make([]int, n*4)
}

// mayFail delegates every way of executing an operation.
type mayFail struct {
	G.Op
	i int
	f *faults
}

func (o *mayFail) gate() error {
	o.f.tried[o.i]++
	if o.f.fwd == o.i {
		return errPlanned
	}
	o.f.okFwd[o.i]++
	return nil
}
func (o *mayFail) Do(vs ...G.Value) (G.Value, error) {
	if err := o.gate(); err != nil {
		return nil, err
	}
	return o.Op.Do(vs...)
}
func (o *mayFail) UsePreallocDo(pre G.Value, vs ...G.Value) (G.Value, error) {
	if err := o.gate(); err != nil {
		return nil, err
	}
	if d, ok := o.Op.(G.UsePreallocDoer); ok {
		return d.UsePreallocDo(pre, vs...)
	}
	return o.Op.Do(vs...)
}
func (o *mayFail) UnsafeDo(vs ...G.Value) (G.Value, error) {
	if err := o.gate(); err != nil {
		return nil, err
	}
	if d, ok := o.Op.(G.UnsafeDoer); ok {
		return d.UnsafeDo(vs...)
	}
	return o.Op.Do(vs...)
}
func (o *mayFail) DiffWRT(n int) []bool { return o.Op.(G.SDOp).DiffWRT(n) }
func (o *mayFail) SymDiff(in G.Nodes, out, grad *G.Node) (G.Nodes, error) {
	r, err := o.Op.(G.SDOp).SymDiff(in, out, grad)
	if err != nil {
		return nil, err
	}
	for j, n := range r {
		if n != nil {
			if r[j], err = G.ApplyOp(&passOp{o.i*4 + j, n.Dims(), o.f}, n); err != nil {
				return nil, err
			}
		}
	}
	return r, nil
}
func (o *mayFail) DoDiff(ctx G.ExecutionContext, in G.Nodes, out *G.Node) error {
	o.f.triedB[o.i*4]++
	fail := o.f.bwd == o.i*4
	if fail && !o.f.afterInner {
		return errPlanned
	}
	if err := o.Op.(G.ADOp).DoDiff(ctx, in, out); err != nil {
		return err
	}
	if fail {
		return errPlanned
	}
	return nil
}
func (o *mayFail) String() string        { return fmt.Sprintf("mayfail%d %v", o.i, o.Op) }
func (o *mayFail) WriteHash(h hash.Hash) { fmt.Fprintf(h, "mayfail%d", o.i); o.Op.WriteHash(h) }
func (o *mayFail) Hashcode() uint32 {
	h := fnv.New32a()
	o.WriteHash(h)
	return h.Sum32()
}

// passOp hands a derivative on.
type passOp struct {
	k, dims int
	f       *faults
}

func (o *passOp) Arity() int { return 1 }
func (o *passOp) Type() hm.Type {
	a := hm.TypeVariable('a')
	return hm.NewFnType(a, a)
}
func (o *passOp) InferShape(in ...G.DimSizer) (tensor.Shape, error) {
	return in[0].(tensor.Shape).Clone(), nil
}
func (o *passOp) Do(vs ...G.Value) (G.Value, error) {
	o.f.triedB[o.k]++
	if o.f.bwd == o.k {
		return nil, errPlanned
	}
	return G.CloneValue(vs[0])
}
func (o *passOp) ReturnsPtr() bool      { return false }
func (o *passOp) CallsExtern() bool     { return false }
func (o *passOp) OverwritesInput() int  { return -1 }
func (o *passOp) String() string        { return fmt.Sprintf("pass%d", o.k) }
func (o *passOp) WriteHash(h hash.Hash) { fmt.Fprintf(h, "pass%d", o.k) }
func (o *passOp) Hashcode() uint32 {
	h := fnv.New32a()
	o.WriteHash(h)
	return h.Sum32()
}

// A fault: kind 'f' forward at instruction at, 'b' backward, 'a' backward but
// after the derivative, 'u' input at unbound, 'n' none.
type fault struct {
	kind byte
	at   int
}

func (f fault) String() string {
	if f.kind == 'n' {
		return "ok"
	}
	return fmt.Sprintf("%c%d", f.kind, f.at)
}

type failNet struct {
	p     *Prog
	kind  int
	f     *faults
	g     *G.ExprGraph
	nodes []*G.Node
	reads []G.Value
	xs    G.Nodes
	xi    []int
	grads []G.Value
	m     G.VM
}

func newFailNet(t *T, p *Prog, kind int) *failNet {
	s := &failNet{p: p, kind: kind, f: &faults{}, g: G.NewGraph()}
	s.f.reset(len(p.Instrs))
	grad := kind == kTapeGrad || kind == kLisp
	used := p.reach(len(p.Vals) - 1)
	for i := 0; i < p.NIn; i++ {
		if grad && !used[i] {
			s.nodes = append(s.nodes, nil)
			continue
		}
		s.nodes = append(s.nodes, newInput(s.g, inNames[i], p.Vals[i]))
	}
	for i, in := range p.Instrs {
		var args, scratch []*G.Node
		sg := G.NewGraph()
		for j, a := range in.Args {
			args = append(args, s.nodes[a])
			scratch = append(scratch, newInput(sg, fmt.Sprint("s", j), p.Vals[a]))
		}
		sn, err := in.Op.Build(scratch)
		if err != nil {
			t.Failf("build: %v", err)
		}
		// the operands in the order the operation takes them
		if len(sg.AllNodes()) != len(scratch)+1 {
			t.Count("composite", 1) // not one operation
			return nil
		}
		order := map[int64]*G.Node{}
		for j, n := range scratch {
			order[n.ID()] = args[j]
		}
		args = args[:0:0]
		for it := sg.From(sn.ID()); it.Next(); {
			args = append(args, order[it.Node().ID()])
		}
		n, err := G.ApplyOp(&mayFail{sn.Op(), i, s.f}, args...)
		if err != nil {
			t.Failf("build: %v", err)
		}
		s.nodes = append(s.nodes, n)
	}
	s.reads = make([]G.Value, len(s.nodes))
	var cost *G.Node
	if grad {
		var err error
		if cost, err = p.buildCost(s.g, s.nodes); err != nil {
			t.Failf("cost: %v", err)
		}
		for i := 0; i < p.NIn; i++ {
			if used[i] {
				s.xs = append(s.xs, s.nodes[i])
				s.xi = append(s.xi, i)
			}
		}
	}
	if kind == kTapeGrad {
		gs, err := G.Grad(cost, s.xs...)
		if err != nil {
			t.Failf("Grad: %v", err)
		}
		s.grads = make([]G.Value, len(gs))
		for k, n := range gs {
			G.Read(n, &s.grads[k])
		}
	}
	for i := p.NIn; i < len(s.nodes); i++ {
		G.Read(s.nodes[i], &s.reads[i])
	}
	switch kind {
	case kTape:
		s.m = G.NewTapeMachine(s.g)
	case kTapeGrad:
		s.m = G.NewTapeMachine(s.g, G.BindDualValues(s.xs...))
	case kLispFwd:
		s.m = G.NewLispMachine(s.g, G.ExecuteFwdOnly())
	default:
		s.m = G.NewLispMachine(s.g)
	}
	return s
}

// depends tells which values depend on value v.
func (p *Prog) depends(v int) []bool {
	d := make([]bool, len(p.Vals))
	d[v] = true
	for i, in := range p.Instrs {
		for _, a := range in.Args {
			d[p.NIn+i] = d[p.NIn+i] || d[a]
		}
	}
	return d
}

func failCase(t *T, p *Prog, kind int, hist []fault) {
	s := newFailNet(t, p, kind)
	if s == nil {
		return
	}
	defer closeVM(s.m)
	name := ""
	ranBefore := false
	bound := map[int]bool{}
	for r, fl := range hist {
		// the data of the run
		ins := make([]*RT, p.NIn)
		for i := range ins {
			ins[i] = p.Vals[i]
			if r%2 == 1 {
				ins[i] = genRT(p.Vals[i].DT, 2, 31+i, p.Vals[i].Shape...)
			}
		}
		vals, err := p.eval(ins)
		if err != nil {
			t.Count("outside_domain", 1)
			return
		}
		q := &Prog{DT: p.DT, NIn: p.NIn, Instrs: p.Instrs, Vals: vals}
		for _, v := range vals {
			if !v.finite(1e3) {
				t.Count("outside_domain", 1)
				return
			}
		}
		scale := q.scale()
		if r > 0 {
			s.m.Reset()
		}
		for i := range ins {
			if s.nodes[i] == nil || fl.kind == 'u' && fl.at == i {
				continue
			}
			if err := G.Let(s.nodes[i], goVal(ins[i])); err != nil {
				t.Failf("run %d: binding input %d: %v", r, i, err)
			}
			bound[i] = true
		}
		before := make([]*RT, len(s.xi))
		for k, i := range s.xi {
			before[k] = newRT(p.DT, p.Vals[i].Shape...)
			if ranBefore {
				if gv, err := s.nodes[i].Grad(); err == nil && gv != nil {
					if b, err := readValue(gv); err == nil {
						before[k] = b
					}
				}
			}
		}
		for i := range s.reads {
			s.reads[i] = nil
		}
		for k := range s.grads {
			s.grads[k] = nil
		}
		s.f.reset(len(p.Instrs))
		bad := -1 // value that must not be delivered
		switch fl.kind {
		case 'f':
			s.f.fwd = fl.at
			bad = p.NIn + fl.at
		case 'b', 'a':
			s.f.bwd = fl.at
			s.f.afterInner = fl.kind == 'a'
		case 'u':
			bad = fl.at
		}
		err = s.m.RunAll()
		ranBefore = true
		name += fl.String() + ","
		t.State(p.String(), kind, name)
		t.Trace(1)
		for _, n := range s.f.tried {
			t.Trans(n)
		}
		for _, n := range s.f.triedB {
			t.Trans(n)
		}
		tol := tolFor(p.DT, scale)
		if fl.kind != 'n' {
			if (fl.kind == 'b' || fl.kind == 'a') && s.f.triedB[fl.at] == 0 {
				// this derivative is not needed: the run is a healthy one
				t.Count("unneeded", 1)
				return
			}
			if err == nil {
				t.Failf("run %d (%v): reported as a success", r, fl)
			}
			if fl.kind == 'f' {
				// an error that names a node names the one that failed
				if ne, ok := err.(interface{ Node() *G.Node }); ok && ne.Node() != s.nodes[bad] {
					t.Failf("run %d (%v): the error names node %v, not the failing %v", r, fl, ne.Node(), s.nodes[bad])
				}
			}
			if bad >= 0 {
				for i, d := range p.depends(bad) {
					if !d || i < p.NIn {
						continue
					}
					if s.f.okFwd[i-p.NIn] > 0 {
						t.Failf("run %d (%v): value %d was computed from a failed one", r, fl, i)
					}
					if s.reads[i] != nil {
						t.Failf("run %d (%v): a value was delivered for %d, which depends on the failed one", r, fl, i)
					}
				}
			}
			// what was delivered before the failure is right
			for i := p.NIn; i < len(s.nodes); i++ {
				if s.reads[i] != nil {
					if d := diffValue(s.reads[i], vals[i], tol); d != "" {
						t.Failf("run %d (%v): value %d delivered before the failure: %s", r, fl, i, d)
					}
				}
			}
			continue
		}
		if err != nil {
			t.Failf("run %d: %v", r, err)
		}
		for i := p.NIn; i < len(s.nodes); i++ {
			if d := diffValue(s.reads[i], vals[i], tol); d != "" {
				t.Failf("run %d: value %d: %s", r, i, d)
			}
		}
		for i := 0; i < p.NIn; i++ {
			if s.nodes[i] != nil {
				if d := diffValue(s.nodes[i].Value(), vals[i], 0); d != "" {
					t.Failf("run %d: input %d: %s", r, i, d)
				}
			}
		}
		for k, i := range s.xi {
			want, err := p.gradAt(q.plain(), i, p.weights())
			if err != nil {
				t.Count("outside_domain", 1)
				return
			}
			tg := gradTol(p.DT, scale) * (1 + want.maxAbs() + before[k].maxAbs())
			if s.grads != nil {
				if d := diffValue(s.grads[k], want, tg); d != "" {
					t.Failf("run %d: gradient of input %d: %s", r, i, d)
				}
			}
			gv, err := s.nodes[i].Grad()
			if err != nil {
				t.Failf("run %d: Grad() of input %d: %v", r, i, err)
			}
			for e := range want.D {
				want.D[e].V += before[k].D[e].V
			}
			if d := diffValue(gv, want, tg); d != "" {
				t.Failf("run %d: gradient of input %d on top of what was there: %s", r, i, d)
			}
		}
	}
}

// ctcFail is a real operation that fails because of the data: a sequence
// longer than the frames there are.
func ctcFail(t *T, kind int, hist []bool) {
	g := G.NewGraph()
	lp := genRT("f64", 1, 1, 2, 1, 2)
	x := newBoundInput(g, "x", lp)
	iv := func(n string, v ...int) *G.Node {
		return G.NewVector(g, tensor.Int, G.WithShape(len(v)), G.WithName(n), G.WithValue(tensor.New(tensor.WithShape(len(v)), tensor.WithBacking(v))))
	}
	ln := iv("ln", 2)
	loss, err := G.CTCLoss(G.Must(G.LogSoftMax(x, 2)), iv("tg", 1), ln, iv("tl", 1), G.ReductionSum)
	if err != nil {
		t.Failf("%v", err)
	}
	y := G.Must(G.Neg(loss))
	var rv G.Value
	G.Read(y, &rv)
	var m G.VM
	if kind == kLispFwd {
		m = G.NewLispMachine(g, G.ExecuteFwdOnly())
	} else {
		m = G.NewTapeMachine(g)
	}
	defer closeVM(m)
	rows := make([][]float64, 2)
	sm := softmaxRT(lp, 2, true)
	for i := range rows {
		rows[i] = []float64{sm.D[2*i].V, sm.D[2*i+1].V}
	}
	want, _, _ := ctcRef(rows, ctcSeq{2, []int{1}})
	for r, ok := range hist {
		if r > 0 {
			m.Reset()
		}
		n := 2
		if !ok {
			n = 3
		}
		rv = nil
		if err := G.Let(ln, tensor.New(tensor.WithShape(1), tensor.WithBacking([]int{n}))); err != nil {
			t.Failf("%v", err)
		}
		err := m.RunAll()
		t.Trace(1)
		t.Trans(1)
		t.State("ctc", kind, fmt.Sprint(hist[:r+1]))
		if ok != (err == nil) {
			t.Failf("run %d (healthy %v): %v", r, ok, err)
		}
		if !ok {
			if rv != nil {
				t.Failf("run %d: a value was delivered after the failure", r)
			}
			continue
		}
		if d := diffValue(rv, rtOf("f64", nil, -want), 1e-9); d != "" {
			t.Failf("run %d: %s", r, d)
		}
	}
}

func runC20(c *Ctx) {
	depth := 2 // runs before the last healthy one
	run := func(tag, dt string, ins []*RT, alpha []*Op, n int, kinds []int, depth int) {
		enumProgs(c, dt, ins, nil, alpha, n, EnumOpts{Limit: 1e3, MaxElems: 16}, func(p *Prog) {
			if !p.noDead() || len(p.Instrs) != n {
				return
			}
			for _, kind := range kinds {
				kind := kind
				grad := kind == kTapeGrad || kind == kLisp
				if grad && !p.diffable(kind == kLisp) {
					continue
				}
				pts := []fault{{'n', 0}}
				for i := range p.Instrs {
					pts = append(pts, fault{'f', i})
				}
				if grad {
					for i, in := range p.Instrs {
						if kind == kLisp {
							pts = append(pts, fault{'b', i * 4}, fault{'a', i * 4})
							continue
						}
						for j := range in.Args {
							pts = append(pts, fault{'b', i*4 + j})
						}
					}
				}
				used := p.reach(len(p.Vals) - 1)
				var rec func(h []fault)
				rec = func(h []fault) {
					if len(h) > 0 {
						full := append(append([]fault{}, h...), fault{'n', 0})
						c.Case(func() string { return fmt.Sprintf("%s|%s|%s|%v", tag, p.String(), kindName[kind], full) },
							func(t *T) { failCase(t, p, kind, full) })
					}
					if len(h) == depth {
						return
					}
					for _, f := range pts {
						rec(append(h[:len(h):len(h)], f))
					}
					if len(h) == 0 {
						for i := 0; i < p.NIn; i++ {
							if used[i] {
								rec([]fault{{'u', i}})
							}
						}
					}
				}
				c.Group(func() { rec(nil) })
			}
		})
	}
	all := []int{kTape, kTapeGrad, kLispFwd, kLisp}
	sh := func(dt string, shapes ...[]int) (r []*RT) {
		for i, s := range shapes {
			r = append(r, genRT(dt, 1, 1+i, s...))
		}
		return r
	}
	alpha := cat(uops("Neg", "Tanh", "Square"), bops("Add", "Sub", "Prod"), []*Op{opSum(), opSum(0), opMul(), opReshape(4), opTranspose(1, 0)})
	two := sh("f64", []int{2, 2}, []int{2, 2})
	run("p1", "f64", two, alpha, 1, all, depth+1)
	run("p2", "f64", two, alpha, 2, all, depth)
	run("p2f32", "f32", sh("f32", []int{2, 2}), alpha, 2, all, 1)
	run("scalar", "f64", sh("f64", nil, nil), cat(uops("Neg", "Exp"), bops("Add", "Prod")), 2, all, depth)
	core := cat(uops("Neg", "Tanh"), bops("Add", "Prod"), []*Op{opSum()})
	run("p3", "f64", sh("f64", []int{2, 2}), core, 3, all, 1)
	if c.Thorough {
		run("p2x", "f64", two, alpha, 2, all, 3)
		run("p3x", "f64", sh("f64", []int{2, 2}), alpha, 3, all, 2)
		run("p4", "f64", sh("f64", []int{2, 2}), core, 4, all, 1)
	}
	for _, kind := range []int{kTape, kLispFwd} {
		kind := kind
		var rec func(h []bool)
		rec = func(h []bool) {
			if len(h) > 0 {
				hh := append([]bool{}, h...)
				c.Case(func() string { return fmt.Sprintf("ctc|%s|%v", kindName[kind], hh) }, func(t *T) { ctcFail(t, kind, hh) })
			}
			if len(h) < 4 {
				rec(append(h[:len(h):len(h)], true))
				rec(append(h[:len(h):len(h)], false))
			}
		}
		rec(nil)
	}
}
