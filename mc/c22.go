package main

// C22: the concurrent machine computes every node in every schedule.

import (
	"context"
	"fmt"
	"time"

	G "gorgonia.org/gorgonia"
	xvm "gorgonia.org/gorgonia/x/vm"
	"gorgonia.org/tensor"

	"verif/mc/vs"
	"verif/mc/vs/vcontext"
	"verif/mc/xvmgen"
)

func init() {
	register(&Check{ID: "C22", Run: runC22, Procs: 1, HangSec: 240,
		Rule: "A case is an expression graph and a number of runs of one machine. The machine's own source is compiled onto a controlled runtime in which every channel operation, select choice, wait and cancellation is a scheduling decision; every inequivalent schedule is executed (dynamic partial order reduction, also compared with the unreduced enumeration on the smallest graphs). States are joint histories of the goroutines, transitions are scheduling steps, traces are complete executions whose node values are compared with the reference.",
		Assumptions: []string{"goroutines of the concurrent machine share data only through channels, contexts and the sync package; a goroutine runs without interruption between two such operations",
			"operations themselves are executed sequentially"}})
}

// xvmOut is what a program on the controlled runtime reports.
type xvmOut struct{ bad string }

func (o *xvmOut) failf(f string, a ...interface{}) {
	if o.bad == "" {
		o.bad = fmt.Sprintf(f, a...)
	}
}

// explore runs f under every schedule. Every execution must end with all its
// goroutines gone.
func xvmExplore(t *T, naive bool, f func(o *xvmOut)) *vs.Explorer {
	states := map[uint64]struct{}{}
	e := &vs.Explorer{MaxSteps: 5000, Naive: naive, OnState: func(h uint64) { states[h] = struct{}{} }}
	var o *xvmOut
	e.Explore(func() { o = &xvmOut{}; f(o) }, func(r *vs.Result) bool {
		switch {
		case o.bad != "":
			t.Failf("%s (schedule %v)", o.bad, r.Schedule)
		case len(r.Panics) > 0:
			t.Failf("%s (schedule %v)", r.Panics[0], r.Schedule)
		case r.TooLong:
			t.Failf("no end after %d steps", len(r.Schedule))
		case !r.Finished:
			t.Failf("the run never returns: %v (schedule %v)", r.Blocked, r.Schedule)
		case len(r.Blocked) > 0:
			t.Failf("goroutines left behind: %v (schedule %v)", r.Blocked, r.Schedule)
		}
		return true
	})
	t.OwnStates(len(states))
	t.Trans(e.Steps)
	t.Trace(e.Execs)
	t.Count("schedules", e.Execs)
	t.Count("redundant", e.Pruned)
	return e
}

func xvmRuns(o *xvmOut, p *Prog, used []bool, runs int) {
	tol := tolFor(p.DT, p.scale())
	g := G.NewGraph()
	nodes, err := p.buildFor(g, used)
	if err != nil {
		o.failf("build: %v", err)
		return
	}
	m := xvmgen.New(g)
	for r := 0; r < runs && o.bad == ""; r++ {
		if err := m.Run(vcontext.Background()); err != nil {
			o.failf("run %d: %v", r+1, err)
		}
		for i, n := range nodes {
			if n == nil {
				continue
			}
			if d := diffValue(m.GetResult(n.ID()), p.Vals[i], tol); d != "" {
				o.failf("run %d: value %d: %s", r+1, i, d)
			}
		}
	}
	m.Close()
}

// xvmNative runs the machine as it is, under the one schedule that happens.
func xvmNative(t *T, p *Prog, used []bool) {
	tol := tolFor(p.DT, p.scale())
	g := G.NewGraph()
	nodes, err := p.buildFor(g, used)
	if err != nil {
		t.Failf("build: %v", err)
	}
	m := xvm.NewMachine(g)
	for r := 0; r < 2; r++ {
		done := make(chan error, 1)
		go func() { done <- m.Run(context.Background()) }()
		select {
		case err := <-done:
			if err != nil {
				t.Failf("native run %d: %v", r+1, err)
			}
		case <-time.After(60 * time.Second):
			t.Failf("native run %d does not return", r+1)
		}
		for i, n := range nodes {
			if n == nil {
				continue
			}
			if d := diffValue(m.GetResult(n.ID()), p.Vals[i], tol); d != "" {
				t.Failf("native run %d: value %d: %s", r+1, i, d)
			}
		}
	}
	m.Close()
	t.Count("native", 1)
}

// lastReach keeps what the last value needs.
func lastReach(p *Prog) []bool { return p.reach(len(p.Vals) - 1) }

func allReached(p *Prog) bool {
	u := p.used()
	for i := 0; i < p.NIn; i++ {
		if !u[i] {
			return false
		}
	}
	return true
}

func runC22(c *Ctx) {
	maxN := 3
	if c.Thorough {
		maxN = 4
	}
	graph := func(tag string, p *Prog, runs int) {
		p = p.clone()
		c.Case(func() string { return fmt.Sprintf("%s|%s|runs=%d", tag, p, runs) }, func(t *T) {
			xvmExplore(t, false, func(o *xvmOut) { xvmRuns(o, p, nil, runs) })
			if runs == 1 {
				xvmNative(t, p, nil)
			}
		})
	}
	sub, neg := bops("Sub")[0], uops("Neg")[0]
	vec := func(i int) *RT { return genRT("f64", 1, i, 2) }
	// every expression graph over Sub and Neg
	for n := 1; n <= maxN; n++ {
		n := n
		for nin := 1; nin <= 2; nin++ {
			for cm := 0; cm < 1<<nin; cm++ {
				if n == maxN && cm != 0 || nin+n > 5 {
					continue
				}
				var ins []*RT
				var consts []bool
				for i := 0; i < nin; i++ {
					ins = append(ins, vec(i))
					consts = append(consts, cm>>i&1 == 1)
				}
				enumProgs(c, "f64", ins, consts, []*Op{sub, neg}, n, EnumOpts{NoDup: true, LastUses: !c.Thorough}, func(p *Prog) {
					if !allReached(p) {
						return
					}
					graph("dag", p, 1)
					if n <= 1 || c.Thorough && n <= 2 {
						graph("dag", p, 2)
					}
					if n <= 1 && c.Thorough {
						graph("dag", p, 3)
					}
				})
			}
		}
	}
	// variadic operations with every choice of operands
	for k := 1; k <= 3; k++ {
		alpha := []*Op{opConcat(0, k), neg}
		if c.Thorough {
			alpha = append(alpha, sub)
		}
		enumProgs(c, "f64", []*RT{vec(0), vec(1)}, nil, alpha, 2, EnumOpts{NoDup: true, LastUses: true}, func(p *Prog) {
			if allReached(p) && (c.Thorough || p.Instrs[0].Op != p.Instrs[1].Op) {
				graph("variadic", p, 1)
			}
		})
	}
	// every kind of operation
	for _, x := range xvmOps(c.Thorough) {
		if p, err := single(x.op, x.ins); err == nil {
			graph("op", p, 1)
			for cm := 1; cm < 1<<len(x.ins); cm++ {
				q := p.clone()
				q.Const = make([]bool, len(x.ins))
				for i := range x.ins {
					q.Const[i] = cm>>i&1 == 1
				}
				graph("op", q, 1)
			}
		}
	}
	// nodes that make their own value
	for _, sh := range [][]int{nil, {2}, {2, 3}} {
		sh := sh
		c.Case(func() string { return fmt.Sprintf("random|%v", sh) }, func(t *T) {
			xvmExplore(t, false, func(o *xvmOut) {
				g := G.NewGraph()
				r := G.UniformRandomNode(g, tensor.Float64, 1, 2, sh...)
				d, err := G.Sub(r, r)
				if err != nil {
					o.failf("%v", err)
					return
				}
				m := xvmgen.New(g)
				for run := 0; run < 2 && o.bad == ""; run++ {
					if err := m.Run(vcontext.Background()); err != nil {
						o.failf("run: %v", err)
					}
					v, err := readValue(m.GetResult(r.ID()))
					if err != nil {
						o.failf("random value: %v", err)
						return
					}
					for _, x := range v.D {
						if x.V < 1 || x.V >= 2 {
							o.failf("random value %v out of range", x.V)
						}
					}
					if df := diffValue(m.GetResult(d.ID()), newRT("f64", sh...), 0); df != "" {
						o.failf("difference: %s", df)
					}
				}
				m.Close()
			})
		})
	}
	// the reduction against the plain enumeration
	naive := []*Prog{}
	if p, err := single(neg, []*RT{vec(0)}); err == nil {
		naive = append(naive, p)
	}
	if c.Thorough {
		if p, err := single(sub, []*RT{vec(0)}); err == nil {
			naive = append(naive, p)
		}
	}
	for _, p := range naive {
		p := p
		c.Case(func() string { return "unreduced|" + p.String() }, func(t *T) {
			e := xvmExplore(t, true, func(o *xvmOut) { xvmRuns(o, p, nil, 1) })
			t.Count("unreduced", e.Execs)
		})
	}
}

type opIns struct {
	op  *Op
	ins []*RT
}

// xvmOps lists one example of every kind of operation.
func xvmOps(deep bool) (l []opIns) {
	m := func(i int, sh ...int) *RT { return genRT("f64", 1, i, sh...) }
	add := func(op *Op, ins ...*RT) { l = append(l, opIns{op, ins}) }
	for _, op := range uops("Neg", "Abs", "Sign", "Exp", "Log", "Sqrt", "Cube", "Sigmoid", "Tanh", "Softplus") {
		add(op, m(0, 2, 3))
		add(op, m(0))
	}
	for _, op := range bops("Add", "Sub", "Prod", "Div", "Pow", "MaxB", "MinB") {
		add(op, m(0, 2, 3), m(1, 2, 3))
		add(op, m(0), m(1, 2, 3))
		add(op, m(0, 2, 3), m(1))
		add(op, m(0), m(1))
	}
	add(opSum(0), m(0, 2, 3))
	add(opSum(), m(0, 2, 3))
	add(opMean(1), m(0, 2, 3))
	add(opMax(0), m(0, 2, 3))
	add(opTranspose(1, 0), m(0, 2, 3))
	add(opReshape(3, 2), m(0, 2, 3))
	add(opRavel(), m(0, 2, 3))
	add(opConcat(0, 2), m(0, 2, 3), m(1, 1, 3))
	add(opConcat(1, 3), m(0, 2, 1), m(1, 2, 2), m(2, 2, 1))
	add(opMul(), m(0, 2, 3), m(1, 3, 2))
	add(opMul(), m(0, 2, 3), m(1, 3))
	add(opMul(), m(0, 3), m(1, 3))
	add(opOuter(), m(0, 2), m(1, 3))
	add(opBatchedMatMul(false, false), m(0, 2, 2, 3), m(1, 2, 3, 1))
	add(opTensordot([]int{1}, []int{0}), m(0, 2, 3), m(1, 3, 2))
	for _, d := range []string{"Add", "Sub"} {
		add(opBroadcast(binDefByName(d), nil, []int{0}), m(0, 2, 3), m(1, 1, 3))
		add(opBroadcast(binDefByName(d), []int{1}, nil), m(0, 2, 1), m(1, 2, 3))
	}
	add(opSoftmax(1, false), m(0, 2, 3))
	add(opSoftmax(0, true), m(0, 2, 3))
	add(opSparsemax(), m(0, 2, 3))
	add(opDiagFlat(), m(0, 3))
	add(opUpsample(2), m(0, 1, 1, 2, 2))
	add(opByIndices(0, 1, 0), m(0, 2, 3))
	add(opAt(1, 0), m(0, 2, 3))
	add(opSizeOf(1), m(0, 2, 3))
	one := win{K: 2, S: 1, D: 1}
	if deep {
		add(opConv(one, one), m(0, 1, 1, 3, 3), m(1, 1, 1, 2, 2))
	}
	add(opPool(one, one), m(0, 1, 1, 3, 3))
	add(opBatchNorm(0.9, 0.5), m(0, 2, 2))
	return l
}
