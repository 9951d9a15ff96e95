package main

// C35: watching a machine does not change what it computes.

import (
	"bytes"
	"fmt"
	"log"
	"math"
	"strings"

	G "gorgonia.org/gorgonia"
)

func init() {
	register(&Check{ID: "C35", Run: runC35, Procs: 1,
		Rule: "A case is a program, a machine (compiling or interpreting, with or without derivatives) and a way to watch it (logger, direction logged, watch list of everything, of every node, of every register, value format, tracing, NaN and Inf watches), run twice. Every reading, every derivative and, under tracing, every node's value must be that of the defining expression. states: distinct results; transitions: instructions executed; traces: watched runs compared."})
}

// watchKind is a way to watch a machine; nodes are those of the program.
type watchKind struct {
	name string
	tape func(l *log.Logger, ns []*G.Node) []G.VMOpt
	lisp func(l *log.Logger, ns []*G.Node) []G.VMOpt
	each bool // one case per node of the program
}

func anys(ns []*G.Node) (r []interface{}) {
	for _, n := range ns {
		r = append(r, n)
	}
	return r
}

var watchKinds = []watchKind{
	{name: "logger", tape: func(l *log.Logger, ns []*G.Node) []G.VMOpt { return []G.VMOpt{G.WithLogger(l)} },
		lisp: func(l *log.Logger, ns []*G.Node) []G.VMOpt { return []G.VMOpt{G.WithLogger(l)} }},
	{name: "all", tape: func(l *log.Logger, ns []*G.Node) []G.VMOpt { return []G.VMOpt{G.WithLogger(l), G.WithWatchlist()} },
		lisp: func(l *log.Logger, ns []*G.Node) []G.VMOpt {
			return []G.VMOpt{G.WithLogger(l), G.WithWatchlist(), G.LogBothDir()}
		}},
	{name: "all-format", tape: func(l *log.Logger, ns []*G.Node) []G.VMOpt {
		return []G.VMOpt{G.WithLogger(l), G.WithWatchlist(), G.WithValueFmt("%+1.1s")}
	}, lisp: func(l *log.Logger, ns []*G.Node) []G.VMOpt {
		return []G.VMOpt{G.WithLogger(l), G.WithWatchlist(), G.LogBothDir(), G.WithValueFmt("%+1.1s")}
	}},
	{name: "node", each: true, tape: func(l *log.Logger, ns []*G.Node) []G.VMOpt {
		return []G.VMOpt{G.WithLogger(l), G.WithWatchlist(anys(ns)...)}
	}, lisp: func(l *log.Logger, ns []*G.Node) []G.VMOpt {
		return []G.VMOpt{G.WithLogger(l), G.WithWatchlist(anys(ns)...), G.LogBothDir()}
	}},
	{name: "register", tape: func(l *log.Logger, ns []*G.Node) []G.VMOpt {
		return []G.VMOpt{G.WithLogger(l), G.WithWatchlist(0, 2, G.NodeID(1))}
	}},
	{name: "trace", tape: func(l *log.Logger, ns []*G.Node) []G.VMOpt { return []G.VMOpt{G.TraceExec()} }},
	{name: "trace-all", tape: func(l *log.Logger, ns []*G.Node) []G.VMOpt {
		return []G.VMOpt{G.WithLogger(l), G.WithWatchlist(), G.TraceExec()}
	}},
	{name: "trace-node", each: true, tape: func(l *log.Logger, ns []*G.Node) []G.VMOpt {
		return []G.VMOpt{G.WithLogger(l), G.WithWatchlist(anys(ns)...), G.TraceExec()}
	}},
	{name: "fwd", lisp: func(l *log.Logger, ns []*G.Node) []G.VMOpt {
		return []G.VMOpt{G.WithLogger(l), G.WithWatchlist(), G.LogFwd()}
	}},
	{name: "bwd", lisp: func(l *log.Logger, ns []*G.Node) []G.VMOpt {
		return []G.VMOpt{G.WithLogger(l), G.WithWatchlist(), G.LogBwd()}
	}},
	{name: "unheard", tape: func(l *log.Logger, ns []*G.Node) []G.VMOpt {
		return []G.VMOpt{G.WithWatchlist(anys(ns)...), G.WithValueFmt("%v")}
	}, lisp: func(l *log.Logger, ns []*G.Node) []G.VMOpt {
		return []G.VMOpt{G.WithWatchlist(anys(ns)...), G.LogBothDir(), G.WithValueFmt("%v")}
	}},
	{name: "numbers", tape: func(l *log.Logger, ns []*G.Node) []G.VMOpt { return []G.VMOpt{G.WithNaNWatch(), G.WithInfWatch()} },
		lisp: func(l *log.Logger, ns []*G.Node) []G.VMOpt { return []G.VMOpt{G.WithNaNWatch(), G.WithInfWatch()} }},
}

// obsCase runs p twice with the inputs bound to two sets of values in turn.
func obsCase(t *T, p *Prog, grad, lisp bool, wk watchKind, node int) {
	trace := !lisp && strings.HasPrefix(wk.name, "trace")
	w := p.weights()
	var wrt []int
	var want []*RT
	if grad {
		all := make([]int, p.NIn)
		for i := range all {
			all[i] = i
		}
		var err error
		if wrt, want, err = p.wants(all, w); err != nil || len(wrt) == 0 {
			t.Count("outside_domain", 1)
			return
		}
	}
	g := G.NewGraph()
	reach := make([]bool, len(p.Vals))
	for i := range reach {
		reach[i] = true
	}
	if grad {
		reach = p.reach(len(p.Vals) - 1)
	}
	nodes, err := p.buildFor(g, reach)
	if err != nil {
		t.Failf("build: %v", err)
	}
	var live []*G.Node
	for _, n := range nodes {
		if n != nil {
			live = append(live, n)
		}
	}
	var xs, gs G.Nodes
	if grad {
		cost, err := p.buildCost(g, nodes)
		if err != nil {
			t.Failf("cost: %v", err)
		}
		for _, i := range wrt {
			xs = append(xs, nodes[i])
		}
		if !lisp {
			if gs, err = G.Grad(cost, xs...); err != nil {
				t.Failf("Grad: %v", err)
			}
		}
	}
	got := make([]G.Value, len(nodes))
	ggot := make([]G.Value, len(gs))
	if !lisp {
		for i, n := range nodes {
			if n != nil && !trace {
				G.Read(n, &got[i])
			}
		}
		for i, n := range gs {
			G.Read(n, &ggot[i])
		}
	}
	var buf bytes.Buffer
	l := log.New(&buf, "", 0)
	watched := live
	if node >= 0 {
		watched = []*G.Node{live[node%len(live)]}
	}
	var m G.VM
	if lisp {
		opts := wk.lisp(l, watched)
		if !grad {
			opts = append(opts, G.ExecuteFwdOnly())
		}
		m = G.NewLispMachine(g, opts...)
	} else {
		opts := wk.tape(l, watched)
		if grad {
			opts = append(opts, G.BindDualValues(xs...))
		}
		m = G.NewTapeMachine(g, opts...)
	}
	defer closeVM(m)
	runs := 2
	if lisp && grad {
		runs = 1 // derivatives add up
	}
	for r := 1; r <= runs; r++ {
		if r > 1 {
			var ins []*RT
			for i := 0; i < p.NIn; i++ {
				ins = append(ins, genRT(p.DT, 0, i+20, p.Vals[i].Shape...))
			}
			vals, err := p.eval(ins)
			if err != nil {
				return
			}
			q := p.clone()
			q.Vals = vals
			if grad {
				if _, want, err = q.wants(wrt, w); err != nil {
					return
				}
			}
			for i := 0; i < p.NIn; i++ {
				if nodes[i] != nil {
					if err := G.Let(nodes[i], goVal(ins[i])); err != nil {
						t.Failf("Let: %v", err)
					}
				}
			}
			p = q
			m.Reset()
		}
		tol := tolFor(p.DT, p.scale())
		gtol := gradTol(p.DT, p.scale())
		if err := m.RunAll(); err != nil {
			t.Failf("run %d: %v", r, err)
		}
		for i, n := range nodes {
			if n == nil || wk.name == "trace-node" && n != watched[0] {
				continue // only what is watched is traced
			}
			v := got[i]
			if lisp || trace {
				v = n.Value()
			}
			if d := diffValue(v, p.Vals[i], tol); d != "" {
				t.Failf("run %d, value %d: %s", r, i, d)
			}
			t.State(p.Vals[i])
		}
		for i := range wrt {
			tg := gtol * math.Max(1, want[i].maxAbs())
			if !lisp {
				if d := diffValue(ggot[i], want[i], tg); d != "" {
					t.Failf("run %d, gradient by value %d: %s", r, wrt[i], d)
				}
			}
			if r > 1 {
				continue // the bound ones add up
			}
			gv, err := xs[i].Grad()
			if err != nil {
				t.Failf("run %d: Grad() of value %d: %v", r, wrt[i], err)
			}
			if d := diffValue(gv, want[i], tg); d != "" {
				t.Failf("run %d, bound gradient of value %d: %s", r, wrt[i], d)
			}
		}
		t.Trans(len(p.Instrs))
		t.Trace(1)
	}
}

func runC35(c *Ctx) {
	run := func(tag, dt string, shapes [][]int, alpha []*Op, d int) {
		var ins []*RT
		for i, s := range shapes {
			ins = append(ins, genRT(dt, 0, i, s...))
		}
		enumProgs(c, dt, ins, nil, alpha, d, EnumOpts{Skip: simplified, Limit: 1e3}, func(p *Prog) {
			for k := 0; k < 4; k++ {
				grad, lisp := k&1 != 0, k&2 != 0
				if grad && (!p.noDead() || !p.diffable(lisp)) {
					continue
				}
				for _, wk := range watchKinds {
					if lisp && wk.lisp == nil || !lisp && wk.tape == nil {
						continue
					}
					ns := []int{-1}
					if wk.each {
						ns = nil
						for i := range p.Vals {
							ns = append(ns, i)
						}
					}
					for _, n := range ns {
						n, wk := n, wk
						c.Case(func() string {
							return fmt.Sprintf("%s|%s|%s|grad=%v|%s|%d", tag, p.String(), []string{"tape", "lisp"}[k>>1], grad, wk.name, n)
						}, func(t *T) { obsCase(t, p, grad, lisp, wk, n) })
					}
				}
			}
		})
	}
	for _, shapes := range univ {
		run("wide", "f64", shapes, wideAlpha(), 1)
	}
	for _, shapes := range univ {
		run("wide", "f32", shapes, wideAlpha(), 1)
	}
	run("core", "f64", [][]int{{2, 2}}, coreAlpha(), 2)
	run("core", "f64", [][]int{{2, 2}, {2}}, coreAlpha(), 2)
	for _, shapes := range oneShapes {
		run("one", "f64", shapes, oneAlpha(), 3)
	}
	if c.Thorough {
		for _, shapes := range univ {
			run("core", "f64", shapes, coreAlpha(), 2)
			run("wide", "f64", shapes, wideAlpha(), 2)
		}
		run("core3", "f64", [][]int{{2, 2}}, coreAlpha(), 3)
	}
}
