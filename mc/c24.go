package main

// C24: independent graphs and machines do not disturb each other.

import (
	"fmt"
	"hash"
	"hash/fnv"
	"runtime"
	"sync/atomic"

	"github.com/chewxy/hm"
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/encoding/dot"
	"gorgonia.org/tensor"
)

func init() {
	register(&Check{ID: "C24", Run: runC24, Procs: 1, HangSec: 60,
		Rule: "A case is two client scripts, each with its own graphs and machines, and one interleaving of their steps; a step is an API call or a stretch of a run between two operations. Everything either client observes must be what it observes alone. states: distinct interleavings; transitions: steps; traces: observations compared."})
}

// client is a script in a goroutine of its own that runs only when it has
// the token.
type client struct {
	turn chan bool // false: give up
	back chan bool // true: finished
	log  []string
	err  interface{}
}

type gaveUp struct{}

func startClient(s func(x *cx)) *client {
	c := &client{turn: make(chan bool), back: make(chan bool)}
	go func() {
		x := &cx{c: c}
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(gaveUp); !ok {
					c.err = e
				}
			}
			c.back <- true
		}()
		if !<-c.turn {
			return
		}
		s(x)
	}()
	return c
}

// step lets the client run to its next yield; true if it has finished.
func (c *client) step() bool {
	c.turn <- true
	return <-c.back
}

// cx is what a script sees.
type cx struct {
	c     *client
	alone bool
	steps int
	nodes int
	bad   bool
}

func (x *cx) yield() {
	x.steps++
	if x.alone {
		return
	}
	x.c.back <- false
	<-x.c.turn
}

func (x *cx) see(format string, a ...interface{}) {
	x.c.log = append(x.c.log, fmt.Sprintf(format, a...))
}

func (x *cx) val(name string, v G.Value) {
	rt, err := readValue(v)
	if err != nil {
		x.see("%s: %v", name, err)
		return
	}
	s := name + rt.DT + fmt.Sprint(rt.Shape)
	for _, d := range rt.D {
		s += fmt.Sprintf(" %x", d.V)
	}
	x.see("%s", s)
}

// yieldOp hands its operand on after a yield.
type yieldOp struct {
	x *cx
	k int
}

func (o *yieldOp) Arity() int { return 1 }
func (o *yieldOp) Type() hm.Type {
	a := hm.TypeVariable('a')
	return hm.NewFnType(a, a)
}
func (o *yieldOp) InferShape(in ...G.DimSizer) (tensor.Shape, error) {
	return in[0].(tensor.Shape).Clone(), nil
}
func (o *yieldOp) Do(vs ...G.Value) (G.Value, error) {
	o.x.yield()
	if o.x.bad {
		return nil, errPlanned
	}
	return G.CloneValue(vs[0])
}
func (o *yieldOp) ReturnsPtr() bool      { return false }
func (o *yieldOp) CallsExtern() bool     { return false }
func (o *yieldOp) OverwritesInput() int  { return -1 }
func (o *yieldOp) String() string        { return fmt.Sprintf("yield%d", o.k) }
func (o *yieldOp) WriteHash(h hash.Hash) { fmt.Fprintf(h, "yield%d", o.k) }
func (o *yieldOp) Hashcode() uint32 {
	h := fnv.New32a()
	o.WriteHash(h)
	return h.Sum32()
}
func (o *yieldOp) DiffWRT(n int) []bool { return []bool{true} }
func (o *yieldOp) SymDiff(in G.Nodes, out, grad *G.Node) (G.Nodes, error) {
	o.x.nodes++
	n, err := G.ApplyOp(&yieldOp{o.x, 100 + o.x.nodes}, grad)
	return G.Nodes{n}, err
}
func (o *yieldOp) DoDiff(ctx G.ExecutionContext, in G.Nodes, out *G.Node) error {
	o.x.yield()
	g, err := out.Grad()
	if err != nil {
		return err
	}
	d, err := in[0].Grad()
	if err != nil {
		return err
	}
	switch dd := d.(type) {
	case *tensor.Dense:
		_, err = tensor.Add(dd, g.(*tensor.Dense), tensor.UseUnsafe())
		return err
	}
	return fmt.Errorf("yield: gradient %T", d)
}

func (x *cx) pause(n *G.Node) *G.Node {
	x.nodes++
	return G.Must(G.ApplyOp(&yieldOp{x, x.nodes}, n))
}

func (x *cx) must(err error) {
	if err != nil {
		x.see("error: %s", firstLine(err))
	}
}

// net is tanh(yield(x·w)+b) summed.
func (x *cx) net(g *G.ExprGraph, salt int) (cost *G.Node, in G.Nodes) {
	a := newBoundInput(g, "x", genRT("f64", 0, salt, 2, 2))
	w := newBoundInput(g, "w", genRT("f64", 0, salt+1, 2, 2))
	b := newBoundInput(g, "b", genRT("f64", 0, salt+2, 2, 2))
	h := x.pause(G.Must(G.Mul(a, w)))
	h = G.Must(G.Tanh(G.Must(G.Add(h, b))))
	return G.Must(G.Sum(G.Must(G.HadamardProd(h, h)))), G.Nodes{a, w, b}
}

var scripts = []struct {
	name string
	f    func(x *cx, salt int)
}{
	{"tapegrad", func(x *cx, salt int) {
		g := G.NewGraph()
		cost, in := x.net(g, salt)
		x.yield()
		gs, err := G.Grad(cost, in...)
		x.must(err)
		x.yield()
		m := G.NewTapeMachine(g)
		x.yield()
		x.must(m.RunAll())
		x.val("cost", cost.Value())
		for i := range gs {
			x.val("d", gs[i].Value())
		}
		x.yield()
		for i := range gs {
			x.val("d", gs[i].Value())
			x.val("in", in[i].Value())
		}
		m.Reset()
		x.must(m.RunAll())
		x.val("cost", cost.Value())
		x.yield()
		closeVM(m)
	}},
	{"lisp", func(x *cx, salt int) {
		g := G.NewGraph()
		cost, in := x.net(g, salt)
		x.yield()
		m := G.NewLispMachine(g)
		x.yield()
		x.must(m.RunAll())
		show := func() {
			x.val("cost", cost.Value())
			for _, n := range in {
				d, err := n.Grad()
				x.must(err)
				x.val("d", d)
				x.val("v", n.Value())
			}
		}
		show()
		x.yield()
		show()
		m.UnbindAll()
		x.yield()
		closeVM(m)
	}},
	{"unbind", func(x *cx, salt int) {
		g := G.NewGraph()
		cost, in := x.net(g, salt)
		gs, err := G.Grad(cost, in...)
		x.must(err)
		x.yield()
		m := G.NewTapeMachine(g, G.BindDualValues(in...))
		x.must(m.RunAll())
		x.val("cost", cost.Value())
		x.yield()
		d, err := in[1].Grad()
		x.must(err)
		x.val("d", d)
		closeVM(m)
		x.yield()
		g.UnbindAllNonInputs()
		x.yield()
		m = G.NewTapeMachine(g)
		x.yield()
		x.must(m.RunAll())
		x.val("cost", cost.Value())
		x.val("d", gs[0].Value())
		closeVM(m)
	}},
	{"again", func(x *cx, salt int) { // the same expressions many times
		g := G.NewGraph()
		a := newBoundInput(g, "a", genRT("f64", 0, salt, 2, 3))
		b := newBoundInput(g, "b", genRT("f64", 0, salt+1, 2, 3))
		build := func() []*G.Node {
			s := G.Must(G.Add(a, b))
			n := []*G.Node{s, G.Must(G.Transpose(s, 1, 0)), G.Must(G.Sum(s, 0)), G.Must(G.Slice(s, G.S(1))), G.Must(G.HadamardProd(s, g.Constant(G.NewF64(2)))), G.Must(G.Reshape(s, tensor.Shape{6}))}
			return append(n, G.Must(G.Mul(a, n[1])))
		}
		shapes := func(ns []*G.Node) {
			for _, n := range ns {
				x.see("%v %v", n.Shape(), n.Type())
			}
			x.see("%v %v", a.Shape(), b.Type())
		}
		n1 := build()
		shapes(n1)
		x.yield()
		n2 := build()
		x.yield()
		shapes(n1)
		shapes(n2)
		n3 := build()
		x.yield()
		shapes(n1)
		for i := range n1 {
			x.see("same %v", n1[i] == n3[i])
		}
		var vals [7]G.Value
		for i := range n1 {
			G.Read(n1[i], &vals[i])
		}
		m := G.NewTapeMachine(g)
		x.yield()
		x.must(m.RunAll())
		for i := range vals {
			x.val("v", vals[i])
		}
		x.yield()
		for i := range vals {
			x.val("v", vals[i])
		}
		closeVM(m)
	}},
	{"xent", func(x *cx, salt int) {
		g := G.NewGraph()
		o := newBoundInput(g, "o", genRT("f64", 0, salt, 3))
		t := newBoundInput(g, "t", rtOf("f64", []int{3}, 1, 0, 1))
		x.yield()
		l := G.Must(G.BinaryXent(G.Must(G.Sigmoid(o)), t))
		x.yield()
		sm := x.pause(G.Must(G.LogSoftMax(o)))
		cost := G.Must(G.Add(G.Must(G.Sum(l)), G.Must(G.Sum(sm))))
		x.yield()
		gs, err := G.Grad(cost, o)
		x.must(err)
		x.yield()
		m := G.NewTapeMachine(g)
		x.must(m.RunAll())
		x.val("cost", cost.Value())
		x.val("d", gs[0].Value())
		x.yield()
		x.val("d", gs[0].Value())
		closeVM(m)
	}},
	{"train", func(x *cx, salt int) {
		g := G.NewGraph()
		cost, in := x.net(g, salt)
		_, err := G.Grad(cost, in[1:]...)
		x.must(err)
		m := G.NewTapeMachine(g, G.BindDualValues(in[1:]...))
		s := G.NewBarzilaiBorweinSolver(G.WithLearnRate(0.1))
		for i := 0; i < 2; i++ {
			x.yield()
			x.must(m.RunAll())
			x.yield()
			x.must(s.Step(G.NodesToValueGrads(in[1:])))
			x.val("w", in[1].Value())
			x.val("b", in[2].Value())
			m.Reset()
		}
		x.yield()
		x.val("w", in[1].Value())
		closeVM(m)
	}},
	{"adam", func(x *cx, salt int) {
		g := G.NewGraph()
		cost, in := x.net(g, salt)
		m := G.NewLispMachine(g)
		s := G.NewAdamSolver(G.WithLearnRate(0.1), G.WithL1Reg(0.01), G.WithL2Reg(0.02), G.WithClip(0.5))
		for i := 0; i < 2; i++ {
			x.yield()
			x.must(m.RunAll())
			x.val("cost", cost.Value())
			x.yield()
			x.must(s.Step(G.NodesToValueGrads(in[1:])))
			x.val("w", in[1].Value())
			x.val("b", in[2].Value())
			m.Reset()
		}
		x.yield()
		x.val("w", in[1].Value())
		closeVM(m)
	}},
	{"constants", func(x *cx, salt int) {
		g := G.NewGraph()
		a := newBoundInput(g, "a", genRT("f64", 0, salt, 2))
		x.yield()
		k := float64(salt%3 + 1)
		c1 := G.NewConstant(k)
		c2 := G.NewConstant(tensor.New(tensor.WithShape(2), tensor.WithBacking([]float64{k, 2 * k})), G.WithName("k"))
		x.yield()
		h := G.OneHotVector(salt%2, 2, tensor.Float64)
		nf := G.NodeFromAny(g, k*3, G.WithName("any"))
		x.yield()
		n := G.Must(G.Add(G.Must(G.HadamardProd(a, c1)), G.Must(G.Sub(c2, G.Must(G.HadamardProd(x.pause(a), nf))))))
		n2 := G.Must(G.HadamardProd(n, g.AddNode(h)))
		x.see("%v %v %v", c1.Value(), c2.Shape(), nf.Name())
		x.yield()
		gs, err := G.Grad(G.Must(G.Sum(n2)), a)
		x.must(err)
		m := G.NewTapeMachine(g)
		x.must(m.RunAll())
		x.val("n2", n2.Value())
		x.val("d", gs[0].Value())
		x.yield()
		x.val("c1", c1.Value())
		x.val("c2", c2.Value())
		closeVM(m)
	}},
	{"discard", func(x *cx, salt int) {
		for i := 0; i < 2; i++ {
			g := G.NewGraph()
			cost, in := x.net(g, salt+i)
			G.Must(G.Add(in[0], in[1]))
			G.Must(G.Add(in[0], in[1]))
			_, err := G.Grad(cost, in...)
			x.must(err)
			x.yield()
			m := G.NewTapeMachine(g)
			x.must(m.RunAll())
			x.val("cost", cost.Value())
			closeVM(m)
			g.UnbindAll()
			x.yield()
			for _, n := range drain(g.Nodes()) {
				g.RemoveNode(n)
			}
		}
	}},
	{"compiled", func(x *cx, salt int) {
		g := G.NewGraph()
		cost, in := x.net(g, salt)
		x.yield()
		prog, loc, err := G.CompileFunction(g, in, G.Nodes{cost})
		x.must(err)
		x.yield()
		m := G.NewTapeMachine(g, G.WithPrecompiled(prog, loc))
		x.yield()
		x.must(m.RunAll())
		x.val("cost", cost.Value())
		x.yield()
		sg := g.SubgraphRoots(cost)
		m2 := G.NewTapeMachine(sg)
		x.must(m2.RunAll())
		x.val("cost", cost.Value())
		x.yield()
		closeVM(m)
		closeVM(m2)
	}},
	{"copies", func(x *cx, salt int) {
		g := G.NewGraph()
		cost, in := x.net(g, salt)
		_, err := G.Grad(cost, in...)
		x.must(err)
		x.yield()
		g2 := g.Clone().(*G.ExprGraph)
		x.yield()
		x.see("%d %d", len(g2.AllNodes()), len(g.AllNodes()))
		b, err := dot.Marshal(g)
		x.see("%d %v", len(b), err)
		x.yield()
		m := G.NewTapeMachine(g2)
		x.must(m.RunAll())
		x.yield()
		for _, n := range g2.AllNodes() {
			if n.Name() == cost.Name() && n.Op() != nil && n.Value() != nil && n.IsScalar() {
				x.val("", n.Value())
			}
		}
		closeVM(m)
	}},
	{"failing", func(x *cx, salt int) {
		g := G.NewGraph()
		cost, in := x.net(g, salt)
		gs, err := G.Grad(cost, in...)
		x.must(err)
		m := G.NewTapeMachine(g)
		x.yield()
		x.bad = true
		x.see("failed %v", m.RunAll() != nil)
		x.bad = false
		x.yield()
		m.Reset()
		x.yield()
		x.must(m.RunAll())
		x.val("cost", cost.Value())
		x.val("d", gs[1].Value())
		_, err = G.Mul(in[0], cost)
		x.see("refused %v", err != nil)
		_, err = G.Reshape(in[0], tensor.Shape{5})
		x.see("refused %v", err != nil)
		x.yield()
		x.val("d", gs[1].Value())
		closeVM(m)
	}},
	{"twice", func(x *cx, salt int) { // nodes declared again, with all there is to say about them
		g := G.NewGraph()
		var a, v, w *G.Node
		kinds := []func() *G.Node{
			func() *G.Node {
				a = G.NewScalar(g, tensor.Float64, G.WithName("a"), G.WithGroupName("grp"), G.WithValue(float64(salt)))
				return a
			},
			func() *G.Node {
				v = G.NewVector(g, tensor.Float64, G.WithName("v"), G.WithShape(2), G.WithValue(tensor.New(tensor.WithBacking([]float64{1, float64(salt)}))))
				return v
			},
			func() *G.Node {
				w = G.NewMatrix(g, tensor.Float64, G.WithName("w"), G.WithShape(2, 2), G.WithInit(G.Ones()))
				return w
			},
			func() *G.Node {
				return G.Must(G.ApplyOpWithName(G.NewAddOp(a, a, G.ExecutionContext{}).Op, "s", a, a))
			},
			func() *G.Node { return g.AddNode(G.NewConstant(1.5, G.WithName("k"), G.WithGroupName("kgrp"))) },
			func() *G.Node { return G.Must(G.Mul(w, v)) },
			func() *G.Node { return G.Must(G.Sum(G.Must(G.Mul(w, v)))) },
		}
		for i := 0; i < 2; i++ {
			for k, f := range kinds {
				n := f()
				x.see("%d %q %v %v %v", k, n.Name(), n.Shape(), n.Type(), len(operands(g, n)))
				if i > 0 {
					x.yield()
				}
			}
		}
	}},
	{"plain", func(x *cx, salt int) { // nodes of which nothing is said
		g := G.NewGraph()
		about := func(n *G.Node) {
			x.see("%q %v %v %v %v %v %v %v %v", n.Name(), n.Groups(), n.Shape(), n.Type(), n.Op(), n.IsVar(), n.Value(), n.ID(), len(operands(g, n)))
			if n.Op() == nil && n.Value() != nil {
				panic(fmt.Sprintf("a new node has the value %v", n.Value()))
			}
		}
		x.yield()
		v := G.NewVector(g, tensor.Float64, G.WithShape(2))
		about(v)
		a := G.NewScalar(g, tensor.Float64)
		about(a)
		x.yield()
		n := G.Must(G.HadamardProd(v, G.NewConstant(2.5)))
		about(n)
		s := G.Must(G.Add(a, a))
		about(s)
		x.yield()
		m := G.NewTapeMachine(g)
		if m.RunAll() == nil {
			panic("ran although nothing was bound to its inputs")
		}
		x.yield()
		m.Reset()
		x.must(G.Let(v, tensor.New(tensor.WithBacking([]float64{1, float64(salt)}))))
		x.must(G.Let(a, 4.0))
		x.must(m.RunAll())
		x.val("n", n.Value())
		x.val("s", s.Value())
		closeVM(m)
	}},
}

var gcs int64

// aloneLog is what a script observes alone, and its number of steps.
func aloneLog(i, salt int) ([]string, int) {
	x := &cx{c: &client{}, alone: true}
	scripts[i].f(x, salt)
	return x.c.log, x.steps + 1
}

func interleave(t *T, i, j int, sched []bool, want [2][]string) {
	if atomic.AddInt64(&gcs, 1)%512 == 0 {
		runtime.GC() // machines hold cycles with finalizers
	}
	cs := [2]*client{startClient(func(x *cx) { scripts[i].f(x, 0) }), startClient(func(x *cx) { scripts[j].f(x, 20) })}
	done := [2]bool{}
	run := func(k int) {
		if !done[k] {
			done[k] = cs[k].step()
		}
	}
	for _, b := range sched {
		if b {
			run(1)
		} else {
			run(0)
		}
	}
	for k := range cs {
		for !done[k] {
			run(k)
		}
	}
	t.Trans(len(sched))
	for k, c := range cs {
		if c.err != nil {
			t.Failf("client %d: panic: %s", k, firstLine(c.err))
		}
		for n := range c.log {
			if n >= len(want[k]) || c.log[n] != want[k][n] {
				w := "nothing"
				if n < len(want[k]) {
					w = want[k][n]
				}
				t.Failf("client %d: observation %d is %s, alone it is %s", k, n, c.log[n], w)
			}
		}
		if len(c.log) != len(want[k]) {
			t.Failf("client %d: %d observations, alone %d", k, len(c.log), len(want[k]))
		}
		t.Trace(len(c.log))
	}
}

// schedules enumerates the interleavings of n and m steps with at most sw
// switches.
func schedules(n, m, sw int, visit func([]bool)) {
	var rec func(s []bool, a, b, left int)
	rec = func(s []bool, a, b, left int) {
		if a == 0 && b == 0 {
			visit(append([]bool{}, s...))
			return
		}
		for _, k := range []bool{false, true} {
			l := left
			if len(s) > 0 && s[len(s)-1] != k {
				l--
			}
			if l < 0 {
				continue
			}
			if !k && a > 0 {
				rec(append(s, k), a-1, b, l)
			}
			if k && b > 0 {
				rec(append(s, k), a, b-1, l)
			}
		}
	}
	rec(nil, n, m, sw)
}

func schedName(s []bool) string {
	b := make([]byte, len(s))
	for i, k := range s {
		b[i] = "ab"[b2i(k)]
	}
	return string(b)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func runC24(c *Ctx) {
	sw := 4
	if c.Thorough {
		sw = 6
	}
	type al struct {
		log   []string
		steps int
	}
	var as [2][]al
	for i := range scripts {
		for k := 0; k < 2; k++ {
			l, n := aloneLog(i, 20*k)
			as[k] = append(as[k], al{l, n})
		}
	}
	for i := range scripts {
		for j := range scripts {
			i, j := i, j
			want := [2][]string{as[0][i].log, as[1][j].log}
			schedules(as[0][i].steps, as[1][j].steps, sw, func(s []bool) {
				c.Case(func() string { return scripts[i].name + "|" + scripts[j].name + "|" + schedName(s) },
					func(t *T) {
						t.State(scripts[i].name, scripts[j].name, schedName(s))
						interleave(t, i, j, s, want)
					})
			})
		}
	}
}
