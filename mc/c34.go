package main

// C34: lifted functions compute what the functions they lift compute, and pass
// the first error on.

import (
	"errors"
	"fmt"

	G "gorgonia.org/gorgonia"
)

func init() {
	register(&Check{ID: "C34", Run: runC34, Procs: 1,
		Rule: "A case is a chain of calls of lifted functions (one operand, one operand with axes, two operands, two operands with broadcast patterns; functions that succeed, and functions that fail), with every choice of operands among nodes, failed results, inputs of a foreign type and earlier results of the chain; or a list of such inputs given to NodesFromInputs, CheckOne, LiftResult and TransformResult. states: distinct histories of results; transitions: calls; traces: results compared with the model."})
}

// foreign is an input of a type the library does not know.
type foreign struct{ n *G.Node }

func (f foreign) Node() *G.Node  { return f.n }
func (f foreign) Nodes() G.Nodes { return G.Nodes{f.n} }

// maker makes new versions of itself. It records what it was made from.
type maker struct {
	n   *G.Node
	id  string
	log *[]string
}

func (m maker) Node() *G.Node  { return m.n }
func (m maker) Nodes() G.Nodes { return G.Nodes{m.n} }
func (m maker) Mk(ins ...G.Input) G.Input {
	*m.log = append(*m.log, fmt.Sprintf("%s(%d)", m.id, len(ins)))
	return maker{ins[0].Node(), m.id, m.log}
}

// fullMaker is a maker that is a result as well.
type fullMaker struct {
	maker
	err error
}

func (m fullMaker) Err() error { return m.err }
func (m fullMaker) Mk(ins ...G.Input) G.Input {
	*m.log = append(*m.log, fmt.Sprintf("%s(%d)", m.id, len(ins)))
	return fullMaker{maker{ins[0].Node(), m.id, m.log}, nil}
}

// lval is what the model knows of an input.
type lval struct {
	in   G.Input
	err  error   // it stands for this failure
	node *G.Node // it stands for this node
	mk   string  // calls of it go through a maker of that name
	full bool    // and what that maker makes is a maker again when used as operand
}

type lworld struct {
	g    *G.ExprGraph
	vals []*lval
	log  []string
}

var (
	errLeft  = errors.New("left failed")
	errRight = errors.New("right failed")
	errFn    = errors.New("the function failed")
	errMaker = errors.New("the maker failed")
)

func newLworld() *lworld {
	w := &lworld{g: G.NewGraph()}
	x := newBoundInput(w.g, "x", genRT("f64", 0, 1, 2, 2))
	y := newBoundInput(w.g, "y", genRT("f64", 0, 2, 2))
	z := newBoundInput(w.g, "z", genRT("f64", 0, 3, 2, 2))
	w.vals = []*lval{
		{in: x, node: x},
		{in: y, node: y},
		{in: G.Err(errLeft), err: errLeft},
		{in: G.LiftResult(nil, errRight), err: errRight},
		{in: foreign{z}, node: z},
		{in: maker{z, "maker", &w.log}, node: z, mk: "maker"},
		{in: fullMaker{maker{x, "full", &w.log}, nil}, node: x, mk: "full", full: true},
		{in: fullMaker{maker{x, "failed", &w.log}, errMaker}, err: errMaker},
	}
	return w
}

const lbase = 8

var lfuncs = []string{"Neg", "fail1", "Sum0", "Add", "Mul", "fail2", "BAdd", "BFail"}

func larity(f int) int {
	if f < 3 {
		return 1
	}
	return 2
}

// call applies lifted function f and compares with the model.
func (w *lworld) call(t *T, f int, args []int) {
	var calls [][]*G.Node
	var ret *G.Node
	var retErr error
	note := func(n *G.Node, err error, args ...*G.Node) (*G.Node, error) {
		calls = append(calls, args)
		ret, retErr = n, err
		return n, err
	}
	var axes []int
	var pats [2][]byte
	f1 := func(a *G.Node) (*G.Node, error) {
		if lfuncs[f] == "fail1" {
			return note(a, errFn, a)
		}
		n, err := G.Neg(a)
		return note(n, err, a)
	}
	f1a := func(a *G.Node, ax ...int) (*G.Node, error) {
		axes = ax
		n, err := G.Sum(a, ax...)
		return note(n, err, a)
	}
	f2 := func(a, b *G.Node) (*G.Node, error) {
		switch lfuncs[f] {
		case "fail2":
			return note(b, errFn, a, b)
		case "Mul":
			n, err := G.Mul(a, b)
			return note(n, err, a, b)
		}
		n, err := G.Add(a, b)
		return note(n, err, a, b)
	}
	fb := func(a, b *G.Node, l, r []byte) (*G.Node, error) {
		pats = [2][]byte{l, r}
		if lfuncs[f] == "BFail" {
			return note(a, errFn, a, b)
		}
		n, err := G.BroadcastAdd(a, b, l, r)
		return note(n, err, a, b)
	}
	a := w.vals[args[0]]
	b := a
	if len(args) > 1 {
		b = w.vals[args[1]]
	}
	w.log = nil
	var res G.Result
	switch lfuncs[f] {
	case "Neg", "fail1":
		res = G.Lift1(f1)(a.in)
	case "Sum0":
		res = G.Lift1Axial(f1a)(a.in, 0)
	case "BAdd", "BFail":
		res = G.Lift2Broadcast(fb)(a.in, b.in, nil, []byte{0})
	default:
		res = G.Lift2(f2)(a.in, b.in)
	}
	t.Trans(1)
	t.Trace(1)
	operands := []*lval{a}
	if larity(f) == 2 {
		operands = append(operands, b)
	}
	out := &lval{in: res}
	for _, o := range operands {
		if o.err != nil {
			out.err = o.err
			break
		}
	}
	if out.err != nil {
		if len(calls) != 0 {
			t.Failf("%s was called although an operand stands for a failure", lfuncs[f])
		}
	} else {
		if len(calls) != 1 {
			t.Failf("%s was called %d times", lfuncs[f], len(calls))
		}
		for i, o := range operands {
			if calls[0][i] != o.node {
				t.Failf("operand %d of %s is not the node it was given", i, lfuncs[f])
			}
		}
		switch lfuncs[f] {
		case "Sum0":
			if fmt.Sprint(axes) != "[0]" {
				t.Failf("the axes are %v", axes)
			}
		case "BAdd", "BFail":
			if pats[0] != nil || fmt.Sprint(pats[1]) != "[0]" {
				t.Failf("the patterns are %v", pats)
			}
		}
		if retErr != nil {
			out.err = retErr
		} else {
			out.node = ret
		}
	}
	w.check(t, lfuncs[f], out, operands)
	w.vals = append(w.vals, out)
}

// check compares a result with what the model expects.
func (w *lworld) check(t *T, what string, out *lval, operands []*lval) {
	res, ok := out.in.(G.Result)
	if !ok {
		t.Failf("%s: not a result", what)
	}
	if out.err != nil {
		if res.Err() == nil {
			t.Failf("%s: the failure %q is lost", what, out.err)
		}
		if c := res.Err(); !errors.Is(c, out.err) {
			t.Failf("%s: the failure is %q, want %q", what, c, out.err)
		}
		if res.Node() != nil || len(res.Nodes()) != 0 {
			t.Failf("%s: a failed result has a node", what)
		}
		if G.CheckOne(res) == nil {
			t.Failf("%s: CheckOne accepts a failed result", what)
		}
		if len(w.log) != 0 {
			t.Failf("%s: a failed result was handed to %v", what, w.log)
		}
		t.State("err", errors.Is(out.err, errFn), errors.Is(out.err, errLeft), errors.Is(out.err, errRight), errors.Is(out.err, errMaker))
		return
	}
	if err := res.Err(); err != nil {
		t.Failf("%s: fails with %v", what, err)
	}
	if res.Node() != out.node {
		t.Failf("%s: the result is not the node computed", what)
	}
	if ns := res.Nodes(); len(ns) != 1 || ns[0] != out.node {
		t.Failf("%s: Nodes() is %v", what, ns)
	}
	if err := G.CheckOne(res); err != nil {
		t.Failf("%s: CheckOne: %v", what, err)
	}
	var want []string
	for _, o := range operands {
		if o.mk != "" {
			want = append(want, o.mk+"(1)")
			out.mk, out.full = o.mk, o.full
		}
	}
	if fmt.Sprint(want) != fmt.Sprint(w.log) {
		t.Failf("%s: made by %v, want %v", what, w.log, want)
	}
	if out.mk != "" && !out.full {
		out.mk = "" // a maker that is no result is wrapped
	}
	t.State("ok", out.node.Shape(), out.mk)
}

func runC34(c *Ctx) {
	type step struct {
		f    int
		args []int
	}
	steps := func(n int, fs []int) (r []step) {
		for _, f := range fs {
			for a := 0; a < n; a++ {
				if larity(f) == 1 {
					r = append(r, step{f, []int{a}})
					continue
				}
				for b := 0; b < n; b++ {
					r = append(r, step{f, []int{a, b}})
				}
			}
		}
		return r
	}
	var all []int
	for f := range lfuncs {
		all = append(all, f)
	}
	var rec func(hist []step, d int, fs []int)
	rec = func(hist []step, d int, fs []int) {
		if c.Stop() {
			return
		}
		if d == 0 {
			c.Case(func() string {
				s := "chain"
				for _, h := range hist {
					s += fmt.Sprintf("|%s%v", lfuncs[h.f], h.args)
				}
				return s
			}, func(t *T) {
				w := newLworld()
				for _, h := range hist {
					w.call(t, h.f, h.args)
				}
			})
			return
		}
		for _, s := range steps(lbase+len(hist), fs) {
			rec(append(hist[:len(hist):len(hist)], s), d-1, fs)
		}
	}
	rec(nil, 1, all)
	for _, s := range steps(lbase, all) {
		s := s
		c.Group(func() { rec([]step{s}, 1, all) })
	}
	if c.Thorough {
		for _, s := range steps(lbase, []int{0, 1, 3}) {
			s := s
			c.Group(func() { rec([]step{s}, 2, []int{0, 1, 3}) })
		}
	}
	// lists of inputs
	max := 4
	if c.Thorough {
		max = 6
	}
	for _, seq := range sequences(lbase+1, max, false) {
		seq := seq
		c.Case(func() string { return fmt.Sprintf("list|%v", seq) }, func(t *T) { listCase(t, seq) })
	}
	// what a function returned, with and without an error, over every list of operands
	for _, seq := range sequences(lbase, 3, false) {
		for v := 0; v < lbase; v++ {
			for fail := 0; fail < 2; fail++ {
				seq, v, fail := seq, v, fail
				c.Case(func() string { return fmt.Sprintf("transform|%d|fail%d|%v", v, fail, seq) }, func(t *T) { transformCase(t, v, fail == 1, seq) })
			}
		}
	}
}

// listCase gives a list of inputs to NodesFromInputs; number lbase is a
// collection of nodes, which is not a node.
func listCase(t *T, seq []int) {
	w := newLworld()
	w.vals = append(w.vals, &lval{in: G.Nodes{w.vals[0].node, w.vals[1].node}})
	var ins []G.Input
	bad, many := error(nil), false
	var want []*G.Node
	for _, i := range seq {
		v := w.vals[i]
		ins = append(ins, v.in)
		if bad == nil && !many {
			bad, many = v.err, v.err == nil && v.node == nil
		}
		want = append(want, v.node)
	}
	ns, err := G.NodesFromInputs(ins...)
	t.Trans(1)
	t.Trace(1)
	t.State(seq)
	switch {
	case bad != nil:
		if err == nil {
			t.Failf("a failed input is accepted")
		}
		if !errors.Is(err, bad) {
			t.Failf("fails with %v, want %v", err, bad)
		}
	case many:
		if err == nil {
			t.Failf("an input that is not one node is accepted")
		}
	default:
		if err != nil {
			t.Failf("%v", err)
		}
		if len(ns) != len(want) {
			t.Failf("%d nodes of %d inputs", len(ns), len(want))
		}
		for i := range ns {
			if ns[i] != want[i] {
				t.Failf("node %d is another one", i)
			}
		}
	}
}

// transformCase lifts (value v, error) as the result of a call with operands seq.
func transformCase(t *T, v int, fail bool, seq []int) {
	w := newLworld()
	val := w.vals[v]
	var ins []G.Input
	var ops []*lval
	for _, i := range seq {
		ins, ops = append(ins, w.vals[i].in), append(ops, w.vals[i])
	}
	var err error
	if fail {
		err = errFn
	}
	res := G.TransformResult(ins...)(val.in, err)
	t.Trans(2)
	t.Trace(2)
	out := &lval{in: res, node: val.node, err: val.err}
	mks := false
	for _, o := range ops {
		if _, ok := o.in.(G.Mker); ok {
			mks = true
			if o.mk == "" { // the failed maker makes things all the same when asked directly
				o.mk = "failed"
			}
		}
	}
	if fail {
		out.err, out.node = errFn, nil
	} else if mks && val.err != nil {
		t.Count("outside_domain", 1) // a maker made from a failed value without an error
		return
	}
	if val.err == errMaker && !fail {
		// a result of a foreign type that is a failure and has a node: it is handed on
		if res.Err() != errMaker {
			t.Failf("the failure of the value is lost")
		}
	} else {
		w.check(t, "TransformResult", out, ops)
	}
	if len(seq) != 0 {
		return
	}
	w.log = nil
	lifted := G.LiftResult(val.in, err)
	if val.err == errMaker && !fail {
		if lifted.Err() != errMaker {
			t.Failf("LiftResult: the failure of the value is lost")
		}
		return
	}
	w.check(t, "LiftResult", &lval{in: lifted, node: out.node, err: out.err}, nil)
}
