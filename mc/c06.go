package main

import (
	"fmt"
	"math"
	"strings"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
)

func init() {
	register(&Check{ID: "C06", Run: runC06, Procs: 1,
		Rule:        "states: distinct (program, bindings, accumulated gradients, machine phase); transitions: events applied; traces: event histories replayed on the library and compared after every run",
		Assumptions: []string{"running a finished machine again without a reset is outside the property"}})
}

// Events of a history. Let events are evLet + 2*input + dataset.
const (
	evRun = iota
	evReset
	evBad
	evClear
	evNew
	evUnbind
	evLet
)

func evName(e int) string {
	if e >= evLet {
		return fmt.Sprintf("let%d=%d", (e-evLet)/2, (e-evLet)%2)
	}
	return []string{"run", "reset", "badlet", "clear", "newmachine", "unbind"}[e]
}

func histName(h []int) string {
	var s []string
	for _, e := range h {
		s = append(s, evName(e))
	}
	return strings.Join(s, ",")
}

type session struct {
	t     *T
	p     *Prog
	kind  int
	g     *G.ExprGraph
	nodes []*G.Node
	roots map[*G.Node]bool
	cost  *G.Node
	xs    G.Nodes
	xi    []int
	grads []*G.Node
	gvals []G.Value
	reads []G.Value
	m     G.VM
	data  [][2]*RT
	// model
	cur       []int
	done, ran bool
	acc       []*RT
	used      []bool
}

func newSession(t *T, p *Prog, kind int, late bool) *session {
	s := &session{t: t, p: p, kind: kind, g: G.NewGraph(), roots: map[*G.Node]bool{}}
	s.used = p.reach(len(p.Vals) - 1)
	for i := 0; i < p.NIn; i++ {
		s.data = append(s.data, [2]*RT{p.Vals[i], genRT(p.Vals[i].DT, 2, 31+i, p.Vals[i].Shape...)})
		s.cur = append(s.cur, 0)
		if !s.used[i] && kind != kTape && kind != kLispFwd {
			s.nodes = append(s.nodes, nil)
			continue
		}
		if late {
			s.cur[i] = -1
			s.nodes = append(s.nodes, newInput(s.g, inNames[i], p.Vals[i]))
		} else {
			s.nodes = append(s.nodes, newBoundInput(s.g, inNames[i], p.Vals[i]))
		}
	}
	for i, in := range p.Instrs {
		args := make([]*G.Node, len(in.Args))
		for j, a := range in.Args {
			args[j] = s.nodes[a]
		}
		n, err := in.Op.Build(args)
		if err != nil {
			t.Failf("build: instruction %d: %v", i, err)
		}
		s.nodes = append(s.nodes, n)
	}
	for _, n := range s.nodes {
		if n != nil {
			s.roots[n] = s.g.To(n.ID()).Len() == 0
		}
	}
	s.acc = make([]*RT, p.NIn)
	if kind == kTapeGrad || kind == kLisp {
		var err error
		if s.cost, err = p.buildCost(s.g, s.nodes); err != nil {
			t.Failf("cost: %v", err)
		}
		for i := 0; i < p.NIn; i++ {
			if s.used[i] {
				s.xs = append(s.xs, s.nodes[i])
				s.xi = append(s.xi, i)
				s.acc[i] = newRT(p.DT, p.Vals[i].Shape...)
			}
		}
		if kind == kTapeGrad {
			gs, err := G.Grad(s.cost, s.xs...)
			if err != nil {
				t.Failf("Grad: %v", err)
			}
			s.grads = gs
			s.gvals = make([]G.Value, len(gs))
			for i, gn := range gs {
				G.Read(gn, &s.gvals[i])
			}
		}
	}
	s.reads = make([]G.Value, len(s.nodes))
	last := len(s.nodes) - 1
	G.Read(s.nodes[last], &s.reads[last])
	s.machine()
	return s
}

func (s *session) machine() {
	if s.m != nil {
		closeVM(s.m)
	}
	switch s.kind {
	case kTape:
		s.m = G.NewTapeMachine(s.g)
	case kTapeGrad:
		s.m = G.NewTapeMachine(s.g, G.BindDualValues(s.xs...))
	case kLispFwd:
		s.m = G.NewLispMachine(s.g, G.ExecuteFwdOnly())
	default:
		s.m = G.NewLispMachine(s.g)
	}
	s.done = false
}

// enabled tells whether the model allows the event here.
func (s *session) bound() bool {
	for i, c := range s.cur {
		if c < 0 && s.nodes[i] != nil {
			return false
		}
	}
	return true
}

// apply performs one event; it reports false if the event is not part of the
// model in this state.
func (s *session) apply(e int) bool {
	t, p := s.t, s.p
	switch {
	case e == evRun:
		if s.done || !s.bound() {
			return false
		}
		ins := make([]*RT, p.NIn)
		for i := range ins {
			ins[i] = s.data[i][0]
			if s.cur[i] > 0 {
				ins[i] = s.data[i][s.cur[i]]
			}
		}
		vals, err := p.eval(ins)
		if err != nil {
			return false
		}
		scale := 1.0
		for _, v := range vals {
			if !v.finite(1e3) {
				return false
			}
			scale = math.Max(scale, v.maxAbs())
		}
		q := &Prog{DT: p.DT, NIn: p.NIn, Instrs: p.Instrs, Vals: vals}
		var want []*RT
		for _, i := range s.xi {
			gr, err := p.gradAt(q.plain(), i, p.weights())
			if err != nil {
				return false
			}
			want = append(want, gr)
		}
		if err := s.m.RunAll(); err != nil {
			t.Failf("run: %v", err)
		}
		s.done, s.ran = true, true
		tol := tolFor(p.DT, scale)
		lisp := s.kind == kLispFwd || s.kind == kLisp
		for i, n := range s.nodes {
			if n != nil && (i < p.NIn || lisp || s.roots[n] && s.cost == nil) {
				if d := diffValue(n.Value(), vals[i], tol); d != "" {
					t.Failf("value %d: %s", i, d)
				}
			}
		}
		last := len(s.nodes) - 1
		if d := diffValue(s.reads[last], vals[last], tol); d != "" {
			t.Failf("reading of value %d: %s", last, d)
		}
		gt := gradTol(p.DT, scale)
		for k, i := range s.xi {
			for e := range want[k].D {
				s.acc[i].D[e].V += want[k].D[e].V
			}
			tg := gt * math.Max(1, math.Max(want[k].maxAbs(), s.acc[i].maxAbs()))
			if s.grads != nil {
				if d := diffValue(s.gvals[k], want[k], tg); d != "" {
					t.Failf("gradient of input %d: %s", i, d)
				}
			}
			gv, err := s.nodes[i].Grad()
			if err != nil {
				t.Failf("Grad() of input %d: %v", i, err)
			}
			if d := diffValue(gv, s.acc[i], tg); d != "" {
				t.Failf("accumulated gradient of input %d: %s", i, d)
			}
		}
		t.State(p.String(), s.kind, fmt.Sprint(s.cur))
	case e == evReset:
		s.m.Reset()
		s.done = false
	case e == evNew:
		s.machine()
	case e == evUnbind:
		u, ok := s.m.(interface{ UnbindAll() })
		if !ok || s.kind != kLispFwd && s.kind != kLisp {
			return false
		}
		u.UnbindAll()
	case e == evClear:
		if s.xs == nil || !s.ran {
			return false
		}
		if err := G.NewVanillaSolver(G.WithLearnRate(0)).Step(G.NodesToValueGrads(s.xs)); err != nil {
			t.Failf("solver: %v", err)
		}
		for _, i := range s.xi {
			for e := range s.acc[i].D {
				s.acc[i].D[e].V = 0
			}
		}
	case e == evBad:
		for i := 0; i < p.NIn; i++ {
			if s.nodes[i] == nil {
				continue
			}
			other := tensor.Float32
			if p.DT == "f32" {
				other = tensor.Float64
			}
			bad := []interface{}{tensor.New(tensor.Of(dtypes[p.DT]), tensor.WithShape(7, 5))}
			if p.Vals[i].isScalar() {
				bad = append(bad, 3)
			} else {
				bad = append(bad, tensor.New(tensor.Of(other), tensor.WithShape(p.Vals[i].Shape...)), 2.5)
			}
			for _, b := range bad {
				if err := G.Let(s.nodes[i], b); err == nil {
					t.Failf("input %d of shape %v accepted %T %v", i, p.Vals[i].Shape, b, b)
				}
			}
		}
	default:
		i, d := (e-evLet)/2, (e-evLet)%2
		if i >= p.NIn || s.nodes[i] == nil || s.cur[i] == d {
			return false
		}
		if err := G.Let(s.nodes[i], goVal(s.data[i][d])); err != nil {
			t.Failf("let: %v", err)
		}
		s.cur[i] = d
	}
	t.Trans(1)
	return true
}

// histCase replays a history; sequences the model does not allow are skipped.
func histCase(t *T, p *Prog, kind int, late bool, h []int) {
	s := newSession(t, p, kind, late)
	defer func() { closeVM(s.m) }()
	for k, e := range h {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if f, ok := r.(failure); ok {
						panic(failure{fmt.Sprintf("event %d (%s): %s", k+1, evName(e), f.msg)})
					}
					panic(failure{fmt.Sprintf("event %d (%s): panic: %v", k+1, evName(e), r)})
				}
			}()
			if !s.apply(e) {
				h = h[:k]
			}
		}()
		if len(h) == k {
			t.Count("disabled", 1)
			return
		}
	}
	t.Trace(1)
}

// histories lists all event sequences of length n that end with a run and
// contain no event that is a repetition or out of canonical order.
func histories(evs []int, n int, visit func([]int)) {
	h := make([]int, 0, n)
	var rec func(runs int, done bool)
	rec = func(runs int, done bool) {
		if len(h) == n {
			if h[n-1] == evRun {
				visit(append([]int{}, h...))
			}
			return
		}
		for _, e := range evs {
			d := done
			if len(h) > 0 {
				l := h[len(h)-1]
				if l == e || l >= evLet && e >= evLet && (e-evLet)/2 <= (l-evLet)/2 {
					continue
				}
			}
			switch e {
			case evRun:
				if done {
					continue
				}
				d = true
			case evReset, evNew:
				if !done {
					continue
				}
				d = false
			case evClear:
				if len(h) == 0 {
					continue
				}
			}
			h = append(h, e)
			rec(runs, d)
			h = h[:len(h)-1]
		}
	}
	rec(0, false)
}

// histAllowed leaves out histories with events the model does not allow.
func histAllowed(p *Prog, kind int, late bool, h []int) bool {
	grad := kind == kTapeGrad || kind == kLisp
	var used []bool
	if grad {
		used = p.reach(len(p.Vals) - 1)
	}
	var cur [4]int
	if late {
		cur = [4]int{-1, -1, -1, -1}
	}
	ran := false
	for _, e := range h {
		switch {
		case e == evRun:
			for i := 0; i < p.NIn; i++ {
				if cur[i] < 0 && (!grad || used[i]) {
					return false
				}
			}
			ran = true
		case e == evUnbind:
			if kind != kLisp && kind != kLispFwd {
				return false
			}
		case e == evClear:
			if !grad || !ran {
				return false
			}
		case e >= evLet:
			i, d := (e-evLet)/2, (e-evLet)%2
			if i >= p.NIn || grad && !used[i] || cur[i] == d {
				return false
			}
			cur[i] = d
		}
	}
	return true
}

func runC06(c *Ctx) {
	all := []int{kTape, kTapeGrad, kLispFwd, kLisp}
	run := func(tag, dt string, mode int, shapes [][]int, alpha []*Op, d int, kinds []int, late bool, hs [][]int) {
		var ins []*RT
		for i, s := range shapes {
			ins = append(ins, genRT(dt, mode, i, s...))
		}
		skip := simplified
		enumProgs(c, dt, ins, nil, alpha, d, EnumOpts{Skip: skip, Limit: 1e3}, func(p *Prog) {
			for _, kind := range kinds {
				if kind == kTapeGrad && !(p.diffable(false) && p.noDead()) || kind == kLisp && !(p.diffable(true) && p.noDead()) {
					continue
				}
				for _, h := range hs {
					kind, h := kind, h
					if !histAllowed(p, kind, late, h) {
						continue
					}
					c.Case(func() string {
						return fmt.Sprintf("%s|m%d|%s|%s|late=%v|%s", tag, mode, p.String(), kindName[kind], late, histName(h))
					}, func(t *T) { histCase(t, p, kind, late, h) })
				}
			}
		})
	}
	L := func(i, d int) int { return evLet + 2*i + d }
	// three runs with changing inputs
	var macro [][]int
	for _, sep := range []int{evReset, evNew} {
		macro = append(macro,
			[]int{evRun, sep, L(0, 1), L(1, 1), evRun, sep, L(0, 0), evRun},
			[]int{evRun, evClear, sep, L(0, 1), evRun, sep, evRun},
			[]int{evRun, evClear, sep, L(1, 1), evRun, evClear, sep, L(0, 1), evRun},
			[]int{evRun, sep, L(0, 1), evRun})
	}
	short := [][]int{{evRun, evReset, L(0, 1), evRun, evReset, L(0, 0), evRun}, {evRun, evClear, evReset, L(0, 1), L(1, 1), evRun}, {evRun, evNew, L(0, 1), evRun}}
	for _, shapes := range univ {
		for _, dt := range []string{"f64", "f32"} {
			run("wide", dt, 0, shapes, wideAlpha(), 1, all, false, macro)
		}
		run("wide", "f64", 0, shapes, wideAlpha(), 2, all, false, short[:2])
	}
	run("wide", "f64", 0, univ[1], wideAlpha(), 2, all, false, short[2:])
	// every history over few programs
	full := func(n int, evs ...int) (r [][]int) {
		histories(evs, n, func(h []int) { r = append(r, h) })
		return
	}
	evs1 := []int{evRun, evReset, evBad, evClear, evNew, evUnbind, L(0, 0), L(0, 1)}
	evs2 := append(append([]int{}, evs1...), L(1, 0), L(1, 1))
	few := append(cat(uops("Tanh"), bops("Prod")), opMul(), opTranspose(1, 0), opSlice(nil, &sl{1, 2, 0}), opConcat(0, 2), opSum(0), opReshape(4), opSoftmax(0, false))
	run("hist", "f64", 0, [][]int{{2, 2}, {2, 2}}, few, 1, all, false, full(5, evs2...))
	run("hist", "f64", 0, [][]int{{}, {}}, cat(uops("Exp"), bops("Sub")), 1, all, false, full(5, evs2...))
	run("late", "f64", 0, [][]int{{2, 2}, {2, 2}}, few, 1, all, true, full(5, evs2...))
	for _, shapes := range oneShapes {
		run("one", "f64", 0, shapes, oneAlpha(), 2, all, false, full(4, evs1...))
		run("one", "f32", 0, shapes, oneAlpha(), 3, all, false, short)
	}
	run("hist", "f64", 0, [][]int{{2, 2}}, few, 2, []int{kTapeGrad, kLisp}, false, full(4, evs1...))
	if c.Thorough {
		run("hist", "f64", 0, [][]int{{2, 2}, {2, 2}}, few, 1, all, false, full(6, evs2...))
		run("hist", "f32", 0, [][]int{{2, 2}}, few, 2, all, false, full(6, evs1...))
		for _, shapes := range univ {
			run("wide", "f64", 0, shapes, wideAlpha(), 2, all, false, macro)
			run("wide", "f32", 0, shapes, wideAlpha(), 2, all, false, short)
		}
		run("core", "f64", 0, [][]int{{2, 2}}, coreAlpha(), 3, all, false, short)
		run("hist", "f64", 0, [][]int{{2, 2}, {2, 2}}, few, 1, []int{kTapeGrad, kLisp}, false, full(7, evs2...))
	}
}
