package main

// C17: graph queries and transformations.

import (
	"fmt"
	"sort"
	"strings"

	"gonum.org/v1/gonum/graph"
	G "gorgonia.org/gorgonia"
)

func init() {
	register(&Check{ID: "C17", Run: runC17, Procs: 2,
		Rule: "A case is a program built step by step, with statements, removals of unused nodes, early queries and a clone taken at some step. After every step every query of the graph is compared with a model that only knows which node was applied to which. states: distinct (graph, step) model states; transitions: construction steps; traces: complete comparisons of all queries."})
}

// gm is the model of a graph: nodes in order of construction.
type gm struct {
	g     *G.ExprGraph
	n     []*G.Node
	kids  [][]int
	input []bool
	stmt  []bool
	names map[string]int
	gone  []*G.Node
}

func (m *gm) add(n *G.Node, kids []int, input, stmt bool) int {
	m.n = append(m.n, n)
	m.kids = append(m.kids, kids)
	m.input = append(m.input, input)
	m.stmt = append(m.stmt, stmt)
	return len(m.n) - 1
}

func (m *gm) index() map[*G.Node]int {
	r := map[*G.Node]int{}
	for i, n := range m.n {
		if n != nil {
			r[n] = i
		}
	}
	return r
}

func drain(it graph.Nodes) (r []*G.Node) {
	if it == nil {
		return nil
	}
	for it.Next() {
		r = append(r, it.Node().(*G.Node))
	}
	return r
}

// compare asks every query and compares; it returns the first difference.
func (m *gm) compare(deep bool) string {
	g, ix := m.g, m.index()
	name := func(ns []*G.Node) (string, bool) {
		var l []string
		ok := true
		for _, n := range ns {
			i, in := ix[n]
			if !in {
				ok = false
				l = append(l, fmt.Sprintf("?%v", n))
				continue
			}
			l = append(l, fmt.Sprint(i))
		}
		return strings.Join(l, " "), ok
	}
	set := func(ns []*G.Node) string {
		s, _ := name(ns)
		l := strings.Fields(s)
		sort.Strings(l)
		return strings.Join(l, " ")
	}
	ints := func(l []int) string {
		var ns []*G.Node
		for _, i := range l {
			ns = append(ns, m.n[i])
		}
		return set(ns)
	}
	var live, inputs, parentless []int
	parents := make([][]int, len(m.n))
	for i, n := range m.n {
		if n == nil {
			continue
		}
		live = append(live, i)
		if m.input[i] {
			inputs = append(inputs, i)
		}
		seen := map[int]bool{}
		for _, k := range m.kids[i] {
			if !seen[k] {
				parents[k] = append(parents[k], i)
			}
			seen[k] = true
		}
	}
	for _, i := range live {
		if len(parents[i]) == 0 {
			parentless = append(parentless, i)
		}
	}
	if got, want := set(g.AllNodes()), ints(live); got != want {
		return fmt.Sprintf("AllNodes: %s, want %s", got, want)
	}
	if got, want := set(drain(g.Nodes())), ints(live); got != want {
		return fmt.Sprintf("Nodes: %s, want %s", got, want)
	}
	if got, want := set(g.Inputs()), ints(inputs); got != want {
		return fmt.Sprintf("Inputs: %s, want %s", got, want)
	}
	// roots: parentless nodes; what a statement alone refers to counts as well
	may := map[int]bool{}
	for _, i := range parentless {
		may[i] = true
		if m.stmt[i] && len(m.kids[i]) == 1 && len(parents[m.kids[i][0]]) == 1 {
			may[m.kids[i][0]] = true
		}
	}
	roots := map[int]bool{}
	for _, r := range g.Roots() {
		i, ok := ix[r]
		if !ok || !may[i] {
			return fmt.Sprintf("Roots: %v is none (%v)", r, g.Roots())
		}
		roots[i] = true
	}
	for _, i := range parentless {
		if !roots[i] {
			return fmt.Sprintf("Roots: value %d is missing in %v", i, g.Roots())
		}
	}
	ids := map[int64]bool{}
	for _, i := range live {
		n := m.n[i]
		if ids[n.ID()] {
			return fmt.Sprintf("two nodes have the id %d", n.ID())
		}
		ids[n.ID()] = true
		if gn, ok := g.Node(n.ID()).(*G.Node); !ok || gn != n {
			return fmt.Sprintf("Node(%d): another node", n.ID())
		}
		if !g.Has(n.ID()) {
			return fmt.Sprintf("Has(%d): false", n.ID())
		}
		got, _ := name(drain(g.From(n.ID())))
		var kids []*G.Node
		for _, k := range m.kids[i] {
			kids = append(kids, m.n[k])
		}
		if want, _ := name(kids); got != want {
			return fmt.Sprintf("operands of value %d: %s, want %s", i, got, want)
		}
		if got, want := set(drain(g.To(n.ID()))), ints(parents[i]); got != want {
			return fmt.Sprintf("users of value %d: %s, want %s", i, got, want)
		}
		for _, j := range live {
			e := false
			for _, k := range m.kids[i] {
				e = e || k == j
			}
			u, v := n.ID(), m.n[j].ID()
			if g.HasEdgeFromTo(u, v) != e {
				return fmt.Sprintf("HasEdgeFromTo(%d,%d) is %v", i, j, !e)
			}
			r := false
			for _, k := range m.kids[j] {
				r = r || k == i
			}
			if g.HasEdgeBetween(u, v) != (e || r) {
				return fmt.Sprintf("HasEdgeBetween(%d,%d) is %v", i, j, !(e || r))
			}
			ed := g.Edge(u, v)
			if (ed != nil) != e {
				return fmt.Sprintf("Edge(%d,%d): %v", i, j, ed)
			}
			if ed != nil && (ed.From() != graph.Node(n) || ed.To() != graph.Node(m.n[j])) {
				return fmt.Sprintf("Edge(%d,%d) connects others", i, j)
			}
		}
	}
	for _, n := range m.gone {
		if !ids[n.ID()] {
			if gn, ok := g.Node(n.ID()).(*G.Node); ok && gn != nil || g.Has(n.ID()) {
				return fmt.Sprintf("the removed node %d is still found", n.ID())
			}
		}
	}
	type pair struct{ a, b int }
	edges := map[pair]bool{}
	if it := g.Edges(); it != nil {
		for it.Next() {
			a, oka := ix[it.Edge().From().(*G.Node)]
			b, okb := ix[it.Edge().To().(*G.Node)]
			if !oka || !okb {
				return "Edges: an end is not in the graph"
			}
			edges[pair{a, b}] = true
		}
	}
	for _, i := range live {
		for _, k := range m.kids[i] {
			if !edges[pair{i, k}] {
				return fmt.Sprintf("Edges: no edge from value %d to its operand %d", i, k)
			}
		}
	}
	for e := range edges {
		if !g.HasEdgeFromTo(m.n[e.a].ID(), m.n[e.b].ID()) {
			return fmt.Sprintf("Edges: an edge from value %d to %d, which is not an operand", e.a, e.b)
		}
	}
	for s, i := range m.names {
		if m.n[i] == nil {
			continue
		}
		if got := g.ByName(s); len(got) != 1 || got[0] != m.n[i] {
			return fmt.Sprintf("ByName(%q): %v", s, got)
		}
	}
	if !deep {
		return ""
	}
	for k, sorter := range []func(*G.ExprGraph) (G.Nodes, error){G.Sort, G.UnstableSort} {
		s, err := sorter(g)
		if err != nil {
			return fmt.Sprintf("sort %d: %v", k, err)
		}
		if got, want := set(s), ints(live); got != want {
			return fmt.Sprintf("sort %d: %s, want a permutation of %s", k, got, want)
		}
		pos := map[*G.Node]int{}
		for i, n := range s {
			pos[n] = i
		}
		for _, i := range live {
			for _, j := range m.kids[i] {
				if pos[m.n[i]] >= pos[m.n[j]] {
					return fmt.Sprintf("sort %d: value %d comes after its operand %d", k, i, j)
				}
			}
		}
	}
	for _, i := range live {
		reach := map[int]bool{}
		var walk func(int)
		walk = func(j int) {
			if !reach[j] {
				reach[j] = true
				for _, k := range m.kids[j] {
					walk(k)
				}
			}
		}
		walk(i)
		var want []int
		for j := range reach {
			want = append(want, j)
		}
		var got []*G.Node
		for n := range G.WalkGraph(m.n[i]) {
			got = append(got, n)
		}
		if set(got) != ints(want) {
			return fmt.Sprintf("WalkGraph(%d): %s, want %s", i, set(got), ints(want))
		}
		// the sub-graph of a node: what it needs, and what statements say about that
		need := map[int]bool{}
		for j := range reach {
			need[j] = true
		}
		exact := ints(want)
		for _, p := range live {
			if m.stmt[p] {
				for _, k := range m.kids[p] {
					if reach[k] {
						need[p] = true
					}
				}
			}
		}
		want = want[:0]
		for j := range need {
			want = append(want, j)
		}
		for what, sg := range map[string]*G.ExprGraph{"SubgraphRoots": g.SubgraphRoots(m.n[i]), "Subgraph": g.Subgraph(m.n[i])} {
			if got := set(sg.AllNodes()); got != ints(want) {
				return fmt.Sprintf("%s(%d): %s, want %s", what, i, got, ints(want))
			}
		}
		sg := g.ExactSubgraphRoots(m.n[i])
		if got := set(sg.AllNodes()); got != exact {
			return fmt.Sprintf("ExactSubgraphRoots(%d): %s, want %s", i, got, exact)
		}
		if !m.stmt[i] {
			if r := sg.Roots(); len(r) != 1 || r[0] != m.n[i] {
				return fmt.Sprintf("roots of ExactSubgraphRoots(%d): %v", i, r)
			}
		}
		ss, err := G.Sort(sg)
		if err != nil {
			return fmt.Sprintf("sort of a sub-graph: %v", err)
		}
		if set(ss) != exact {
			return fmt.Sprintf("sort of ExactSubgraphRoots(%d): %s, want %s", i, set(ss), exact)
		}
	}
	return ""
}

// cloned is the model of the graph's clone.
func (m *gm) cloned(g2 *G.ExprGraph) (*gm, string) {
	c := &gm{g: g2, kids: append([][]int{}, m.kids...), input: append([]bool{}, m.input...), stmt: append([]bool{}, m.stmt...), names: map[string]int{}}
	for s, i := range m.names {
		c.names[s] = i
	}
	have := m.index()
	for i, n := range m.n {
		if n == nil {
			c.n = append(c.n, nil)
			continue
		}
		x, ok := g2.Node(n.ID()).(*G.Node)
		if !ok || x == nil {
			return nil, fmt.Sprintf("the clone lacks value %d", i)
		}
		if _, shared := have[x]; shared {
			return nil, fmt.Sprintf("the clone shares value %d", i)
		}
		if x.Name() != n.Name() || x.Graph() != g2 || !x.Shape().Eq(n.Shape()) || fmt.Sprint(x.Type()) != fmt.Sprint(n.Type()) {
			return nil, fmt.Sprintf("the clone of value %d is %v of shape %v, want %v of shape %v", i, x, x.Shape(), n, n.Shape())
		}
		if a, b := n.Value(), x.Value(); (a == nil) != (b == nil) || a != nil && !G.ValueEq(a, b) {
			return nil, fmt.Sprintf("the clone of value %d has the value %v, want %v", i, b, a)
		}
		c.n = append(c.n, x)
	}
	return c, ""
}

type gstep struct {
	kind byte // b build the next instruction, s statement on value at, r remove value at, c clone
	at   int
}

func (s gstep) String() string {
	if s.kind == 'b' || s.kind == 'c' {
		return string(s.kind)
	}
	return fmt.Sprintf("%c%d", s.kind, s.at)
}

// graphCase builds the program following the steps. early: queries are asked
// after every step, so that anything remembered from an answer shows later.
func graphCase(t *T, p *Prog, steps []gstep, early bool) {
	mk := func() *gm { return &gm{g: G.NewGraph(), names: map[string]int{}} }
	m := mk()
	for i := 0; i < p.NIn; i++ {
		if p.Const != nil && p.Const[i] {
			m.add(m.g.AddNode(G.NewConstant(goVal(p.Vals[i]), G.WithName("const"+inNames[i]))), nil, false, false)
			continue
		}
		m.names[inNames[i]] = m.add(newBoundInput(m.g, inNames[i], p.Vals[i]), nil, true, false)
	}
	val := map[int]int{} // value of the program -> node of the model
	for i := 0; i < p.NIn; i++ {
		val[i] = i
	}
	name := ""
	sink := make([]G.Value, 16)
	cmp := func(m *gm, what string, deep bool) {
		if d := m.compare(deep); d != "" {
			t.Failf("after %s: %s: %s", name, what, d)
		}
		t.Trace(1)
	}
	build := func(m *gm, k int) {
		in := p.Instrs[k]
		var args []*G.Node
		var kids []int
		for _, a := range in.Args {
			args = append(args, m.n[val[a]])
			kids = append(kids, val[a])
		}
		n, err := in.Op.Build(args)
		if err != nil {
			t.Failf("build: %v", err)
		}
		m.add(n, kids, false, false)
	}
	var twin *gm
	next := 0
	do := func(m *gm, s gstep, first bool) {
		switch s.kind {
		case 'b':
			build(m, next)
		case 's':
			r := G.Read(m.n[val[s.at]], &sink[len(m.n)])
			m.add(r, []int{val[s.at]}, false, true)
		case 'r':
			i := val[s.at]
			m.g.RemoveNode(m.n[i])
			m.gone = append(m.gone, m.n[i])
			m.n[i] = nil
		}
	}
	if early {
		cmp(m, "graph", true)
	}
	for si, s := range steps {
		name += s.String() + " "
		t.Trans(1)
		if s.kind == 'c' {
			g2 := m.g.Clone().(*G.ExprGraph)
			c, d := m.cloned(g2)
			if d != "" {
				t.Failf("after %s: %s", name, d)
			}
			twin = c
			cmp(twin, "clone", true)
			cmp(m, "cloned graph", early)
			continue
		}
		do(m, s, true)
		if s.kind == 'b' {
			val[p.NIn+next] = len(m.n) - 1
		}
		t.State(p.String(), name)
		last := si == len(steps)-1
		if early || last {
			cmp(m, "graph", true)
		}
		if twin != nil {
			// the clone does not follow
			cmp(twin, "clone left alone", last)
			// and the same step can be done there
			if last {
				full := *twin
				_ = full
				nn := next
				do(twin, s, false)
				next = nn
				cmp(twin, "clone built on", true)
				cmp(m, "graph whose clone was built on", true)
			} else {
				nn := next
				do(twin, s, false)
				next = nn
			}
		}
		if s.kind == 'b' {
			next++
		}
	}
	if next != len(p.Instrs) {
		return
	}
	// values: original and clone, separately bound
	all := true
	for _, s := range steps {
		all = all && s.kind != 'r'
	}
	if !all {
		return
	}
	run := func(m *gm, vals []*RT, what string) {
		for kind := 0; kind < 2; kind++ {
			var vm G.VM
			if kind == 0 {
				vm = G.NewTapeMachine(m.g)
			} else {
				vm = G.NewLispMachine(m.g, G.ExecuteFwdOnly())
			}
			if err := vm.RunAll(); err != nil {
				closeVM(vm)
				t.Failf("%s: run: %v", what, err)
			}
			for v, i := range val {
				if m.n[i] == nil || kind == 0 && (len(drain(m.g.To(m.n[i].ID()))) > 0) {
					continue
				}
				if d := diffValue(m.n[i].Value(), vals[v], tolFor(p.DT, p.scale())); d != "" {
					closeVM(vm)
					t.Failf("%s: value %d: %s", what, v, d)
				}
			}
			closeVM(vm)
		}
	}
	run(m, p.Vals, "graph")
	if twin == nil {
		return
	}
	ins := make([]*RT, p.NIn)
	for i := range ins {
		ins[i] = p.Vals[i]
		if p.Const == nil || !p.Const[i] {
			ins[i] = genRT(p.Vals[i].DT, 2, 31+i, p.Vals[i].Shape...)
			if err := G.Let(twin.n[i], goVal(ins[i])); err != nil {
				t.Failf("binding in the clone: %v", err)
			}
		}
	}
	vals, err := p.eval(ins)
	if err != nil {
		return
	}
	run(twin, vals, "clone with other inputs")
	run(m, p.Vals, "graph after its clone was run")
	for i := 0; i < p.NIn; i++ {
		if d := diffValue(twin.n[i].Value(), ins[i], 0); d != "" {
			t.Failf("input %d of the clone after the graph was run: %s", i, d)
		}
	}
}

// gradGraph compares parent and child queries of a differentiated graph with
// each other, and its clone with it.
func gradGraph(t *T, p *Prog) {
	g := G.NewGraph()
	used := p.reach(len(p.Vals) - 1)
	nodes, err := p.buildFor(g, used)
	if err != nil {
		t.Failf("build: %v", err)
	}
	cost, err := p.buildCost(g, nodes)
	if err != nil {
		t.Failf("cost: %v", err)
	}
	var xs G.Nodes
	for i := 0; i < p.NIn; i++ {
		if used[i] {
			xs = append(xs, nodes[i])
		}
	}
	if _, err := G.Grad(cost, xs...); err != nil {
		t.Count("refused", 1)
		return
	}
	self := func(g *G.ExprGraph) *gm {
		m := &gm{g: g, names: map[string]int{}}
		at := map[*G.Node]int{}
		for i, n := range g.AllNodes() {
			at[n] = i
		}
		for _, n := range g.AllNodes() {
			var kids []int
			for _, k := range drain(g.From(n.ID())) {
				i, ok := at[k]
				if !ok {
					t.Failf("%v has an operand outside the graph", n)
				}
				kids = append(kids, i)
			}
			m.add(n, kids, n.IsVar(), false)
		}
		return m
	}
	m := self(g)
	t.Trans(len(m.n))
	t.State(p.String(), "grad")
	if d := m.compare(true); d != "" {
		t.Failf("differentiated graph: %s", d)
	}
	g2 := g.Clone().(*G.ExprGraph)
	c, d := m.cloned(g2)
	if d != "" {
		t.Failf("%s", d)
	}
	if d := c.compare(true); d != "" {
		t.Failf("clone of the differentiated graph: %s", d)
	}
	if d := m.compare(true); d != "" {
		t.Failf("differentiated graph after cloning: %s", d)
	}
	t.Trace(3)
	// gradients stay where they belong
	for i, n := range m.n {
		a, b := n.Deriv(), c.n[i].Deriv()
		if (a == nil) != (b == nil) || a != nil && (a.ID() != b.ID() || b != c.n[m.index()[a]]) {
			t.Failf("the clone of %v has another derivative", n)
		}
	}
	vm := G.NewTapeMachine(g2)
	defer closeVM(vm)
	if err := vm.RunAll(); err != nil {
		t.Failf("run of the clone: %v", err)
	}
	idx, want, err := p.wants(seq(p.NIn), p.weights())
	if err != nil {
		return
	}
	for k, i := range idx {
		n := c.n[m.index()[nodes[i]]]
		if n.Deriv() == nil {
			t.Failf("the clone of input %d has no derivative", i)
		}
		if d := diffValue(n.Deriv().Value(), want[k], gradTol(p.DT, p.scale())*(1+want[k].maxAbs())); d != "" {
			t.Failf("gradient of input %d in the clone: %s", i, d)
		}
	}
}

func seq(n int) (r []int) {
	for i := 0; i < n; i++ {
		r = append(r, i)
	}
	return
}

func runC17(c *Ctx) {
	run := func(tag string, ins []*RT, consts []bool, alpha []*Op, n int, full bool) {
		enumProgs(c, "f64", ins, consts, alpha, n, EnumOpts{Limit: 1e3, MaxElems: 16, NoDup: true, Skip: simplified}, func(p *Prog) {
			if len(p.Instrs) != n {
				return
			}
			// every use of a constant makes a node of its own or shares one: only
			// programs whose operations are one node each are modelled
			var add func(steps []gstep, built, stmts, removed, clones int, gone map[int]bool)
			add = func(steps []gstep, built, stmts, removed, clones int, gone map[int]bool) {
				if built == len(p.Instrs) {
					st := append([]gstep{}, steps...)
					for _, early := range []bool{false, true} {
						early := early
						if !early && removed+stmts == 0 {
							continue
						}
						c.Case(func() string { return fmt.Sprintf("%s|%s|%v|early=%v", tag, p.String(), st, early) },
							func(t *T) { graphCase(t, p, st, early) })
					}
				}
				if len(steps) >= n+2 {
					return
				}
				if built < len(p.Instrs) {
					ok := true
					for _, a := range p.Instrs[built].Args {
						ok = ok && !gone[a]
					}
					if ok {
						add(append(steps[:len(steps):len(steps)], gstep{'b', 0}), built+1, stmts, removed, clones, gone)
					}
				}
				if clones == 0 {
					add(append(steps[:len(steps):len(steps)], gstep{'c', 0}), built, stmts, removed, 1, gone)
				}
				if !full {
					return
				}
				for v := 0; v < p.NIn+built; v++ {
					if gone[v] {
						continue
					}
					if stmts == 0 && v >= p.NIn {
						add(append(steps[:len(steps):len(steps)], gstep{'s', v}), built, stmts+1, removed, clones, gone)
					}
					used := false
					for k := 0; k < built; k++ {
						for _, a := range p.Instrs[k].Args {
							used = used || a == v && !gone[p.NIn+k]
						}
					}
					for _, s := range steps {
						used = used || s.kind == 's' && s.at == v
					}
					if !used && removed == 0 && clones == 0 {
						g2 := map[int]bool{v: true}
						for k := range gone {
							g2[k] = true
						}
						add(append(steps[:len(steps):len(steps)], gstep{'r', v}), built, stmts, removed+1, clones, g2)
					}
				}
			}
			c.Group(func() { add(nil, 0, 0, 0, 0, map[int]bool{}) })
			if p.diffable(false) && p.noDead() {
				c.Case(func() string { return fmt.Sprintf("%s|%s|grad", tag, p.String()) }, func(t *T) { gradGraph(t, p) })
			}
		})
	}
	sh := func(shapes ...[]int) (r []*RT) {
		for i, s := range shapes {
			r = append(r, genRT("f64", 1, 1+i, s...))
		}
		return r
	}
	wide := cat(uops("Neg", "Tanh", "Square"), bops("Add", "Sub", "Prod"), []*Op{opSum(), opSum(0), opMul(), opReshape(4), opTranspose(1, 0), opConcat(0, 2)})
	core := cat(uops("Neg", "Exp"), bops("Add", "Sub"))
	m22 := []int{2, 2}
	run("one", sh(m22, m22), nil, wide, 1, true)
	run("two", sh(m22, m22), nil, cat(uops("Neg", "Tanh"), bops("Add", "Sub"), []*Op{opSum(), opMul(), opConcat(0, 2)}), 2, true)
	run("const", sh(m22, m22), []bool{false, true}, core, 2, true)
	run("scalar", sh(nil, nil), []bool{false, true}, core, 2, true)
	run("three", sh(m22), nil, core, 3, false)
	if c.Thorough {
		run("twox", sh(m22, m22), nil, wide, 2, true)
		run("threex", sh(m22, m22), nil, core, 3, true)
		run("four", sh(m22), nil, cat(uops("Neg"), bops("Add", "Sub")), 4, false)
	}
}
