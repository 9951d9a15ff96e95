package main

// C27: exported graph descriptions list exactly the graph's nodes and edges.

import (
	"fmt"
	"sort"
	"strings"

	"gonum.org/v1/gonum/graph/formats/dot"
	"gonum.org/v1/gonum/graph/formats/dot/ast"
	G "gorgonia.org/gorgonia"
	gdot "gorgonia.org/gorgonia/encoding/dot"
	"gorgonia.org/tensor"
)

func init() {
	register(&Check{ID: "C27", Run: runC27, Procs: 2,
		Rule:        "A case is a graph: every program up to the length bound, with constants, gradients, watched values, and names with special characters. Its dot documents are parsed and compared with the nodes and operands the graph reports, and the graph and what it computes after exporting with what they are without. states: distinct graphs; transitions: nodes and edges of the documents; traces: documents parsed.",
		Assumptions: []string{"group names (deprecated, used only by the deprecated exporters) are letters, digits, spaces, dashes and dots: the library behind ToDot does not escape other characters in identifiers"}})
}

// A dotDoc is a parsed document: how often each gorgonia node is defined
// (outside subgraphs and inside), and its edges from node to operand.
type dotDoc struct {
	top, sub map[string]int
	edges    map[string]int
	other    map[string]int // nodes that are not gorgonia's
}

func parseDot(doc []byte) (*dotDoc, error) {
	f, err := dot.ParseBytes(doc)
	if err != nil {
		return nil, err
	}
	if len(f.Graphs) != 1 || !f.Graphs[0].Directed {
		return nil, fmt.Errorf("%d graphs", len(f.Graphs))
	}
	d := &dotDoc{map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}}
	var walk func(l []ast.Stmt, in map[string]int) error
	walk = func(l []ast.Stmt, in map[string]int) error {
		for _, s := range l {
			switch x := s.(type) {
			case *ast.NodeStmt:
				if strings.HasPrefix(x.Node.ID, "Node_") {
					in[x.Node.ID]++
				} else {
					d.other[x.Node.ID]++
				}
			case *ast.EdgeStmt:
				from, ok1 := x.From.(*ast.Node)
				to, ok2 := x.To.Vertex.(*ast.Node)
				if !ok1 || !ok2 || x.To.To != nil {
					return fmt.Errorf("edge %v", x)
				}
				a, b := from.ID, to.ID
				skip := !strings.HasPrefix(a, "Node_") && !strings.HasPrefix(b, "Node_")
				for _, at := range x.Attrs {
					switch at.Key + "=" + at.Val {
					case "dir=back":
						a, b = b, a
					case "style=dashed", "style=invis":
						skip = true // derivative or layout, not an operand
					}
				}
				if !skip {
					d.edges[a+" "+b]++
				}
			case *ast.Subgraph:
				if err := walk(x.Stmts, d.sub); err != nil {
					return err
				}
			}
		}
		return nil
	}
	return d, walk(f.Graphs[0].Stmts, d.top)
}

func dotID(n *G.Node) string { return fmt.Sprintf("Node_%p", n) }

// operands lists the operands of n, in order, with repetitions.
func operands(g *G.ExprGraph, n *G.Node) []*G.Node {
	it := g.From(n.ID())
	var l []*G.Node
	for it.Next() {
		l = append(l, it.Node().(*G.Node))
	}
	return l
}

func diffCount(what string, got, want map[string]int, name map[string]string) string {
	keys := map[string]bool{}
	for k := range got {
		keys[k] = true
	}
	for k := range want {
		keys[k] = true
	}
	var l []string
	for k := range keys {
		if got[k] != want[k] {
			var p []string
			for _, f := range strings.Fields(k) {
				if s, ok := name[f]; ok {
					f = s
				}
				p = append(p, f)
			}
			l = append(l, fmt.Sprintf("%s %s appears %d times, want %d", what, strings.Join(p, " -> "), got[k], want[k]))
		}
	}
	sort.Strings(l)
	if len(l) == 0 {
		return ""
	}
	return l[0]
}

// snapshot describes everything the graph reports about itself.
func snapshot(g *G.ExprGraph) string {
	var b strings.Builder
	for _, n := range g.AllNodes() {
		fmt.Fprintf(&b, "%d %q %v %v %p %v [", n.ID(), n.Name(), n.Shape(), n.Type(), n.Op(), n.IsVar())
		for _, m := range operands(g, n) {
			fmt.Fprintf(&b, "%d ", m.ID())
		}
		fmt.Fprintf(&b, "] %v\n", n.Value())
	}
	fmt.Fprintf(&b, "roots %v inputs %v leaves %v", idsOf(g.Roots()), idsOf(g.Inputs()), idsOf(drain(g.Nodes())))
	return b.String()
}

func idsOf(l []*G.Node) (r []int64) {
	for _, n := range l {
		r = append(r, n.ID())
	}
	return
}

// checkDot exports g in every way and compares.
func checkDot(t *T, g *G.ExprGraph, repeats map[*G.Node][]*G.Node, subdocs bool) {
	before := snapshot(g)
	name := map[string]string{}
	nodes, groups := map[string]int{}, map[string]int{}
	once := map[string]int{}
	all := map[string]int{}
	for _, n := range g.AllNodes() {
		name[dotID(n)] = fmt.Sprintf("%d(%q)", n.ID(), n.Name())
		nodes[dotID(n)] = 1
		groups[dotID(n)] = len(n.Groups())
		for _, m := range operands(g, n) {
			once[dotID(n)+" "+dotID(m)] = 1
		}
		l := repeats[n]
		if l == nil {
			l = operands(g, n)
		}
		for _, m := range l {
			all[dotID(n)+" "+dotID(m)]++
		}
	}
	b, err := gdot.Marshal(g)
	if err != nil {
		t.Failf("Marshal: %v", err)
	}
	d, err := parseDot(b)
	if err != nil {
		t.Failf("document does not parse: %v\n%s", err, b)
	}
	t.Trace(1)
	t.Trans(len(nodes) + len(once))
	if m := diffCount("node", d.top, nodes, name); m != "" {
		t.Failf("%s", m)
	}
	for k, c := range d.sub {
		if c != groups[k] {
			t.Failf("node %s of %d groups appears in %d clusters", name[k], groups[k], c)
		}
	}
	for k := range nodes {
		if d.sub[k] == 0 {
			t.Failf("node %s is in no cluster", name[k])
		}
	}
	if m := diffCount("edge", d.edges, once, name); m != "" {
		t.Failf("%s", m)
	}
	if len(d.other) > 0 {
		t.Failf("other nodes: %v", d.other)
	}
	if b2, err := gdot.Marshal(g); err != nil || string(b2) != string(b) {
		t.Failf("exporting twice gives different documents: %v", err)
	}
	// the older exporters
	if d, err = parseDot([]byte(strings.ReplaceAll(g.ToDot(), ":anchor", ""))); err != nil {
		t.Failf("ToDot does not parse: %v\n%s", err, g.ToDot())
	}
	t.Trace(1)
	if m := diffCount("ToDot: node", merged(d.top, d.sub), nodes, name); m != "" {
		t.Failf("%s", m)
	}
	if repeats != nil {
		if m := diffCount("ToDot: edge", d.edges, all, name); m != "" {
			t.Failf("%s", m)
		}
	}
	if subdocs {
		for _, n := range g.AllNodes() {
			below := map[string]int{}
			edges := map[string]int{}
			var walk func(n *G.Node)
			walk = func(n *G.Node) {
				if below[dotID(n)] > 0 {
					return
				}
				below[dotID(n)] = 1
				l := repeats[n]
				if l == nil {
					l = operands(g, n)
				}
				for _, m := range l {
					edges[dotID(n)+" "+dotID(m)]++
					walk(m)
				}
			}
			walk(n)
			if d, err = parseDot([]byte(strings.ReplaceAll(n.ToDot(), ":anchor", ""))); err != nil {
				t.Failf("ToDot of node %d does not parse: %v", n.ID(), err)
			}
			t.Trace(1)
			if m := diffCount("ToDot of a node: node", merged(d.top, d.sub), below, name); m != "" {
				t.Failf("%s", m)
			}
			if repeats != nil {
				if m := diffCount("ToDot of a node: edge", d.edges, edges, name); m != "" {
					t.Failf("%s", m)
				}
			}
		}
	}
	if after := snapshot(g); after != before {
		t.Failf("exporting changed the graph: %s", firstDiff(before, after))
	}
}

func merged(a, b map[string]int) map[string]int {
	r := map[string]int{}
	for k, v := range a {
		r[k] += v
	}
	for k, v := range b {
		r[k] += v
	}
	return r
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			if i < len(y) {
				return fmt.Sprintf("%q became %q", x[i], y[i])
			}
			return fmt.Sprintf("%q is gone", x[i])
		}
	}
	return "more lines"
}

func dotCase(t *T, p *Prog, grad bool, watch bool, export string, mk func(g *G.ExprGraph) ([]*G.Node, error)) {
	g := G.NewGraph()
	nodes, err := mk(g)
	if err != nil {
		t.Failf("build: %v", err)
	}
	repeats := map[*G.Node][]*G.Node{}
	if !grad {
		for i, in := range p.Instrs {
			if !in.Op.plain() {
				repeats = nil
				break
			}
			var l []*G.Node
			for _, a := range in.Args {
				l = append(l, nodes[a])
			}
			if _, ok := repeats[nodes[p.NIn+i]]; !ok {
				repeats[nodes[p.NIn+i]] = l
			}
		}
	} else {
		repeats = nil
	}
	root := nodes[len(nodes)-1]
	if grad {
		cost := root
		if !cost.IsScalar() {
			cost = G.Must(G.Sum(root))
		}
		var wrt []*G.Node
		for i, n := range nodes[:p.NIn] {
			if p.reach(len(p.Vals) - 1)[i] && !p.Const[i] {
				wrt = append(wrt, n)
			}
		}
		if len(wrt) == 0 {
			return
		}
		if _, err := G.Grad(cost, wrt...); err != nil {
			return
		}
	}
	var got G.Value
	if watch {
		G.Read(root, &got)
	}
	if export == "before" || export == "both" {
		checkDot(t, g, repeats, !grad && len(p.Instrs) < 3)
	}
	var v G.Value
	G.Read(root, &v)
	m := G.NewTapeMachine(g, G.BindDualValues())
	defer closeVM(m)
	if err := m.RunAll(); err != nil {
		t.Failf("run: %v", err)
	}
	if d := diffValue(v, p.Vals[len(p.Vals)-1], 1e-9); d != "" {
		t.Failf("value: %s", d)
	}
	if export == "both" {
		checkDot(t, g, nil, false)
		m.Reset()
		if err := m.RunAll(); err != nil {
			t.Failf("second run: %v", err)
		}
		if d := diffValue(v, p.Vals[len(p.Vals)-1], 1e-9); d != "" {
			t.Failf("value after exporting: %s", d)
		}
	}
}

// plain: the node built has exactly the operands given.
func (o *Op) plain() bool {
	return binByName[o.Name] != nil || unaryByName[o.Name] != nil
}

func runC27(c *Ctx) {
	v := func(salt int, s ...int) *RT { return genRT("f64", 0, salt, s...) }
	type fam struct {
		name   string
		ins    []*RT
		consts []bool
		alpha  []*Op
	}
	fams := []fam{
		{"scalars", []*RT{v(1), v(2)}, []bool{false, true}, append(uops("Square"), bops("Add", "Sub", "Lt")...)},
		{"vectors", []*RT{v(1, 2), v(2, 2), v(3)}, []bool{false, true, true}, append(uops("Exp"), append(bops("Add", "Prod"), opSum(), opSlice(&sl{0, 1, 0}), opConcat(0, 2))...)},
		{"matrices", []*RT{v(1, 2, 2), v(2, 2, 2)}, []bool{false, false}, []*Op{opMul(), opTranspose(1, 0), opReshape(4, 1), opSoftmax(1, false), binByName["Add"]}},
	}
	for _, f := range fams {
		max := 2
		if f.name == "scalars" || c.Thorough {
			max = 3
		}
		for n := 1; n <= max; n++ {
			f := f
			enumProgs(c, "f64", f.ins, f.consts, f.alpha, n, EnumOpts{Limit: 1e3, MaxElems: 16}, func(p *Prog) {
				q := p.clone()
				mk := func(g *G.ExprGraph) ([]*G.Node, error) { return q.build(g) }
				key := f.name + "|" + q.String()
				c.Case(func() string { return key }, func(t *T) {
					t.State(key)
					dotCase(t, q, false, false, "both", mk)
				})
				c.Case(func() string { return key + "|watched" }, func(t *T) {
					t.State(key, "watched")
					dotCase(t, q, false, true, "before", mk)
				})
				if q.diffable(false) {
					c.Case(func() string { return key + "|gradient" }, func(t *T) {
						t.State(key, "gradient")
						dotCase(t, q, true, false, "both", mk)
					})
				}
			})
		}
	}
	// names, kinds of inputs, and nodes nothing uses
	chars := []string{"x", "", " ", "\"", "\\", "<", ">", "&", "{", "}", "|", "\n", "'", "/*", "//", "#", ";", "->", "é", "const", "%s", "[", "]", ",", "="}
	var names []string
	for _, a := range chars {
		for _, b := range chars {
			names = append(names, a+b)
			if c.Thorough {
				for _, d := range chars {
					names = append(names, a+b+d)
				}
			}
		}
	}
	seen := map[string]bool{}
	for _, nm := range names {
		nm := nm
		if seen[nm] {
			continue
		}
		seen[nm] = true
		c.Case(func() string { return fmt.Sprintf("name|%q", nm) }, func(t *T) {
			t.State("name", nm)
			g := G.NewGraph()
			x := G.NewVector(g, tensor.Float64, G.WithName(nm), G.WithShape(2))
			y := G.NewScalar(g, tensor.Float64, G.WithName(nm+"y"))
			k := G.NewConstant(tensor.New(tensor.WithShape(2), tensor.WithBacking([]float64{1, 2})), G.WithName(nm))
			z := G.Must(G.Add(x, k))
			if _, err := G.Mul(z, y); err != nil {
				t.Failf("%v", err)
			}
			w := G.Must(G.Add(x, z))
			G.WithName(nm + nm)(w)
			G.WithGroupName([]string{"grp", "two words", "a-b", "a.b"}[len(nm)%4])(w)
			checkDot(t, g, nil, true)
		})
	}
	// layers whose nodes are drawn together
	layers := []struct {
		name string
		f    func(g *G.ExprGraph, x *G.Node, i int) (*G.Node, error)
	}{
		{"conv", func(g *G.ExprGraph, x *G.Node, i int) (*G.Node, error) {
			return G.Conv2d(x, newInput(g, fmt.Sprint("w", i), benign("f64", i, []int{1, 1, 2, 2})), tensor.Shape{2, 2}, []int{1, 1}, []int{1, 1}, []int{1, 1})
		}},
		{"max", func(g *G.ExprGraph, x *G.Node, i int) (*G.Node, error) {
			return G.MaxPool2D(x, tensor.Shape{2, 2}, []int{1, 1}, []int{1, 1})
		}},
		{"average", func(g *G.ExprGraph, x *G.Node, i int) (*G.Node, error) {
			return G.AveragePool2D(x, tensor.Shape{2, 2}, []int{1, 1}, []int{1, 1})
		}},
		{"dropout", func(g *G.ExprGraph, x *G.Node, i int) (*G.Node, error) { return G.Dropout(x, 0.5) }},
		{"rectify", func(g *G.ExprGraph, x *G.Node, i int) (*G.Node, error) { return G.Rectify(x) }},
		{"add", func(g *G.ExprGraph, x *G.Node, i int) (*G.Node, error) { return G.Add(x, x) }},
		{"named", func(g *G.ExprGraph, x *G.Node, i int) (*G.Node, error) {
			n, err := G.Tanh(x)
			if err == nil {
				G.WithGroupName("grp")(n)
			}
			return n, err
		}},
	}
	depth := 3
	if c.Thorough {
		depth = 4
	}
	for _, s := range sequences(len(layers), depth, false) {
		for _, grad := range []bool{false, true} {
			s, grad := s, grad
			if len(s) == 0 {
				continue
			}
			key := "layers"
			for _, i := range s {
				key += "|" + layers[i].name
			}
			key += fmt.Sprint("|", grad)
			c.Case(func() string { return key }, func(t *T) {
				t.State(key)
				g := G.NewGraph()
				x := newInput(g, "x", benign("f64", 0, []int{1, 1, 2, 2}))
				n := x
				var err error
				for i, l := range s {
					if n, err = layers[l].f(g, n, i); err != nil {
						t.Failf("%s: %v", layers[l].name, err)
					}
				}
				if grad {
					if n, err = G.Sum(n); err != nil {
						t.Failf("%v", err)
					}
					if _, err = G.Grad(n, x); err != nil {
						t.Failf("%v", err)
					}
				}
				checkDot(t, g, nil, false)
			})
		}
	}
	c.Case(func() string { return "empty" }, func(t *T) {
		t.State("empty")
		checkDot(t, G.NewGraph(), nil, true)
	})
	for _, dt := range []string{"f64", "f32", "int", "i64", "i32", "u8", "bool"} {
		for _, s := range [][]int{nil, {1}, {3}, {2, 2}, {2, 1, 2}, {1, 1, 2, 2}} {
			for k := 0; k < 4; k++ {
				dt, s, k := dt, s, k
				c.Case(func() string { return fmt.Sprintf("input|%s|%v|%d", dt, s, k) }, func(t *T) {
					t.State("input", dt, s, k)
					g := G.NewGraph()
					a := benign(dt, 0, s)
					switch k {
					case 0:
						newInput(g, "a", a)
					case 1:
						newBoundInput(g, "a", a)
					case 2:
						g.AddNode(G.NewConstant(goVal(a)))
					case 3:
						newInput(g, "b", a)
						G.Must(G.Eq(newBoundInput(g, "a", a), G.NewConstant(goVal(a)), false))
					}
					checkDot(t, g, map[*G.Node][]*G.Node{}, true)
				})
			}
		}
	}
}
