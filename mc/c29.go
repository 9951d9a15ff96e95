package main

// C29: declared nodes carry exactly the declared value.

import (
	"fmt"
	"strings"

	G "gorgonia.org/gorgonia"
)

func init() {
	register(&Check{ID: "C29", Run: runC29, Procs: 2,
		Rule:        "A case is one declaration: a constructor, an element type, and a sequence of options (name, shape, value, initialiser), contradictory ones included. The node must have exactly the declared name, graph, shape, element type and content, or the declaration must be refused. states: distinct declarations; transitions: options applied; traces: contents compared.",
		Assumptions: []string{"Inputs of one graph have different names: a second declaration under a name already taken by an input of the same type is the first node again."}})
}

// An opt is a node construction option with its meaning.
type copt struct {
	name  string
	mk    func() G.NodeConsOpt
	shape []int // declared shape, when kind is "shape"
	kind  string
	val   cval
	init  func(dt string, n int) []float64 // nil: not defined for dt
}

func optName(s string) copt {
	return copt{name: fmt.Sprintf("name(%q)", s), kind: "name", mk: func() G.NodeConsOpt { return G.WithName(s) }}
}

func optShape(s []int) copt {
	return copt{name: fmt.Sprintf("shape%v", s), kind: "shape", shape: s, mk: func() G.NodeConsOpt { return G.WithShape(s...) }}
}

func optValue(v cval, raw bool) copt {
	n := "value:" + v.String()
	if raw {
		n = "raw" + n
	}
	return copt{name: n, kind: "value", val: v, mk: func() G.NodeConsOpt {
		if raw {
			return G.WithValue(goVal(v.rt))
		}
		return G.WithValue(v.make())
	}}
}

func floatsOf(n int, f func(i int) float64) []float64 {
	r := make([]float64, n)
	for i := range r {
		r[i] = f(i)
	}
	return r
}

// initialisers, with the content they are named after.
func initOpts() (l []copt) {
	add := func(name string, fn G.InitWFn, want func(dt string, n int) []float64) {
		l = append(l, copt{name: "init:" + name, kind: "init", init: want, mk: func() G.NodeConsOpt { return G.WithInit(fn) }})
	}
	add("Zeroes", G.Zeroes(), func(dt string, n int) []float64 { return make([]float64, n) })
	add("Ones", G.Ones(), func(dt string, n int) []float64 { return floatsOf(n, func(int) float64 { return 1 }) })
	for _, s := range []int{0, 1, 3, -2} {
		s := s
		add(fmt.Sprintf("RangedFrom(%d)", s), G.RangedFrom(s), func(dt string, n int) []float64 {
			if dt == "bool" || dt == "u8" && s < 0 {
				return nil
			}
			return floatsOf(n, func(i int) float64 { return float64(s + i) })
		})
		for _, st := range []int{0, 1, 2, -3} {
			st := st
			add(fmt.Sprintf("RangedFromWithStep(%d,%d)", s, st), G.RangedFromWithStep(s, st), func(dt string, n int) []float64 {
				if dt != "f64" && dt != "f32" && dt != "int" {
					return nil
				}
				return floatsOf(n, func(i int) float64 { return float64(s + i*st) })
			})
		}
	}
	add("RangedFromWithStep(0.5,0.25)", G.RangedFromWithStep(0.5, 0.25), func(dt string, n int) []float64 {
		if dt != "f64" && dt != "f32" {
			return nil
		}
		return floatsOf(n, func(i int) float64 { return .5 + .25*float64(i) })
	})
	add("RangedFromWithStep(0.5f,0.25f)", G.RangedFromWithStep(float32(.5), float32(.25)), func(dt string, n int) []float64 {
		if dt != "f32" {
			return nil
		}
		return floatsOf(n, func(i int) float64 { return .5 + .25*float64(i) })
	})
	for _, v := range []interface{}{2.5, float32(2.5), 7} {
		v := v
		add(fmt.Sprintf("ValuesOf(%v %T)", v, v), G.ValuesOf(v), func(dt string, n int) []float64 {
			x := 2.5
			switch v.(type) {
			case float64:
				if dt != "f64" {
					return nil
				}
			case float32:
				if dt != "f32" {
					return nil
				}
			case int:
				if dt != "int" {
					return nil
				}
				x = 7
			}
			return floatsOf(n, func(int) float64 { return x })
		})
	}
	return
}

// A ctor is a constructor.
type ctor struct {
	name string
	dims int // -1: given by the content
	mk   func(g *G.ExprGraph, dt string, v interface{}, opts ...G.NodeConsOpt) *G.Node
}

func ctors() []ctor {
	l := []ctor{
		{"NewScalar", 0, func(g *G.ExprGraph, dt string, _ interface{}, o ...G.NodeConsOpt) *G.Node {
			return G.NewScalar(g, dtypes[dt], o...)
		}},
		{"NewVector", 1, func(g *G.ExprGraph, dt string, _ interface{}, o ...G.NodeConsOpt) *G.Node {
			return G.NewVector(g, dtypes[dt], o...)
		}},
		{"NewMatrix", 2, func(g *G.ExprGraph, dt string, _ interface{}, o ...G.NodeConsOpt) *G.Node {
			return G.NewMatrix(g, dtypes[dt], o...)
		}},
	}
	for d := 0; d < 5; d++ {
		d := d
		l = append(l, ctor{fmt.Sprintf("NewTensor%d", d), d, func(g *G.ExprGraph, dt string, _ interface{}, o ...G.NodeConsOpt) *G.Node {
			return G.NewTensor(g, dtypes[dt], d, o...)
		}})
	}
	return l
}

func oneElem(s []int) bool {
	for _, d := range s {
		if d != 1 {
			return false
		}
	}
	return true
}

// declare runs one declaration and judges it.
func declare(t *T, ct ctor, dt string, opts []copt) {
	t.Trans(len(opts) + 1)
	// what is declared, in order
	const (
		fine = iota
		contradictory
		open // the documentation leaves it open
	)
	verdict := fine
	worse := func(v int) {
		if verdict == fine || v == contradictory {
			verdict = v
		}
	}
	name, named := "", false
	var shape []int
	known := ct.dims == 0
	var content []float64
	for _, o := range opts {
		switch o.kind {
		case "name":
			name, named = o.name, o.name != `name("")`
		case "shape":
			switch {
			case known && !sameShape(shape, o.shape):
				worse(contradictory)
				if oneElem(shape) && oneElem(o.shape) || agree(shape, o.shape) {
					verdict = open
				}
			case len(o.shape) != ct.dims:
				worse(contradictory)
				if ct.dims == 1 && agree(o.shape, []int{numElems(o.shape)}) {
					verdict = open // a row or column is a vector
				}
				if ct.dims == 0 && oneElem(o.shape) {
					verdict = open
				}
			}
			shape, known = o.shape, true
		case "value":
			v := o.val.rt
			if v.DT != dt {
				return // mixed types are declared elsewhere
			}
			switch {
			case len(v.Shape) != ct.dims:
				worse(contradictory)
				if ct.dims == 0 && oneElem(v.Shape) {
					verdict = open // becomes a scalar
				}
			case known && !sameShape(shape, v.Shape):
				worse(contradictory)
				if oneElem(shape) && oneElem(v.Shape) || agree(shape, v.Shape) {
					verdict = open
				}
			}
			shape, known = v.Shape, true
			content = floatsOf(len(v.D), func(i int) float64 { return v.D[i].V })
		case "init":
			if !known {
				worse(contradictory)
				break
			}
			content = o.init(dt, numElems(shape))
			if content == nil {
				return // not offered for this element type
			}
			if dt == "bool" {
				worse(open)
			}
		}
	}
	g := G.NewGraph()
	var n *G.Node
	refusal := recovered("", func() {
		var mk []G.NodeConsOpt
		for _, o := range opts {
			mk = append(mk, o.mk())
		}
		n = ct.mk(g, dt, nil, mk...)
	})
	if refusal != "" {
		if verdict == fine {
			t.Failf("refused:%s", refusal)
		}
		t.Count("refused", 1)
		return
	}
	if verdict == contradictory {
		t.Failf("accepted, shape %v value %v", n.Shape(), n.Value())
	}
	if named && fmt.Sprintf("name(%q)", n.Name()) != name {
		t.Failf("name %q, want %s", n.Name(), name)
	}
	if n.Graph() != g || len(g.AllNodes()) != 1 || g.AllNodes()[0] != n {
		t.Failf("not the only node of its graph")
	}
	if !n.IsVar() && len(opts) == 0 {
		t.Failf("not a variable")
	}
	if dtName(n.Dtype()) != dt {
		t.Failf("element type %s", dtName(n.Dtype()))
	}
	if verdict == open {
		t.Count("left open", 1)
		return
	}
	if known && !sameShape(n.Shape(), shape) {
		t.Failf("shape %v, want %v", n.Shape(), shape)
	}
	if n.Dims() != ct.dims || n.IsScalar() != (ct.dims == 0) {
		t.Failf("dimensions %d, scalar %v", n.Dims(), n.IsScalar())
	}
	if content == nil {
		if n.Value() != nil {
			t.Failf("carries the value %v", n.Value())
		}
		return
	}
	want := newRT(dt, shape...)
	for i := range want.D {
		want.D[i].V = content[i]
	}
	(cval{want, ""}).check(t, "content", n.Value())
	if ct.dims > 0 && !G.TypeOf(n.Value()).Eq(n.Type()) {
		t.Failf("type %v, content has %v", n.Type(), G.TypeOf(n.Value()))
	}
}

func numElems(s []int) int {
	n := 1
	for _, d := range s {
		n *= d
	}
	return n
}

func runC29(c *Ctx) {
	dts := []string{"f64", "f32", "int", "i64", "i32", "u8", "bool"}
	shapes := [][]int{nil, {1}, {2}, {3}, {1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}, {1, 1, 1}, {2, 1, 2}, {1, 2, 3}, {2, 2, 1, 2}}
	if c.Thorough {
		shapes = append(shapes, []int{5}, []int{3, 1}, []int{3, 3}, []int{2, 2, 2}, []int{3, 2, 2}, []int{1, 1, 1, 1}, []int{3, 1, 2, 1})
	}
	inits := initOpts()
	for _, ct := range ctors() {
		for _, dt := range dts {
			ct, dt := ct, dt
			c.Group(func() {
				one := func(opts ...copt) {
					l := append([]copt{}, opts...)
					var s []string
					for _, o := range l {
						s = append(s, o.name)
					}
					key := ct.name + "|" + dt + "|" + strings.Join(s, ";")
					c.Case(func() string { return key }, func(t *T) { t.State(key); declare(t, ct, dt, l) })
				}
				var vals, shs []copt
				for _, v := range cvalues([]string{dt}, shapes, 2) {
					vals = append(vals, optValue(v, false))
					if v.rt.isScalar() {
						vals = append(vals, optValue(v, true))
					}
				}
				for _, s := range shapes {
					shs = append(shs, optShape(s))
				}
				names := []copt{optName("x"), optName(""), optName("a b\"c"), optName("π")}
				one()
				for _, n := range names {
					one(n)
				}
				// at most one option of each kind, in every order
				contents := append(append([]copt{}, vals...), inits...)
				for _, a := range contents {
					one(a)
					one(names[1], a)
					one(a, names[2])
				}
				for _, sh := range shs {
					one(sh)
					one(sh, names[0])
					one(names[2], sh)
					for _, a := range contents {
						one(sh, a)
						one(a, sh)
						nm := names[:1]
						if c.Thorough {
							nm = names
						}
						for _, n := range nm {
							one(n, sh, a)
							one(sh, n, a)
							one(sh, a, n)
							one(n, a, sh)
							one(a, n, sh)
							one(a, sh, n)
						}
					}
				}
			})
		}
	}
	for _, v := range cvalues(dts, shapes, 5) {
		v := v
		c.Group(func() {
			contentCases(c, v)
		})
	}
	for _, dt := range dts {
		dt := dt
		for n := 1; n < 6; n++ {
			for id := -1; id <= n; id++ {
				n, id := n, id
				c.Case(func() string { return fmt.Sprintf("onehot|%s|%d of %d", dt, id, n) }, func(t *T) {
					t.State("onehot", dt, id, n)
					var nd *G.Node
					m := recovered("", func() { nd = G.OneHotVector(id, n, dtypes[dt], G.WithName("h")) })
					t.Trans(1)
					if m != "" {
						if id >= 0 && id < n && dt != "u8" && dt != "bool" {
							t.Failf("refused:%s", m)
						}
						return
					}
					if id < 0 || id >= n {
						t.Failf("accepted: %v", nd.Value())
					}
					w := newRT(dt, n)
					w.D[id].V = 1
					(cval{w, ""}).check(t, "content", nd.Value())
				})
			}
		}
	}
}

// contentCases declares nodes from a value alone.
func contentCases(c *Ctx, v cval) {
	for _, raw := range []bool{false, true} {
		raw := raw
		if raw && !v.rt.isScalar() {
			continue
		}
		for _, nm := range []string{"", "n", "3"} {
			nm := nm
			for _, how := range []string{"NewConstant", "NewConstant in", "NodeFromAny"} {
				how := how
				c.Case(func() string { return fmt.Sprintf("%s|%v|%q|%s", how, raw, nm, v) }, func(t *T) {
					t.State(how, raw, nm, v.String())
					t.Trans(1)
					g := G.NewGraph()
					var x interface{} = v.make()
					if raw {
						x = goVal(v.rt)
					}
					var opts []G.NodeConsOpt
					if nm != "" {
						opts = append(opts, G.WithName(nm))
					}
					var n *G.Node
					switch how {
					case "NewConstant":
						n = G.NewConstant(x, opts...)
					case "NewConstant in":
						n = G.NewConstant(x, append(opts, G.In(g))...)
						if n.Graph() != g {
							t.Failf("not in its graph")
						}
					default:
						n = G.NodeFromAny(g, x, opts...)
						if n.Graph() != g || !g.Has(n.ID()) || !n.IsVar() {
							t.Failf("not a variable of its graph")
						}
					}
					if nm != "" && n.Name() != nm {
						t.Failf("name %q, want %q", n.Name(), nm)
					}
					if !sameShape(n.Shape(), v.rt.Shape) || n.IsScalar() != v.rt.isScalar() {
						t.Failf("shape %v, scalar %v", n.Shape(), n.IsScalar())
					}
					if dtName(n.Dtype()) != v.rt.DT {
						t.Failf("element type %v", n.Dtype())
					}
					v.check(t, "content", n.Value())
					if how == "NodeFromAny" {
						return
					}
					// used in an expression, the constant has its value there too
					in := newBoundInput(g, "in", benign(v.rt.DT, 0, v.rt.Shape))
					var r *G.Node
					var err error
					if m := recovered("", func() { r, err = G.Eq(in, n, false) }); m != "" || err != nil {
						return
					}
					_ = r
					var at *G.Node
					for _, k := range g.AllNodes() {
						if k != in && k != r {
							at = k
						}
					}
					if at == nil || len(g.AllNodes()) != 3 {
						t.Failf("graph has %d nodes", len(g.AllNodes()))
					}
					v.check(t, "content in the graph", at.Value())
					if !sameShape(at.Shape(), v.rt.Shape) {
						t.Failf("shape in the graph %v", at.Shape())
					}
				})
			}
		}
	}
}
