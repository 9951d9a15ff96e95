package main

// C37: random weights, random nodes and dropout as functions of the draws.

import (
	"fmt"
	"math"
	"reflect"
	"sort"

	rng "github.com/leesper/go_rng"
	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
)

func init() {
	register(&Check{ID: "C37", Run: runC37, Procs: 1,
		Rule: "The draws of the random source are chosen by the explorer. A case is a distribution with its parameters, an element type, a shape and a sequence of draws, or a graph with random nodes or dropout, a machine and the draws of its runs. The values must be those the draws stand for. states: distinct results; transitions: draws; traces: results compared."})
}

// A drawer hands out a sequence of draws, over and over, and records them.
type drawer struct {
	seq  []int
	uni  []float64
	norm []float64
	at   int
	gotU []float64
	gotN []float64
}

// drawing runs f under the draws given by seq, which indexes the two tables.
func drawing(seq []int, uni, norm []float64, f func(d *drawer)) {
	d := &drawer{seq: seq, uni: uni, norm: norm}
	rng.Uniform = func() float64 {
		v := d.uni[d.seq[d.at%len(d.seq)]]
		d.at++
		d.gotU = append(d.gotU, v)
		return v
	}
	rng.Normal = func() float64 {
		v := d.norm[d.seq[d.at%len(d.seq)]]
		d.at++
		d.gotN = append(d.gotN, v)
		return v
	}
	defer func() { rng.Uniform, rng.Normal = nil, nil }()
	f(d)
}

// A dist is a distribution: its bounds, and its values for the draws made.
type dist struct {
	name   string
	kind   int // 0 uniform, 1 normal, 2 binomial
	a, b   float64
	lo, hi float64
}

func uniDist(lo, hi float64) dist { return dist{"uniform", 0, lo, hi, lo, hi} }
func normDist(m, s float64) dist  { return dist{"normal", 1, m, s, math.Inf(-1), math.Inf(1)} }
func binomDist(n, p float64) dist { return dist{"binomial", 2, n, p, 0, math.Floor(n)} }
func (d dist) String() string     { return fmt.Sprintf("%s(%v,%v)", d.name, d.a, d.b) }
func (d dist) draws(n int) int {
	if d.kind == 2 {
		return n * int(d.a)
	}
	return n
}

// values are the values that the draws made stand for, in the order of the draws;
// ok is false when the random source was not asked.
func (d dist) values(t *T, n int, dr *drawer) (r []float64, ok bool) {
	u, z := dr.gotU, dr.gotN
	dr.gotU, dr.gotN = nil, nil
	if len(u)+len(z) == 0 {
		t.Count("uncontrolled", 1)
		return nil, false
	}
	t.Trans(len(u) + len(z))
	got, other := u, z
	if d.kind == 1 {
		got, other = z, u
	}
	if len(other) > 0 || len(got) != d.draws(n) {
		t.Failf("%d uniform and %d normal draws for %d values of %v", len(u), len(z), n, d)
	}
	switch d.kind {
	case 0:
		for _, x := range u {
			r = append(r, d.a+x*(d.b-d.a))
		}
	case 1:
		for _, x := range z {
			r = append(r, d.a+x*d.b)
		}
	default:
		k := int(d.a)
		for i := 0; i < n; i++ {
			s := 0.0
			for _, x := range u[i*k : (i+1)*k] {
				if x < d.b {
					s++
				}
			}
			r = append(r, s)
		}
	}
	return r, true
}

// matches compares values with those of the draws; which element takes which
// draw is free.
func (d dist) matches(t *T, what string, vals []float64, dr *drawer) {
	for i, v := range vals {
		if e := 1e-6 * (1 + math.Abs(v)); !(v >= d.lo-e && v <= d.hi+e) || d.kind == 2 && v != math.Floor(v) {
			t.Failf("%s: element %d is %v, not a value of %v", what, i, v, d)
		}
	}
	want, ok := d.values(t, len(vals), dr)
	t.Trace(1)
	if !ok {
		return
	}
	got := append([]float64{}, vals...)
	sort.Float64s(got)
	sort.Float64s(want)
	for i := range want {
		if math.Abs(got[i]-want[i]) > 2e-6*(1+math.Abs(want[i])) {
			t.Failf("%s: values %v (sorted), want %v", what, got, want)
		}
	}
	t.State(what, fmt.Sprint(vals))
}

// floatSlice reads a slice of floats of the given element type.
func floatSlice(t *T, dt string, v interface{}) (r []float64) {
	switch l := v.(type) {
	case []float64:
		if dt == "f64" {
			return l
		}
	case []float32:
		if dt == "f32" {
			for _, x := range l {
				r = append(r, float64(x))
			}
			return r
		}
	}
	t.Failf("a %v for element type %s", reflect.TypeOf(v), dt)
	return
}

// glorotStd and heStd are the spreads of the two schemes.
func glorotStd(gain float64, s []int) float64 {
	in, out := 1, s[0]
	if len(s) > 1 {
		in, out = s[0], s[1]
	}
	field := 1
	for i := 2; i < len(s); i++ {
		field *= s[i]
	}
	return gain * math.Sqrt(2/float64((in+out)*field))
}

func heStd(gain float64, s []int) float64 {
	fan := s[0]
	if len(s) > 2 {
		fan = 1
		for _, v := range s[1:] {
			fan *= v
		}
	}
	return gain * math.Sqrt(1/float64(fan))
}

type winit struct {
	name string
	fn   G.InitWFn
	dist func(s []int) dist
	min  int  // least number of dimensions
	f32  bool // has a single precision form
}

func winits() (l []winit) {
	add := func(name string, fn G.InitWFn, min int, f32 bool, d func(s []int) dist) {
		l = append(l, winit{name, fn, d, min, f32})
	}
	fixed := func(d dist) func([]int) dist { return func([]int) dist { return d } }
	for _, p := range [][2]float64{{0, 1}, {-1, 2.5}, {3, 0.125}, {-2, 0}} {
		add(fmt.Sprintf("Gaussian%v", p), G.Gaussian(p[0], p[1]), 0, true, fixed(normDist(p[0], p[1])))
	}
	for _, p := range [][2]float64{{0, 1}, {-1, 1}, {2, 6}, {-3, -0.5}} {
		add(fmt.Sprintf("Uniform%v", p), G.Uniform(p[0], p[1]), 0, true, fixed(uniDist(p[0], p[1])))
	}
	for _, gain := range []float64{1, math.Sqrt2, 0.25} {
		gain := gain
		add(fmt.Sprintf("GlorotN(%.3g)", gain), G.GlorotN(gain), 1, true, func(s []int) dist { return normDist(0, glorotStd(gain, s)) })
		add(fmt.Sprintf("GlorotU(%.3g)", gain), G.GlorotU(gain), 1, true, func(s []int) dist {
			h := math.Sqrt(3) * glorotStd(gain, s)
			return uniDist(-h, h)
		})
		add(fmt.Sprintf("HeN(%.3g)", gain), G.HeN(gain), 2, false, func(s []int) dist { return normDist(0, heStd(gain, s)) })
		add(fmt.Sprintf("HeU(%.3g)", gain), G.HeU(gain), 2, false, func(s []int) dist {
			h := math.Sqrt(3) * heStd(gain, s)
			return uniDist(-h, h)
		})
	}
	return
}

var (
	drawU = []float64{0, 0.25, 0.9375}
	drawN = []float64{-1.5, 0.25, 2}
)

func runC37(c *Ctx) {
	long := [][]int{{0, 1, 2, 2, 0, 1, 1, 0, 2}, {2, 1, 0, 0, 1, 1, 2}}
	// every sequence of draws for up to four values, two long ones beyond
	seqs := func(n int) [][]int {
		lim := 4
		if c.Thorough {
			lim = 7
		}
		if n > lim {
			return long
		}
		var r [][]int
		for _, s := range sequences(len(drawU), n, false) {
			if len(s) == n && n > 0 {
				r = append(r, s)
			}
		}
		return r
	}
	shapes := [][]int{nil, {1}, {2}, {3}, {1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 1}, {1, 4}, {2, 3}, {3, 2}, {1, 2, 1}, {2, 1, 2}, {1, 2, 3}, {3, 2, 1}, {2, 2, 2}, {2, 1, 1, 2}, {1, 2, 2, 1}, {3, 2, 2, 2}}
	for _, w := range winits() {
		for _, dt := range []string{"f64", "f32", "int", "i32", "bool"} {
			for _, s := range shapes {
				w, dt, s := w, dt, s
				c.Group(func() {
					for _, seq := range seqs(numElems(s)) {
						for how := 0; how < 2; how++ {
							seq, how := seq, how
							c.Case(func() string { return fmt.Sprintf("init|%s|%s|%v|%v|%d", w.name, dt, s, seq, how) },
								func(t *T) { winitCase(t, w, dt, s, seq, how) })
						}
					}
				})
			}
		}
	}
	// binomial weights
	for _, n := range []float64{1, 2, 2.75} {
		for _, p := range []float64{0, 0.25, 0.5, 1} {
			for _, s := range [][]int{nil, {1}, {2}, {1, 2}, {3}} {
				d := binomDist(n, p)
				for _, seq := range seqs(d.draws(numElems(s))) {
					for _, dt := range []string{"f64", "f32"} {
						s, seq, dt := s, seq, dt
						c.Case(func() string { return fmt.Sprintf("binomial|%v|%s|%v|%v", d, dt, s, seq) }, func(t *T) {
							drawing(seq, drawU, drawN, func(dr *drawer) {
								var v interface{}
								if dt == "f64" {
									v = G.Binomial64(d.a, d.b, s...)
								} else {
									v = G.Binomial32(d.a, d.b, s...)
								}
								l := floatSlice(t, dt, v)
								if len(l) != numElems(s) {
									t.Failf("%d values, want %d", len(l), numElems(s))
								}
								d.matches(t, "binomial", l, dr)
							})
						})
					}
				}
			}
		}
	}
	// random nodes
	for _, d := range []dist{uniDist(0, 1), uniDist(-2, 3), normDist(0, 1), normDist(-1, 0.5), binomDist(1, 0.5), binomDist(2, 0.25)} {
		for _, dt := range []string{"f64", "f32"} {
			for _, s := range [][]int{nil, {1}, {2}, {3}, {1, 2}, {2, 1}, {2, 2}, {1, 2, 1}} {
				for form := range rndForms {
					for kind := 0; kind < 4; kind++ {
						d, dt, s, form, kind := d, dt, s, form, kind
						c.Group(func() {
							for _, seq := range seqs(d.draws(numElems(s)) * rndForms[form].nodes) {
								seq := seq
								c.Case(func() string {
									return fmt.Sprintf("node|%v|%s|%v|%s|%s|%v", d, dt, s, rndForms[form].name, kindName[kind], seq)
								}, func(t *T) { rndNodeCase(t, d, dt, s, form, kind, seq) })
							}
						})
					}
				}
			}
		}
	}
	// dropout: one draw per element from an even grid drops the named share
	for k := 1; k < 8; k++ {
		p := float64(k) / 8
		for _, dt := range []string{"f64", "f32"} {
			for _, s := range [][]int{{8}, {2, 4}, {4, 2}, {8, 1}, {2, 2, 2}} {
				for kind := 0; kind < 4; kind++ {
					for perm := 0; perm < 16; perm++ {
						p, dt, s, kind, perm := p, dt, s, kind, perm
						c.Case(func() string { return fmt.Sprintf("dropout|%v|%s|%v|%s|%d", p, dt, s, kindName[kind], perm) },
							func(t *T) { dropRate(t, p, dt, s, kind, perm) })
					}
				}
			}
		}
	}
}

func winitCase(t *T, w winit, dt string, s []int, seq []int, how int) {
	defined := len(s) >= w.min && (dt == "f64" || dt == "f32" && w.f32)
	drawing(seq, drawU, drawN, func(dr *drawer) {
		var v interface{}
		m := recovered("", func() {
			if how == 0 {
				v = w.fn(dtypes[dt], s...)
				return
			}
			g := G.NewGraph()
			if len(s) == 0 {
				v = G.NewScalar(g, dtypes[dt], G.WithInit(w.fn), G.WithName("w")).Value()
				return
			}
			n := G.NewTensor(g, dtypes[dt], len(s), G.WithShape(s...), G.WithInit(w.fn), G.WithName("w"))
			if !sameShape(n.Shape(), s) || !sameShape(n.Value().Shape(), s) {
				t.Failf("shape %v, want %v", n.Shape(), s)
			}
			v = n.Value().Data()
		})
		if !defined && (m != "" || dt != "f32" || len(s) < w.min) {
			if m == "" {
				t.Failf("%s with shape %v was given %v", dt, s, v)
			}
			t.State("refused", w.name, dt, s)
			return
		}
		if len(s) == 0 && how == 1 {
			if m != "" {
				return // a scalar with an initialiser is refused
			}
			f, err := readValue(v.(G.Value))
			if err != nil {
				t.Failf("value: %v", err)
			}
			w.dist(s).matches(t, w.name, []float64{f.D[0].V}, dr)
			return
		}
		if m != "" {
			t.Failf("refused: %s", m)
		}
		l := floatSlice(t, dt, v)
		if len(l) != numElems(s) {
			t.Failf("%d values, want %d", len(l), numElems(s))
		}
		w.dist(s).matches(t, w.name, l, dr)
	})
}

// rndForms are graphs over random nodes r, q and the input x.
var rndForms = []struct {
	name  string
	nodes int
	ref   func(r, q, x float64) float64
	dx    func(r, q, x float64) float64 // derivative by x, nil when there is no x
	build func(r, q, x *G.Node) (*G.Node, error)
}{
	{"-r", 1, func(r, q, x float64) float64 { return -r }, nil, func(r, q, x *G.Node) (*G.Node, error) { return G.Neg(r) }},
	{"r+r", 1, func(r, q, x float64) float64 { return r + r }, nil, func(r, q, x *G.Node) (*G.Node, error) { return G.Add(r, r) }},
	{"r-q", 2, func(r, q, x float64) float64 { return r - q }, nil, func(r, q, x *G.Node) (*G.Node, error) { return G.Sub(r, q) }},
	{"x*r", 1, func(r, q, x float64) float64 { return x * r }, func(r, q, x float64) float64 { return r }, func(r, q, x *G.Node) (*G.Node, error) { return G.HadamardProd(x, r) }},
	{"(x+r)*r", 1, func(r, q, x float64) float64 { return (x + r) * r }, func(r, q, x float64) float64 { return r }, func(r, q, x *G.Node) (*G.Node, error) {
		a, err := G.Add(x, r)
		if err != nil {
			return nil, err
		}
		return G.HadamardProd(a, r)
	}},
	{"(x-r)*q", 2, func(r, q, x float64) float64 { return (x - r) * q }, func(r, q, x float64) float64 { return q }, func(r, q, x *G.Node) (*G.Node, error) {
		a, err := G.Sub(x, r)
		if err != nil {
			return nil, err
		}
		return G.HadamardProd(a, q)
	}},
}

func (d dist) node(g *G.ExprGraph, dt tensor.Dtype, s []int) *G.Node {
	switch d.kind {
	case 0:
		return G.UniformRandomNode(g, dt, d.a, d.b, s...)
	case 1:
		return G.GaussianRandomNode(g, dt, d.a, d.b, s...)
	}
	return G.BinomialRandomNode(g, dt, d.a, d.b, s...)
}

func rndNodeCase(t *T, d dist, dt string, s []int, form, kind int, seq []int) {
	f := rndForms[form]
	grad := kind == kTapeGrad || kind == kLisp
	if grad && f.dx == nil {
		t.Trans(1)
		return
	}
	drawing(seq, drawU, drawN, func(dr *drawer) {
		g := G.NewGraph()
		r := d.node(g, dtypes[dt], s)
		q := r
		if f.nodes == 2 {
			q = d.node(g, dtypes[dt], s)
		}
		for _, n := range []*G.Node{r, q} {
			if !sameShape(n.Shape(), s) || n.Dtype() != dtypes[dt] || n.IsScalar() != (len(s) == 0) {
				t.Failf("node of shape %v and type %v", n.Shape(), n.Type())
			}
		}
		in := genRT(dt, 1, 3, s...)
		var x *G.Node
		if f.dx != nil {
			x = newBoundInput(g, "x", in)
		}
		y, err := f.build(r, q, x)
		if err != nil {
			t.Failf("build: %v", err)
		}
		var rv, qv, yv, gv G.Value
		G.Read(r, &rv)
		G.Read(q, &qv)
		G.Read(y, &yv)
		var gx *G.Node
		if grad {
			cost := y
			if len(s) > 0 {
				cost = G.Must(G.Sum(y))
			}
			if kind == kTapeGrad {
				gs, err := G.Grad(cost, x)
				if err != nil {
					t.Failf("grad: %v", err)
				}
				gx = gs[0]
			}
		}
		var m G.VM
		switch kind {
		case kTape, kTapeGrad:
			m = G.NewTapeMachine(g)
		case kLispFwd:
			m = G.NewLispMachine(g, G.ExecuteFwdOnly())
		default:
			m = G.NewLispMachine(g)
		}
		defer closeVM(m)
		if len(dr.gotU)+len(dr.gotN) != 0 {
			t.Failf("drawn before the run")
		}
		first := false // the first run asked the random source
		for run := 0; run < 3; run++ {
			if run > 0 {
				m.Reset()
			}
			if err := m.RunAll(); err != nil {
				t.Failf("run %d: %v", run, err)
			}
			get := func(what string, v G.Value) []float64 {
				if v == nil {
					t.Failf("run %d: no %s", run, what)
				}
				a, err := readValue(v)
				if err != nil {
					t.Failf("run %d: %s: %v", run, what, err)
				}
				if a.DT != dt || !sameShape(a.Shape, s) {
					t.Failf("run %d: %s is %s %v", run, what, a.DT, a.Shape)
				}
				var l []float64
				for _, e := range a.D {
					l = append(l, e.V)
				}
				return l
			}
			rs, qs, ys := get("random value", rv), get("random value", qv), get("result", yv)
			all := rs
			if q != r { // the graph may merge them
				all = append(append([]float64{}, rs...), qs...)
			}
			asked := len(dr.gotU)+len(dr.gotN) > 0
			if run == 0 {
				first = asked
			} else if first && !asked && d.draws(len(all)) > 0 {
				t.Failf("run %d: nothing was drawn, the first run drew", run)
			}
			d.matches(t, fmt.Sprintf("run %d", run), all, dr)
			var gs []float64
			switch kind {
			case kTapeGrad:
				gs = get("derivative", gx.Value())
			case kLisp:
				if gv, err = x.Grad(); err != nil {
					t.Failf("run %d: derivative: %v", run, err)
				}
				gs = get("derivative", gv)
				if err := G.NewVanillaSolver(G.WithLearnRate(0)).Step(G.NodesToValueGrads(G.Nodes{x})); err != nil {
					t.Failf("solver: %v", err)
				}
			}
			for i := range ys {
				w := f.ref(rs[i], qs[i], in.D[i].V)
				if math.Abs(ys[i]-w) > 1e-5*(1+math.Abs(w)) {
					t.Failf("run %d: result %d is %v, want %v", run, i, ys[i], w)
				}
				if gs != nil {
					w := f.dx(rs[i], qs[i], in.D[i].V)
					if math.Abs(gs[i]-w) > 1e-5*(1+math.Abs(w)) {
						t.Failf("run %d: derivative %d is %v, want %v", run, i, gs[i], w)
					}
				}
			}
		}
	})
}

func dropRate(t *T, p float64, dt string, s []int, kind, perm int) {
	// the eight middles of the eighths, in some order
	uni := make([]float64, 8)
	seq := make([]int, 8)
	for i := range uni {
		uni[i] = (float64(i) + .5) / 8
		seq[i] = (i*(2*(perm/4)+1) + 3*perm) % 8
	}
	drawing(seq, uni, nil, func(dr *drawer) {
		d := newDropNet(t, genRT(dt, 1, 3, s...), p, kind)
		d.machine(false)
		defer func() { closeVM(d.m) }()
		in := genRT(dt, 1, 3, s...)
		for run := 0; run < 2; run++ {
			y, _ := d.run(t)
			u := dr.gotU
			dr.gotU = nil
			t.Trans(len(u))
			if len(u) == 0 {
				t.Count("uncontrolled", 1)
				return
			}
			if len(u) != len(in.D) {
				t.Failf("run %d: %d draws for %d elements", run, len(u), len(in.D))
			}
			dropped := 0
			for i := range y.D {
				w := in.D[i].V / (1 - p)
				if in.D[i].V == 0 {
					t.Failf("an input of zero")
				}
				if y.D[i].V == 0 {
					dropped++
				} else if math.Abs(y.D[i].V-w) > 1e-5*(1+math.Abs(w)) {
					t.Failf("run %d: element %d is %v, want 0 or %v", run, i, y.D[i].V, w)
				}
			}
			if float64(dropped) != 8*p {
				t.Failf("run %d: %d of 8 elements dropped with probability %v", run, dropped, p)
			}
			t.State(fmt.Sprint(p, y.D))
		}
	})
}
