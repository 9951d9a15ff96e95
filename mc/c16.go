package main

// C16: solvers apply their published update rule at every step.

import (
	"errors"
	"fmt"
	"math"
	"strings"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
)

func init() {
	register(&Check{ID: "C16", Run: runC16, Procs: 1,
		Rule: "A case is a solver, a subset of its options, a set of parameters (scalar, tensors, lazily transposed tensors, both float widths, one to three parameters; free standing or nodes of a graph) and a sequence of gradients over a small alphabet; after every step each parameter is compared with the update rule evaluated element by element in double precision and each gradient must be zero.",
		Assumptions: []string{"the derivative of |w| at w = 0 is not specified (such steps end a history)",
			"a Barzilai-Borwein step whose gradient did not change is not defined (it ends a history)"}})
}

// ---- parameters ----

type parKind struct {
	name  string
	dt    string
	shape []int // nil: scalar
	wT    bool  // weights stored transposed
	gT    bool  // gradient stored transposed
}

func (k parKind) size() int {
	n := 1
	for _, s := range k.shape {
		n *= s
	}
	return n
}

var (
	parW = []float64{0.7, -1.2, 0.4, -0.3, 1.1, -0.9}
	parG = map[byte][]float64{
		'a': {0.5, -0.25, 1.5, -0.75, 0.1, 2},
		'b': {-2, 3, -0.1, 0.6, -1, 0.3},
		'c': {0, 0, 0, 0, 0, 0},
		'd': {1, 1, -4, -4, 0.2, -0.2},
		// a little more and a little less than a: the step these make a Barzilai-Borwein solver take is long
		'e': {0.52, -0.26, 1.56, -0.78, 0.104, 2.08},
		'f': {0.48, -0.24, 1.44, -0.72, 0.096, 1.92},
	}
)

func parVal(k parKind, vals []float64, transposed bool) G.Value {
	if k.shape == nil {
		if k.dt == "f32" {
			return G.NewF32(float32(vals[0]))
		}
		return G.NewF64(vals[0])
	}
	n := k.size()
	d := tensor.New(tensor.WithShape(k.shape...), tensor.Of(map[string]tensor.Dtype{"f32": tensor.Float32, "f64": tensor.Float64}[k.dt]))
	if transposed {
		sh := append([]int{}, k.shape...)
		for i, j := 0, len(sh)-1; i < j; i, j = i+1, j-1 {
			sh[i], sh[j] = sh[j], sh[i]
		}
		d = tensor.New(tensor.WithShape(sh...), tensor.Of(d.Dtype()))
		if err := d.T(); err != nil {
			panic(err)
		}
	}
	setPar(d, k, vals[:n])
	return d
}

// setPar writes vals, in logical order, into an existing value.
func setPar(v G.Value, k parKind, vals []float64) {
	switch x := v.(type) {
	case *G.F32:
		*x = G.F32(vals[0])
	case *G.F64:
		*x = G.F64(vals[0])
	case *tensor.Dense:
		co := make([]int, len(k.shape))
		for i := 0; i < k.size(); i++ {
			r := i
			for a := len(co) - 1; a >= 0; a-- {
				co[a] = r % k.shape[a]
				r /= k.shape[a]
			}
			var e interface{} = vals[i]
			if k.dt == "f32" {
				e = float32(vals[i])
			}
			if err := x.SetAt(e, co...); err != nil {
				panic(err)
			}
		}
	default:
		panic(fmt.Sprintf("parameter of type %T", v))
	}
}

func getPar(v G.Value, k parKind) []float64 {
	switch x := v.(type) {
	case *G.F32:
		return []float64{float64(*x)}
	case *G.F64:
		return []float64{float64(*x)}
	case *tensor.Dense:
		co := make([]int, len(k.shape))
		out := make([]float64, k.size())
		for i := range out {
			r := i
			for a := len(co) - 1; a >= 0; a-- {
				co[a] = r % k.shape[a]
				r /= k.shape[a]
			}
			e, err := x.At(co...)
			if err != nil {
				panic(err)
			}
			out[i], _ = scalarFloat(e)
		}
		return out
	}
	panic(fmt.Sprintf("parameter of type %T", v))
}

type freePar struct{ v, g G.Value }

func (p *freePar) Value() G.Value { return p.v }
func (p *freePar) Grad() (G.Value, error) {
	if p.g == nil {
		return nil, errors.New("no gradient")
	}
	return p.g, nil
}

// ---- update rules ----

type rule struct {
	eta, eps, decay, beta1, beta2, mom, l1, l2, clip, batch, wd float64
	useClip                                                     bool
	name                                                        string

	iter int
	m, v [][]float64 // per parameter, per element
	pw   [][]float64
	pg   [][]float64
}

func sgn(x float64) float64 {
	if x > 0 {
		return 1
	}
	if x < 0 {
		return -1
	}
	return 0
}

func (r *rule) clamp(g float64) float64 {
	if r.useClip {
		g = math.Max(-r.clip, math.Min(r.clip, g))
	}
	return g
}

// step updates w in place; false: the rule does not say what happens.
func (r *rule) step(w, g [][]float64) bool {
	if r.m == nil {
		for _, p := range w {
			r.m = append(r.m, make([]float64, len(p)))
			r.v = append(r.v, make([]float64, len(p)))
		}
	}
	r.iter++
	if r.name == "bb" {
		eta := r.eta
		if r.pw != nil {
			num, den := 0.0, 0.0
			for p := range w {
				for i := range w[p] {
					dw, dg := w[p][i]-r.pw[p][i], g[p][i]-r.pg[p][i]
					num += dw * dg
					den += dg * dg
				}
			}
			if den < 1e-6 {
				return false
			}
			eta = num / den
			if r.useClip && math.Abs(eta) > r.clip {
				eta = math.Copysign(r.clip, eta)
			}
		}
		r.pw, r.pg = nil, nil
		for p := range w {
			r.pw = append(r.pw, append([]float64{}, w[p]...))
			r.pg = append(r.pg, append([]float64{}, g[p]...))
			for i := range w[p] {
				w[p][i] -= eta * g[p][i]
			}
		}
		return true
	}
	for p := range w {
		for i := range w[p] {
			x, d := w[p][i], g[p][i]
			if r.l1 != 0 && math.Abs(x) < 1e-5 {
				return false
			}
			m, v := &r.m[p][i], &r.v[p][i]
			switch r.name {
			case "rmsprop":
				*v = r.decay**v + (1-r.decay)*d*d
				x += -r.eta*r.clamp(d)/math.Sqrt(*v+r.eps) - r.l2*x
			case "adagrad":
				*v += d * d
				x += -r.eta*r.clamp(d)/math.Sqrt(*v+r.eps) - r.l2*x
			default:
				d = r.clamp((d + r.l1*sgn(x) + r.l2*x) / r.batch)
				switch r.name {
				case "vanilla":
					x -= r.eta * d
				case "momentum":
					*m = r.mom**m - r.eta*d
					x += *m
				case "adam", "adamw":
					*m = r.beta1**m + (1-r.beta1)*d
					*v = r.beta2**v + (1-r.beta2)*d*d
					mh := *m / (1 - math.Pow(r.beta1, float64(r.iter)))
					vh := *v / (1 - math.Pow(r.beta2, float64(r.iter)))
					if r.name == "adamw" {
						x *= 1 - r.eta*r.wd
					}
					x -= r.eta * mh / (math.Sqrt(vh) + r.eps)
				}
			}
			w[p][i] = x
		}
	}
	return true
}

type solverOpt struct {
	name string
	o    G.SolverOpt
	r    func(r *rule)
}

var solverOpts = map[string]solverOpt{
	"lr":    {"lr", G.WithLearnRate(0.1), func(r *rule) { r.eta = 0.1 }},
	"eps":   {"eps", G.WithEps(0.3), func(r *rule) { r.eps = 0.3 }},
	"rho":   {"rho", G.WithRho(0.6), func(r *rule) { r.decay = 0.6; r.wd = 0.6 }},
	"b1":    {"b1", G.WithBeta1(0.7), func(r *rule) { r.beta1 = 0.7 }},
	"b2":    {"b2", G.WithBeta2(0.4), func(r *rule) { r.beta2 = 0.4 }},
	"mom":   {"mom", G.WithMomentum(0.5), func(r *rule) { r.mom = 0.5 }},
	"l1":    {"l1", G.WithL1Reg(0.35), func(r *rule) { r.l1 = 0.35 }},
	"l2":    {"l2", G.WithL2Reg(0.45), func(r *rule) { r.l2 = 0.45 }},
	"clip":  {"clip", G.WithClip(0.55), func(r *rule) { r.clip = 0.55; r.useClip = true }},
	"batch": {"batch", G.WithBatchSize(4), func(r *rule) { r.batch = 4 }},
}

type solverDef struct {
	name string
	opts []string
	mk   func(o ...G.SolverOpt) G.Solver
	def  rule
}

var solverDefs = []solverDef{
	{"vanilla", []string{"lr", "l1", "l2", "batch", "clip"}, func(o ...G.SolverOpt) G.Solver { return G.NewVanillaSolver(o...) }, rule{eta: 0.001}},
	{"momentum", []string{"lr", "mom", "l1", "l2", "batch", "clip"}, func(o ...G.SolverOpt) G.Solver { return G.NewMomentum(o...) }, rule{eta: 0.001, mom: 0.9}},
	{"rmsprop", []string{"lr", "eps", "rho", "l2", "clip"}, func(o ...G.SolverOpt) G.Solver { return G.NewRMSPropSolver(o...) }, rule{eta: 0.001, eps: 1e-8, decay: 0.999}},
	{"adagrad", []string{"lr", "eps", "l2", "clip"}, func(o ...G.SolverOpt) G.Solver { return G.NewAdaGradSolver(o...) }, rule{eta: 0.001, eps: 1e-8}},
	{"adam", []string{"lr", "eps", "b1", "b2", "l1", "l2", "batch", "clip"}, func(o ...G.SolverOpt) G.Solver { return G.NewAdamSolver(o...) }, rule{eta: 0.001, eps: 1e-8, beta1: 0.9, beta2: 0.999}},
	{"adamw", []string{"lr", "eps", "b1", "b2", "rho", "l1", "l2", "batch", "clip"}, func(o ...G.SolverOpt) G.Solver { return G.NewAdamW(o...) }, rule{eta: 0.001, eps: 1e-8, beta1: 0.9, beta2: 0.999, wd: 0.01}},
	{"bb", []string{"lr", "clip"}, func(o ...G.SolverOpt) G.Solver { return G.NewBarzilaiBorweinSolver(o...) }, rule{eta: 0.001}},
}

// words lists all words of length n over the letters.
func words(letters string, n int) []string {
	if n == 0 {
		return []string{""}
	}
	var out []string
	for _, w := range words(letters, n-1) {
		for i := range letters {
			out = append(out, w+letters[i:i+1])
		}
	}
	return out
}

func runC16(c *Ctx) {
	depth, letters := 3, "abc"
	if c.Thorough {
		depth, letters = 4, "abcd"
	}
	var sets [][]parKind
	k := func(name, dt string, sh ...int) parKind { return parKind{name: name, dt: dt, shape: sh} }
	for _, dt := range []string{"f64", "f32"} {
		s, v1, v2 := k("scalar", dt), k("v1", dt, 1), k("v2", dt, 2)
		m, m1, row, t3 := k("m", dt, 2, 2), k("m1", dt, 1, 1), k("row", dt, 1, 3), k("t3", dt, 1, 2, 2)
		wT, gT, bT := m, m, m
		wT.name, wT.wT = "wT", true
		gT.name, gT.gT = "gT", true
		bT.name, bT.wT, bT.gT = "wgT", true, true
		r23 := k("m23gT", dt, 2, 3)
		r23.gT = true
		for _, p := range []parKind{s, v1, v2, m, m1, row, t3, wT, gT, bT, r23} {
			sets = append(sets, []parKind{p})
		}
		sets = append(sets, []parKind{s, v2}, []parKind{v2, s}, []parKind{v2, v2}, []parKind{m, v1, s}, []parKind{s, s})
	}
	sets = append(sets, []parKind{k("v2", "f64", 2), k("v2", "f32", 2)}, []parKind{k("scalar", "f32"), k("m", "f64", 2, 2)})
	hist := words(letters, depth)
	for _, sd := range solverDefs {
		sd := sd
		hist := hist
		if sd.name == "bb" {
			hist = words(letters+"ef", depth)
		}
		for mask := 0; mask < 1<<uint(len(sd.opts)); mask++ {
			mask := mask
			c.Group(func() {
				for _, set := range sets {
					set := set
					for _, h := range hist {
						h := h
						c.Case(func() string { return solverKey("free", sd, mask, set, h) }, func(t *T) { solverCase(t, sd, mask, set, h, false) })
					}
				}
			})
			// parameters that are nodes of a graph and got their gradient from a run
			c.Group(func() {
				for _, set := range sets {
					set := set
					skip := false
					for _, p := range set {
						skip = skip || p.wT || p.gT || p.dt != set[0].dt
					}
					if skip {
						continue
					}
					for _, h := range words("ab", 2) {
						h := h
						c.Case(func() string { return solverKey("node", sd, mask, set, h) }, func(t *T) { solverCase(t, sd, mask, set, h, true) })
					}
				}
			})
		}
		// a parameter without a gradient is reported
		for miss := 0; miss < 3; miss++ {
			for steps := 0; steps < 2; steps++ {
				miss, steps := miss, steps
				for _, kd := range []parKind{k("scalar", "f64"), k("v2", "f64", 2)} {
					kd := kd
					c.Case(func() string { return fmt.Sprintf("missing|%s|%s|%d|%d", sd.name, kd.name, miss, steps) }, func(t *T) {
						s := sd.mk()
						var ps []*freePar
						var model []G.ValueGrad
						for i := 0; i < 3; i++ {
							p := &freePar{parVal(kd, parW, false), parVal(kd, parG['a'], false)}
							ps = append(ps, p)
							model = append(model, p)
						}
						for i := 0; i < steps; i++ {
							if err := s.Step(model); err != nil {
								t.Failf("step %d: %v", i, err)
							}
						}
						ps[miss].g = nil
						if err := s.Step(model); err == nil {
							t.Failf("no error although parameter %d has no gradient", miss)
						}
						t.Trans(steps + 1)
						t.Trace(1)
					})
				}
			}
		}
	}
}

func solverKey(tag string, sd solverDef, mask int, set []parKind, h string) string {
	var o, p []string
	for i, n := range sd.opts {
		if mask>>uint(i)&1 == 1 {
			o = append(o, n)
		}
	}
	for _, k := range set {
		p = append(p, k.dt+"."+k.name)
	}
	return fmt.Sprintf("%s|%s|%s|%s|%s", tag, sd.name, strings.Join(o, ","), strings.Join(p, ","), h)
}

func solverCase(t *T, sd solverDef, mask int, set []parKind, h string, nodes bool) {
	r := sd.def
	r.name, r.batch = sd.name, 1
	var opts []G.SolverOpt
	for i, n := range sd.opts {
		if mask>>uint(i)&1 == 1 {
			opts = append(opts, solverOpts[n].o)
			solverOpts[n].r(&r)
		}
	}
	s := sd.mk(opts...)
	round := func(k parKind, vals []float64) []float64 {
		out := append([]float64{}, vals[:k.size()]...)
		if k.dt == "f32" {
			for i := range out {
				out[i] = float64(float32(out[i]))
			}
		}
		return out
	}
	rot := func(v []float64, by int) []float64 { return append(append([]float64{}, v[by:]...), v[:by]...) }

	var w [][]float64
	var model []G.ValueGrad
	var m G.VM
	var gin G.Nodes
	if nodes {
		g := G.NewGraph()
		var ps G.Nodes
		var cost *G.Node
		for i, k := range set {
			w = append(w, round(k, rot(parW, i)))
			rt := newRT(k.dt, k.shape...)
			for j := range rt.D {
				rt.D[j] = cst(w[i][j])
			}
			p := newBoundInput(g, fmt.Sprintf("w%d", i), rt)
			q := newInput(g, fmt.Sprintf("g%d", i), rt)
			ps, gin = append(ps, p), append(gin, q)
			y := G.Must(G.HadamardProd(p, q))
			if k.shape != nil {
				y = G.Must(G.Sum(y))
			}
			if cost == nil {
				cost = y
			} else {
				cost = G.Must(G.Add(cost, y))
			}
		}
		if _, err := G.Grad(cost, ps...); err != nil {
			t.Failf("grad: %v", err)
		}
		m = G.NewTapeMachine(g, G.BindDualValues(ps...))
		defer closeVM(m)
		model = G.NodesToValueGrads(ps)
	} else {
		for i, k := range set {
			w = append(w, round(k, rot(parW, i)))
			model = append(model, &freePar{parVal(k, rot(parW, i), k.wT), parVal(k, parG['c'], k.gT)})
		}
	}
	for step := 0; step < len(h); step++ {
		var gr [][]float64
		for i, k := range set {
			gr = append(gr, round(k, rot(parG[h[step]], i)))
			if nodes {
				rt := newRT(k.dt, k.shape...)
				for j := range rt.D {
					rt.D[j] = cst(gr[i][j])
				}
				if err := G.Let(gin[i], goVal(rt)); err != nil {
					t.Failf("let: %v", err)
				}
			} else {
				gv, _ := model[i].Grad()
				setPar(gv, k, gr[i])
			}
		}
		if nodes {
			m.Reset()
			if err := m.RunAll(); err != nil {
				t.Failf("run: %v", err)
			}
		}
		if !r.step(w, gr) {
			return
		}
		if err := s.Step(model); err != nil {
			t.Failf("step %d: %v", step, err)
		}
		t.Trans(1)
		for i, k := range set {
			tol := 1e-9
			if k.dt == "f32" {
				tol = 3e-5
			}
			if r.name == "bb" {
				for _, p := range set { // the step is common to the parameters
					if p.dt == "f32" {
						tol = 3e-5
					}
				}
				tol *= 100
			}
			got := getPar(model[i].Value(), k)
			for j := range got {
				if !(math.Abs(got[j]-w[i][j]) <= tol*(1+math.Abs(w[i][j]))) {
					t.Failf("after step %d: parameter %d element %d is %v, want %v", step, i, j, got[j], w[i][j])
				}
			}
			gv, err := model[i].Grad()
			if err != nil {
				t.Failf("after step %d: no gradient: %v", step, err)
			}
			for j, x := range getPar(gv, k) {
				if x != 0 {
					t.Failf("after step %d: gradient of parameter %d not cleared (element %d is %v)", step, i, j, x)
				}
			}
		}
		t.State(sd.name, fmt.Sprint(mask), fmt.Sprint(w), fmt.Sprint(r.m), fmt.Sprint(r.v))
	}
	t.Trace(1)
}
