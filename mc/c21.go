package main

// C21: copies are independent, comparisons compare elements, bindings are
// validated.

import (
	"fmt"
	"math"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
)

func init() {
	register(&Check{ID: "C21", Run: runC21, Procs: 2,
		Rule: "A case is one function of the value API on one value, or one pair of values, of the catalogue: every element type, shape, memory layout and content. Results are compared with element-wise definitions, and every later modification of one side must not show in the other. states: distinct cases; transitions: calls; traces: values compared."})
}

// A cval is an entry of the catalogue: content and layout.
type cval struct {
	rt  *RT
	lay string // plain, transposed, sliced, colmajor
}

func (v cval) String() string {
	s := ""
	for _, d := range v.rt.D {
		s += fmt.Sprintf("%v,", d.V)
	}
	return fmt.Sprintf("%s%v%s{%s}", v.rt.DT, v.rt.Shape, v.lay, s)
}

// make gives a fresh value.
func (v cval) make() G.Value {
	t := v.rt
	if t.isScalar() {
		switch x := goVal(t).(type) {
		case float64:
			return G.NewF64(x)
		case float32:
			return G.NewF32(x)
		case int:
			return G.NewI(x)
		case int64:
			return G.NewI64(x)
		case int32:
			return G.NewI32(x)
		case byte:
			return G.NewU8(x)
		case bool:
			return G.NewB(x)
		}
	}
	switch v.lay {
	case "transposed": // lazily
		d := goVal(permuteAll(t)).(*tensor.Dense)
		if err := d.T(); err != nil {
			panic(err)
		}
		return d
	case "sliced", "sliced'": // the middle of a larger tensor
		rest := 1.0
		if v.lay == "sliced'" {
			rest = 0
		}
		big := newRT(t.DT, t.Shape...)
		big.Shape = append([]int{}, t.Shape...)
		last := len(big.Shape) - 1
		w := big.Shape[last]
		big.Shape[last] = w + 2
		big.D = make([]Dual, len(t.D)/w*(w+2))
		for i := range big.D {
			if k := i % (w + 2); k >= 1 && k <= w {
				big.D[i] = t.D[i/(w+2)*w+k-1]
			} else {
				big.D[i] = cst(rest)
			}
		}
		sl := make([]tensor.Slice, len(big.Shape))
		sl[last] = G.S(1, w+1)
		d, err := goVal(big).(*tensor.Dense).Slice(sl...)
		if err != nil {
			panic(err)
		}
		return d.(*tensor.Dense)
	case "colmajor":
		d := tensor.New(tensor.WithShape(t.Shape...), tensor.AsFortran(backing(t)))
		return d
	}
	return goVal(t).(*tensor.Dense)
}

// permuteAll reverses the axes.
func permuteAll(t *RT) *RT {
	n := len(t.Shape)
	p := make([]int, n)
	for i := range p {
		p[i] = n - 1 - i
	}
	r, err := opTranspose(p...).Ref([]*RT{t})
	if err != nil {
		panic(err)
	}
	return r
}

func cvalues(dts []string, shapes [][]int, contents int) (l []cval) {
	for _, dt := range dts {
		for _, s := range shapes {
			base := newRT(dt, s...)
			n := len(base.D)
			for k := 0; k < contents; k++ {
				if k > 0 && k < 4 && k > n+1 || k == 4 && (len(s) < 2 || n < 4) {
					continue
				}
				r := newRT(dt, s...)
				for i := range r.D {
					r.D[i].V = float64(i + 1)
					if dt == "bool" {
						r.D[i].V = float64(i % 2)
					}
				}
				switch {
				case k == 1: // the last element differs
					r.D[n-1].V = 9
					if dt == "bool" {
						r.D[n-1].V = float64(n % 2)
					}
				case k == 2 && n > 1: // the first element differs
					r.D[0].V = 0
					if dt == "bool" {
						r.D[0].V = 1
					}
				case k == 4: // as the first one when its memory is read in the other order
					r.D = append([]Dual{}, permuteAll(r).D...)
				case k == 3: // a rounding error away
					if dt != "f64" && dt != "f32" {
						continue
					}
					e := 1e-15
					if dt == "f32" {
						e = 1e-7
					}
					r.D[n-1].V *= 1 + e
					if dt == "f32" {
						r.D[n-1].V = float64(math.Nextafter32(float32(n), 100))
					}
				}
				lays := []string{"plain"}
				if len(s) > 0 && n > 1 {
					if len(s) > 1 {
						lays = append(lays, "transposed", "colmajor")
					}
					if s[len(s)-1] > 1 {
						lays = append(lays, "sliced", "sliced'")
					}
				}
				for _, lay := range lays {
					l = append(l, cval{r, lay})
				}
			}
		}
	}
	return
}

func (v cval) check(t *T, what string, got G.Value) {
	rt, err := readValue(got)
	if err != nil {
		t.Failf("%s: %v", what, err)
	}
	if d := diffRT(rt, v.rt, 0); d != "" {
		t.Failf("%s: %s", what, d)
	}
	t.Trace(1)
}

// disturb changes every element of a value in place.
func disturb(v G.Value) {
	switch x := v.(type) {
	case *G.F64:
		*x = -5
	case *G.F32:
		*x = -5
	case *G.I:
		*x = -5
	case *G.I64:
		*x = -5
	case *G.I32:
		*x = -5
	case *G.U8:
		*x = 77
	case *G.B:
		*x = !*x
	case *tensor.Dense:
		it := x.Iterator()
		for i, err := it.Start(); err == nil; i, err = it.Next() {
			switch b := x.Data().(type) {
			case []float64:
				b[i] = -5
			case []float32:
				b[i] = -5
			case []int:
				b[i] = -5
			case []int64:
				b[i] = -5
			case []int32:
				b[i] = -5
			case []byte:
				b[i] = 77
			case []bool:
				b[i] = !b[i]
			}
		}
	}
}

// disturbed tells whether every element was changed.
func (v cval) disturbed() cval {
	r := newRT(v.rt.DT, v.rt.Shape...)
	for i := range r.D {
		switch v.rt.DT {
		case "u8":
			r.D[i].V = 77
		case "bool":
			r.D[i].V = 1 - v.rt.D[i].V
		default:
			r.D[i].V = -5
		}
	}
	return cval{r, v.lay}
}

func (v cval) zero() cval { return cval{newRT(v.rt.DT, v.rt.Shape...), v.lay} }

func refEq(a, b *RT) bool {
	if a.DT != b.DT || !sameShape(a.Shape, b.Shape) || a.isScalar() != b.isScalar() {
		return false
	}
	for i := range a.D {
		if a.D[i].V != b.D[i].V {
			return false
		}
	}
	return true
}

// refClose: differences are either of rounding size or large.
func refClose(a, b *RT) bool {
	if a.DT != b.DT || !sameShape(a.Shape, b.Shape) || a.isScalar() != b.isScalar() {
		return false
	}
	for i := range a.D {
		if math.Abs(a.D[i].V-b.D[i].V) > 1e-3 {
			return false
		}
	}
	return true
}

// agree: shapes that the tensor package calls equal.
func agree(a, b []int) bool {
	if sameShape(a, b) {
		return true
	}
	vec := func(s []int) int {
		switch {
		case len(s) == 1:
			return s[0]
		case len(s) == 2 && s[0] == 1 && s[1] > 1:
			return s[1]
		case len(s) == 2 && s[1] == 1 && s[0] > 1:
			return s[0]
		}
		return -1
	}
	return len(a) != len(b) && vec(a) > 0 && vec(a) == vec(b)
}

func cloneCases(c *Ctx, v cval) {
	cs := func(what string, f func(t *T)) {
		c.Case(func() string { return what + "|" + v.String() }, func(t *T) { t.State(what, v.String()); t.Trans(2); f(t) })
	}
	copies := map[string]func(t *T, x G.Value) G.Value{
		"CloneValue": func(t *T, x G.Value) G.Value {
			y, err := G.CloneValue(x)
			if err != nil {
				t.Failf("CloneValue: %v", err)
			}
			return y
		},
		"Copy": func(t *T, x G.Value) G.Value {
			y, err := G.Copy(cval{v.zero().rt, "plain"}.make(), x)
			if err != nil {
				t.Failf("Copy: %v", err)
			}
			return y
		},
		"Node.Clone": func(t *T, x G.Value) G.Value {
			g := G.NewGraph()
			n := newInput(g, "n", v.rt)
			if err := G.Let(n, x); err != nil {
				t.Failf("Let: %v", err)
			}
			return n.Clone().(*G.Node).Value()
		},
		"Node.CloneTo": func(t *T, x G.Value) G.Value {
			g := G.NewGraph()
			n := newInput(g, "n", v.rt)
			if err := G.Let(n, x); err != nil {
				t.Failf("Let: %v", err)
			}
			return n.CloneTo(G.NewGraph()).Value()
		},
	}
	for _, name := range sortedKeys(copies) {
		if name == "Copy" && v.lay == "colmajor" {
			continue // see pairCases
		}
		f := copies[name]
		cs(name, func(t *T) {
			x := v.make()
			y := f(t, x)
			v.check(t, "the copy", y)
			v.check(t, "the original", x)
			if G.TypeOf(x) != G.TypeOf(y) {
				t.Failf("type %v, want %v", G.TypeOf(y), G.TypeOf(x))
			}
			disturb(y)
			v.disturbed().check(t, "the copy after its change", y)
			v.check(t, "the original after a change of the copy", x)
			y = f(t, x)
			disturb(x)
			v.check(t, "the copy after a change of the original", y)
			z := f(t, y)
			G.ZeroValue(z)
			v.check(t, "the copy after zeroing a copy of it", y)
		})
	}
	cs("ZeroValue", func(t *T) {
		x := v.make()
		z := G.ZeroValue(x)
		v.zero().check(t, "the zeroed value", z)
		v.zero().check(t, "the value itself", x)
	})
}

func pairCases(c *Ctx, a, b cval) {
	key := a.String() + "|" + b.String()
	c.Case(func() string { return "eq|" + key }, func(t *T) {
		t.State("eq", key)
		x, y := a.make(), b.make()
		// vectors, rows and columns may be called equal, as the tensor package does
		either := !sameShape(a.rt.Shape, b.rt.Shape) && (agree(a.rt.Shape, b.rt.Shape) || len(a.rt.D)+len(b.rt.D) == 2)
		if got, want := G.ValueEq(x, y), refEq(a.rt, b.rt); got != want && !(either && refEq(a.rt, b.rt.as(a.rt.Shape))) {
			t.Failf("ValueEq is %v, want %v", got, want)
		}
		if got, want := G.ValueClose(x, y), refClose(a.rt, b.rt); got != want && !(either && refClose(a.rt, b.rt.as(a.rt.Shape))) {
			t.Failf("ValueClose is %v, want %v", got, want)
		}
		a.check(t, "the left value", x)
		b.check(t, "the right value", y)
		t.Trans(2)
	})
	// copying into a value that holds something else; the tensor package
	// copies memory between row-major and column-major tensors as it is
	if (a.lay == "colmajor") != (b.lay == "colmajor") {
		return
	}
	c.Case(func() string { return "copy|" + key }, func(t *T) {
		t.State("copy", key)
		dst, src := a.make(), b.make()
		var r G.Value
		var err error
		if m := recovered("Copy", func() { r, err = G.Copy(dst, src) }); m != "" {
			err = fmt.Errorf("%s", m) // how the tensor package refuses
		}
		t.Trans(1)
		b.check(t, "the source", src)
		fits := a.rt.DT == b.rt.DT && sameShape(a.rt.Shape, b.rt.Shape) && a.rt.isScalar() == b.rt.isScalar()
		if err != nil {
			if fits {
				t.Failf("refused: %v", err)
			}
			a.check(t, "the destination of a refused copy", dst)
			return
		}
		if !fits {
			if a.rt.DT != b.rt.DT || a.rt.isScalar() != b.rt.isScalar() {
				t.Failf("accepted")
			}
			return // same size or truncating copies of the tensor package
		}
		b.check(t, "the result", r)
		b.check(t, "the destination", dst)
		disturb(src)
		b.check(t, "the result after a change of the source", r)
	})
}

// letCases binds v to an input of a's type and shape. before: nothing, a
// value, a value and a gradient.
func letCases(c *Ctx, a, v cval) {
	for _, before := range []string{"unbound", "bound", "with gradient"} {
		before := before
		if before == "with gradient" && !(isFloatDT(a.rt.DT)) {
			continue
		}
		for _, raw := range []bool{false, true} {
			raw := raw
			if raw && !v.rt.isScalar() {
				continue
			}
			c.Case(func() string { return fmt.Sprintf("let|%s|%v|%s%v|%s", before, raw, a.rt.DT, a.rt.Shape, v) }, func(t *T) {
				t.State("let", before, raw, a.rt.DT, a.rt.Shape, v.String())
				g := G.NewGraph()
				n := newInput(g, "n", a.rt)
				var old G.Value
				if before != "unbound" {
					old = a.make()
					if err := G.Let(n, old); err != nil {
						t.Failf("first Let: %v", err)
					}
				}
				if before == "with gradient" {
					s := G.Must(G.Square(n))
					if !s.IsScalar() {
						s = G.Must(G.Sum(s))
					}
					m := G.NewLispMachine(g)
					if err := m.RunAll(); err != nil {
						t.Failf("run: %v", err)
					}
					closeVM(m)
				}
				val := v.make()
				var be interface{} = val
				if raw {
					be = goVal(v.rt)
				}
				var err error
				if m := recovered("Let", func() { err = G.Let(n, be) }); m != "" {
					t.Failf("%s", m)
				}
				t.Trans(1)
				ok := a.rt.DT == v.rt.DT && agree(a.rt.Shape, v.rt.Shape) && a.rt.isScalar() == v.rt.isScalar()
				if ok != (err == nil) {
					t.Failf("want accepted=%v, got error %v", ok, err)
				}
				if ok {
					v.check(t, "the bound value", n.Value())
					return
				}
				if before == "unbound" {
					if n.Value() != nil {
						t.Failf("a refused binding left a value")
					}
					return
				}
				if n.Value() != old && before == "bound" {
					t.Failf("a refused binding replaced the value")
				}
				a.check(t, "the value after a refused binding", n.Value())
				if before == "with gradient" {
					d, err := n.Grad()
					if err != nil {
						t.Failf("gradient after a refused binding: %v", err)
					}
					w := newRT(a.rt.DT, a.rt.Shape...)
					for i := range w.D {
						w.D[i].V = 2 * a.rt.D[i].V
					}
					(cval{w, ""}).check(t, "the gradient after a refused binding", d)
				}
			})
		}
	}
}

// gradCases builds an input with the value a and the gradient v: it is accepted
// exactly when the types agree, and both are then what the node holds and what
// a solver works with.
func gradCases(c *Ctx, a, v cval) {
	if v.lay != "plain" || !isFloatDT(a.rt.DT) {
		return
	}
	for _, again := range []bool{false, true} {
		again := again
		c.Case(func() string { return fmt.Sprintf("withgrad|%v|%s%v|%s", again, a.rt.DT, a.rt.Shape, v) }, func(t *T) {
			t.State("withgrad", again, a.rt.DT, a.rt.Shape, v.String())
			g := G.NewGraph()
			n := newInput(g, "n", a.rt)
			if err := G.Let(n, a.make()); err != nil {
				t.Failf("Let: %v", err)
			}
			if again {
				G.WithGrad(a.disturbed().make())(n)
			}
			m := recovered("WithGrad", func() { G.WithGrad(v.make())(n) })
			t.Trans(1)
			if ok := a.rt.DT == v.rt.DT && len(a.rt.Shape) == len(v.rt.Shape); ok != (m == "") {
				t.Failf("want accepted=%v: %s", ok, m)
			}
			a.check(t, "the value", n.Value())
			if m != "" || !agree(a.rt.Shape, v.rt.Shape) {
				return
			}
			d, err := n.Grad()
			if err != nil {
				t.Failf("gradient: %v", err)
			}
			v.check(t, "the gradient", d)
			s := G.NewVanillaSolver(G.WithLearnRate(0.5))
			if err := s.Step(G.NodesToValueGrads(G.Nodes{n})); err != nil {
				t.Failf("step: %v", err)
			}
			w := newRT(a.rt.DT, a.rt.Shape...)
			for i := range w.D {
				w.D[i] = cst(a.rt.D[i].V - 0.5*v.rt.D[i].V)
			}
			if m := diffValue(n.Value(), w, tolFor(a.rt.DT, 1)); m != "" {
				t.Failf("after a step: %s", m)
			}
			t.Trace(1)
		})
	}
}

func runC21(c *Ctx) {
	dts := []string{"f64", "f32", "int", "i64", "i32", "u8", "bool"}
	shapes := [][]int{nil, {1}, {2}, {3}, {4}, {1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}, {3, 2}, {2, 1, 2}, {2, 2, 2}}
	if c.Thorough {
		shapes = append(shapes, []int{5}, []int{1, 3}, []int{3, 1}, []int{3, 3}, []int{1, 2, 2}, []int{2, 2, 1}, []int{2, 3, 2}, []int{1, 1, 1}, []int{2, 1, 2, 2})
	}
	for _, v := range cvalues(dts, shapes, 5) {
		v := v
		c.Group(func() { cloneCases(c, v) })
	}
	all := cvalues(dts, shapes, 5)
	for _, a := range all {
		a := a
		c.Group(func() {
			for _, b := range all {
				b := b
				if a.rt.DT != b.rt.DT && (a.lay != "plain" || b.lay != "plain") {
					continue
				}
				pairCases(c, a, b)
			}
		})
	}
	for _, a := range cvalues(dts, shapes, 1) {
		if a.lay != "plain" {
			continue
		}
		a := a
		c.Group(func() {
			for _, v := range cvalues(dts, shapes, 2) {
				letCases(c, a, v)
				gradCases(c, a, v)
			}
		})
	}
}

// as gives the same elements another shape.
func (t *RT) as(shape []int) *RT {
	r := *t
	r.Shape = shape
	return &r
}
