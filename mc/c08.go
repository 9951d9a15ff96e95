package main

import (
	"fmt"
	"math"

	G "gorgonia.org/gorgonia"
)

func init() {
	register(&Check{ID: "C08", Run: runC08, Procs: 1,
		Rule: "states: distinct reference results; transitions: operations applied; traces: executions compared element by element"})
}

// opSpecial wraps op so that its reference accepts operands outside the smooth
// domain (zeros, ties, infinities, NaN).
func specialBin(d binDef) *Op {
	return &Op{Name: d.name, N: 2,
		Ref: func(in []*RT) (*RT, error) {
			if (d.name == "MaxB" || d.name == "MinB") && (in[0].isScalar() || in[1].isScalar()) {
				return nil, errNA
			}
			out := false
			r, err := zip2(in[0], in[1], func(x, y Dual) Dual {
				switch d.name {
				case "Div": // vectors: the tensor library turns every x/0 into +Inf
					out = out || y.V == 0 && (!in[0].isScalar() || !in[1].isScalar())
				case "MaxB", "MinB":
					out = out || math.IsNaN(x.V) || math.IsNaN(y.V)
				case "Pow": // 32 bits: the maths library differs from IEEE at -Inf
					out = out || in[0].DT == "f32" && math.IsInf(x.V, -1)
				}
				return cst(d.f(cst(x.V), cst(y.V)).V)
			})
			if out {
				return nil, errNA
			}
			return r, err
		},
		Build: func(in []*G.Node) (*G.Node, error) { return d.b(in[0], in[1]) }}
}
func specialCmp(d cmpDef, same bool) *Op {
	o := mkCmp(d, same)
	ref := cmpRef(d, same)
	o.Ref = func(in []*RT) (*RT, error) { return ref(in[0], in[1]) }
	return o
}

func specialUnary(d unaryDef) *Op {
	// compositions of several operations have no promised value at infinities
	comp := d.name == "Rectify" || d.name == "LeakyRelu" || d.name == "Mish"
	return &Op{Name: d.name, N: 1,
		Ref: func(in []*RT) (*RT, error) {
			r := newRT(in[0].DT, in[0].Shape...)
			for i := range r.D {
				x := in[0].D[i].V
				if comp && (math.IsInf(x, 0) || math.IsNaN(x)) {
					return nil, errNA
				}
				r.D[i] = cst(d.fn(x))
				if math.IsNaN(x) {
					r.D[i] = cst(x)
				}
			}
			return r, nil
		},
		Build: func(in []*G.Node) (*G.Node, error) { return d.b(in[0]) }}
}

func rtOf(dt string, shape []int, v ...float64) *RT {
	r := newRT(dt, shape...)
	for i := range r.D {
		r.D[i] = cst(v[i%len(v)])
	}
	return r
}

// intVals fills a tensor of an integer type.
func intRT(dt string, salt int, shape ...int) *RT {
	r := newRT(dt, shape...)
	for i := range r.D {
		r.D[i] = cst(float64((i*7+salt*5)%9 + 1))
	}
	return r
}

func opAuto(d binDef) *Op {
	pt := mkBin(d)
	return &Op{Name: "Auto" + d.name, N: 2,
		Ref: func(in []*RT) (*RT, error) {
			a, b := in[0], in[1]
			if len(a.Shape) != len(b.Shape) || len(a.Shape) == 0 {
				return nil, errNA
			}
			var l, r []int
			for i := range a.Shape {
				switch {
				case a.Shape[i] == b.Shape[i]:
				case a.Shape[i] == 1:
					l = append(l, i)
				case b.Shape[i] == 1:
					r = append(r, i)
				default:
					return nil, errNA
				}
			}
			return bcRef(l, r, func(x, y *RT) (*RT, error) { return pt.Ref([]*RT{x, y}) })(in)
		},
		Build: func(in []*G.Node) (*G.Node, error) { return G.Auto(d.bc, in[0], in[1]) }}
}

func runC08(c *Ctx) {
	shapes := [][]int{{}, {1}, {3}, {2, 3}, {3, 1}, {1, 3}, {1, 1}, {2, 2, 2}, {2, 1, 3}, {1, 2, 1, 2}}
	if c.Thorough {
		shapes = append(shapes, []int{7}, []int{16}, []int{5, 4}, []int{2, 3, 4}, []int{2, 2, 2, 2}, []int{1, 1, 1})
	}
	floats := []string{"f64", "f32"}
	for _, dt := range floats {
		for _, sh := range shapes {
			for mode := 0; mode < 3; mode++ {
				for _, op := range uops(allUnary...) {
					suite(c, fmt.Sprintf("unary%d", mode), op, []*RT{genRT(dt, mode, 1, sh...)}, "frv")
				}
			}
			// special values, one tensor holding all and one scalar each
			spec := []float64{0, 1, -1, 0.5, -0.5, 2, -2, 17, -17, 30, -30, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1), 1e-7, -1e-7}
			for _, d := range unaryDefs {
				for s := 0; s < len(spec); s++ {
					if len(sh) > 0 && s > 0 && len(sh) < 3 {
						break
					}
					if len(sh) >= 3 && s > 2 {
						break
					}
					rot := append(append([]float64{}, spec[s:]...), spec[:s]...)
					if x := rtOf(dt, sh, rot...); true {
						unarySpecial(c, d, x)
					}
				}
				if len(sh) == 1 {
					unarySpecial(c, d, rtOf(dt, []int{len(spec)}, spec...))
					unarySpecial(c, d, rtOf(dt, []int{11}, spec...))
				}
			}
		}
	}
	// every pair of operand kinds
	type pair struct{ a, b []int }
	var pairs []pair
	for _, a := range shapes {
		for _, b := range shapes {
			if len(a) == 0 || len(b) == 0 || sameShape(a, b) {
				pairs = append(pairs, pair{a, b})
			}
		}
	}
	for _, dt := range floats {
		for _, pr := range pairs {
			for mode := 0; mode < 3; mode++ {
				for _, op := range bops(allBin...) {
					suite(c, fmt.Sprintf("binary%d", mode), op, []*RT{genRT(dt, mode, 1, pr.a...), genRT(dt, mode, 2, pr.b...)}, "frv")
				}
				short := *binByName["Div"]
				short.Name = "DivShort"
				short.Build = func(in []*G.Node) (*G.Node, error) { return G.Div(in[0], in[1]) }
				suite(c, fmt.Sprintf("binary%d", mode), &short, []*RT{genRT(dt, mode, 1, pr.a...), genRT(dt, mode, 2, pr.b...)}, "f")
				// one operand twice
				if sameShape(pr.a, pr.b) {
					for _, op := range bops(allBin...) {
						suite(c, fmt.Sprintf("twice%d", mode), op, []*RT{genRT(dt, mode, 1, pr.a...)}, "frv")
					}
				}
			}
			spec := []float64{0, 1, -1, 2, -0.5, math.Inf(1), math.Inf(-1), math.NaN()}
			var xs, ys []float64
			for _, x := range spec {
				for _, y := range spec {
					xs, ys = append(xs, x), append(ys, y)
				}
			}
			if len(pr.a) <= 1 && len(pr.b) <= 1 && prodInts(pr.a) != 1 || len(pr.a)+len(pr.b) == 0 {
				var ops []*Op
				for _, d := range binDefs {
					ops = append(ops, specialBin(d))
				}
				for _, d := range cmpDefs {
					ops = append(ops, specialCmp(d, true), specialCmp(d, false))
				}
				for _, op := range ops {
					if len(pr.a) == 1 && len(pr.b) == 1 {
						for k := 0; k < len(xs); k += 2 {
							suite(c, fmt.Sprintf("special%d", k), op, []*RT{rtOf(dt, []int{2}, xs[k:]...), rtOf(dt, []int{2}, ys[k:]...)}, "f")
						}
						continue
					}
					for k := range xs {
						suite(c, fmt.Sprintf("special%d", k), op, []*RT{rtOf(dt, pr.a, xs[k]), rtOf(dt, pr.b, ys[k])}, "f")
					}
				}
			}
		}
	}
	// integer element types
	for _, dt := range []string{"int", "i64", "i32", "u8"} {
		for _, pr := range pairs {
			if len(pr.a) > 3 || len(pr.b) > 3 {
				continue
			}
			a, b := intRT(dt, 1, pr.a...), intRT(dt, 2, pr.b...)
			for _, d := range binDefs {
				if d.name != "Add" && d.name != "Sub" && d.name != "Prod" {
					continue
				}
				if d.name == "Sub" && dt == "u8" {
					for i := range a.D {
						a.D[i].V += 10
					}
				}
				intSuite(c, "int", specialBin(d), []*RT{a, b})
			}
			for _, d := range cmpDefs {
				intSuite(c, "int", specialCmp(d, true), []*RT{a, b})
				intSuite(c, "int", specialCmp(d, false), []*RT{a, b})
			}
		}
	}
	// every pair of small integers, as scalars and as the elements of vectors
	for _, dt := range []string{"int", "i64", "i32", "u8"} {
		vals := []float64{0, 1, 2, 3, 7, -1, -2, -7}
		if dt == "u8" {
			vals = []float64{0, 1, 2, 3, 7, 250, 255}
		}
		var ops []*Op
		for _, n := range []string{"Add", "Sub", "Prod", "Div"} {
			ops = append(ops, intBin(binDefByName(n)))
		}
		for _, d := range cmpDefs {
			ops = append(ops, specialCmp(d, true), specialCmp(d, false))
		}
		var xs, ys []float64
		for _, x := range vals {
			for _, y := range vals {
				xs, ys = append(xs, x), append(ys, y)
				for _, op := range ops {
					suite(c, "ipair", op, []*RT{rtOf(dt, nil, x), rtOf(dt, nil, y)}, "f")
				}
			}
		}
		for _, op := range ops {
			for k := 0; k+2 <= len(xs); k++ {
				suite(c, "ipair", op, []*RT{rtOf(dt, []int{2}, xs[k:]...), rtOf(dt, []int{2}, ys[k:]...)}, "f")
			}
			for _, y := range vals {
				intSuite(c, "ipair", op, []*RT{rtOf(dt, []int{len(vals)}, vals...), rtOf(dt, nil, y)})
				intSuite(c, "ipair", op, []*RT{rtOf(dt, nil, y), rtOf(dt, []int{len(vals)}, vals...)})
			}
		}
	}
	for _, d := range cmpDefs {
		if d.name != "Eq" && d.name != "Ne" {
			continue
		}
		for k := 0; k < 4; k++ {
			x, y := float64(k&1), float64(k>>1)
			boolCase(c, specialCmp(d, false), rtOf("bool", nil, x), rtOf("bool", nil, y))
			for l := 0; l < 4; l++ {
				boolCase(c, specialCmp(d, false), rtOf("bool", []int{2}, x, float64(l&1)), rtOf("bool", []int{2}, y, float64(l>>1)))
			}
		}
	}
	// broadcasting
	extents := []int{1, 2, 3}
	var bshapes [][]int
	for nd := 1; nd <= 3; nd++ {
		n := 1
		for i := 0; i < nd; i++ {
			n *= len(extents)
		}
		for k := 0; k < n; k++ {
			var sh []int
			for i, r := 0, k; i < nd; i++ {
				sh = append(sh, extents[r%3])
				r /= 3
			}
			bshapes = append(bshapes, sh)
		}
	}
	bshapes = append(bshapes, []int{2, 1, 2, 1}, []int{1, 2, 1, 2}, []int{2, 2, 2, 2}, []int{1, 1, 1, 1}, []int{1, 2, 2, 1}, []int{3, 1, 1, 2})
	names := []string{"Add", "Sub", "Prod", "Div", "Pow"}
	for _, a := range bshapes {
		for _, b := range bshapes {
			a, b := a, b
			if len(a) < len(b)-2 || len(b) < len(a)-2 {
				continue
			}
			c.Group(func() {
				ins := func(dt string) []*RT { return []*RT{genRT(dt, 0, 1, a...), genRT(dt, 0, 2, b...)} }
				if len(a) == len(b) {
					for _, n := range names {
						suite(c, "auto", opAuto(binDefByName(n)), ins("f64"), "f")
					}
				}
				for l := 0; l < 1<<len(b); l++ {
					for r := 0; r < 1<<len(a); r++ {
						if l == 0 && r == 0 {
							continue
						}
						la, ra := bits(l), bits(r)
						if _, err := opBroadcast(binDefs[0], la, ra).Ref(ins("f64")); err != nil {
							continue
						}
						for k, n := range names {
							parts := "f"
							if k < 2 {
								parts = "frv"
							}
							suite(c, "bc", opBroadcast(binDefByName(n), la, ra), ins("f64"), parts)
						}
						suite(c, "bc", opBroadcast(binDefs[1], la, ra), ins("f32"), "f")
						for _, d := range cmpDefs {
							suite(c, "bc", opBroadcastCmp(d, true, la, ra), ins("f64"), "f")
							suite(c, "bc", opBroadcastCmp(d, false, la, ra), ins("f64"), "f")
						}
						for _, dt := range []string{"int", "i64", "i32", "u8"} {
							is := []*RT{intRT(dt, 1, a...), intRT(dt, 2, b...)}
							for _, n := range []string{"Add", "Sub", "Prod"} {
								if n == "Sub" && dt == "u8" {
									continue
								}
								d := binDefByName(n)
								op := opBroadcast(d, la, ra)
								op.Ref = bcRef(la, ra, func(a, b *RT) (*RT, error) { return zip2(a, b, d.f) })
								intAnswer(c, "ibc", op, is)
							}
							for _, d := range cmpDefs {
								for _, same := range []bool{true, false} {
									op := opBroadcastCmp(d, same, la, ra)
									op.Ref = bcRef(la, ra, cmpRef(d, same))
									intAnswer(c, "ibc", op, is)
								}
							}
						}
					}
				}
			})
		}
	}
}

func bits(m int) (r []int) {
	for i := 0; m>>i != 0; i++ {
		if m>>i&1 == 1 {
			r = append(r, i)
		}
	}
	return
}

// intSuite: integers combined with a scalar are not implemented for every
// type; that must then be an error.
// intBin is an operation in the arithmetic of an integer type: quotients are
// truncated and bytes wrap around.
func intBin(d binDef) *Op {
	return &Op{Name: d.name, N: 2,
		Ref: func(in []*RT) (*RT, error) {
			out := false
			r, err := zip2(in[0], in[1], func(x, y Dual) Dual {
				out = out || d.name == "Div" && y.V == 0
				v := math.Trunc(d.f(cst(x.V), cst(y.V)).V)
				if in[0].DT == "u8" && !out {
					v = float64(uint8(int64(v)))
				}
				return cst(v)
			})
			if out {
				return nil, errNA
			}
			return r, err
		},
		Build: func(in []*G.Node) (*G.Node, error) { return d.b(in[0], in[1]) }}
}

// boolCase compares truth values, where the operation accepts them.
func boolCase(c *Ctx, op *Op, x, y *RT) {
	p, err := single(op, []*RT{x, y})
	if err != nil {
		return
	}
	c.Case(func() string { return "bool|" + p.String() }, func(t *T) {
		for _, lisp := range []bool{false, true} {
			g := G.NewGraph()
			nodes, err := p.build(g)
			if err == nil {
				var m G.VM
				if lisp {
					m = G.NewLispMachine(g, G.ExecuteFwdOnly())
				} else {
					m = G.NewTapeMachine(g)
				}
				defer closeVM(m)
				err = m.RunAll()
			}
			if err != nil {
				t.Count("refused", 1)
				continue
			}
			if d := diffValue(nodes[len(nodes)-1].Value(), p.Vals[len(nodes)-1], 0); d != "" {
				t.Failf("lisp=%v: %s", lisp, d)
			}
			t.Trans(1)
			t.Trace(1)
		}
	})
}

func intSuite(c *Ctx, tag string, op *Op, ins []*RT) {
	if ins[0].isScalar() == ins[1].isScalar() {
		suite(c, tag, op, ins, "f")
		return
	}
	intAnswer(c, tag, op, ins)
}

// intOf is op on integers.
func intOf(op *Op) *Op {
	o := *op
	o.Ref = func(in []*RT) (*RT, error) {
		dt := in[0].DT
		var fs []*RT
		for _, x := range in {
			f := newRT("f64", x.Shape...)
			copy(f.D, x.D)
			fs = append(fs, f)
		}
		r, err := op.Ref(fs)
		if err != nil {
			return nil, err
		}
		w := newRT(dt, r.Shape...)
		for i := range r.D {
			w.D[i] = cst(r.D[i].V)
			if dt == "u8" {
				w.D[i] = cst(float64(uint8(int64(r.D[i].V))))
			}
		}
		return w, nil
	}
	return &o
}

// intAnswer: an operation on integers that a machine does not refuse to run
// gives the value of the reference.
func intAnswer(c *Ctx, tag string, op *Op, ins []*RT) {
	p, err := single(op, ins)
	if err != nil {
		return
	}
	c.Case(func() string { return tag + "|" + p.String() + "|mixed" }, func(t *T) {
		for _, lisp := range []bool{false, true} {
			g := G.NewGraph()
			nodes, err := p.build(g)
			if err == nil {
				var m G.VM
				if lisp {
					m = G.NewLispMachine(g, G.ExecuteFwdOnly())
				} else {
					m = G.NewTapeMachine(g)
				}
				defer closeVM(m)
				err = m.RunAll()
			}
			if err != nil {
				t.Count("refused", 1)
				continue
			}
			if d := diffValue(nodes[len(nodes)-1].Value(), p.Vals[len(nodes)-1], 0); d != "" {
				t.Failf("lisp=%v: %s", lisp, d)
			}
			t.Trans(1)
			t.Trace(1)
		}
	})
}

func unarySpecial(c *Ctx, d unaryDef, x *RT) {
	suite(c, "special", specialUnary(d), []*RT{x}, "f")
}
