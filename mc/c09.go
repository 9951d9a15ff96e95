package main

import (
	"fmt"
	"math"

	G "gorgonia.org/gorgonia"
)

func init() {
	register(&Check{ID: "C09", Run: runC09, Procs: 1,
		Rule: "states: distinct reference results; transitions: reductions applied; traces: executions and gradients compared element by element"})
}

// axisLists lists the ordered selections of axes of nd dimensions; beyond three
// dimensions only sorted and reversed ones.
func axisLists(nd int, all bool) (r [][]int) {
	var rec func(cur []int)
	rec = func(cur []int) {
		if len(cur) > 0 {
			ok := true
			if !all && len(cur) > 1 {
				up, down := true, true
				for i := 1; i < len(cur); i++ {
					up = up && cur[i] > cur[i-1]
					down = down && cur[i] < cur[i-1]
				}
				ok = up || down
			}
			if ok {
				r = append(r, cp(cur))
			}
		}
		for a := 0; a < nd; a++ {
			if !inInts(a, cur) {
				rec(append(cp(cur), a))
			}
		}
	}
	rec(nil)
	return r
}

// shapesUpTo lists the shapes of 1..nd dimensions with the given extents.
func shapesUpTo(nd int, ext ...int) (r [][]int) {
	var rec func(cur []int)
	rec = func(cur []int) {
		if len(cur) > 0 {
			r = append(r, cp(cur))
		}
		if len(cur) == nd {
			return
		}
		for _, e := range ext {
			rec(append(cp(cur), e))
		}
	}
	rec(nil)
	return r
}

func opNormAny(axis, p int) *Op {
	return &Op{Name: fmt.Sprintf("NormAny(%d,%d)", axis, p), N: 1,
		Ref: redRef([]int{axis}, func(l []Dual) Dual {
			var s Dual
			for _, d := range l {
				if math.Abs(d.V) < 1e-3 {
					return cst(nan)
				}
				if d.V < 0 {
					d = dScale(d, -1)
				}
				s = dAdd(s, dPow(d, cst(float64(p))))
			}
			return dPow(s, cst(1/float64(p)))
		}),
		Build: func(in []*G.Node) (*G.Node, error) { return G.Norm(in[0], axis, p) }}
}

func opLogSumExp(axis int) *Op {
	return &Op{Name: fmt.Sprintf("LogSumExp(%d)", axis), N: 1, NoAD: true,
		Ref: redRef([]int{axis}, func(l []Dual) Dual {
			m := maxDuals(l).V
			var s Dual
			for _, d := range l {
				s = dAdd(s, dExp(dAdd(d, cst(-m))))
			}
			return dAdd(dLog(s), cst(m))
		}),
		Build: func(in []*G.Node) (*G.Node, error) { return G.LogSumExp(in[0], axis) }}
}

// opKeep is KeepDims around a reduction.
func opKeep(inner *Op, left bool) *Op {
	return &Op{Name: fmt.Sprintf("KeepDims(%s,%v)", inner.Name, left), N: 1, NoAD: inner.NoAD,
		Ref: func(in []*RT) (*RT, error) {
			r, err := inner.Ref(in)
			if err != nil {
				return nil, err
			}
			if r.isScalar() {
				return nil, errNA // documented as open
			}
			sh := cp(r.Shape)
			for len(sh) < len(in[0].Shape) {
				if left {
					sh = append([]int{1}, sh...)
				} else {
					sh = append(sh, 1)
				}
			}
			return reshapeRT(r, sh)
		},
		Build: func(in []*G.Node) (*G.Node, error) {
			return G.KeepDims(in[0], left, func(a *G.Node) (*G.Node, error) { return inner.Build([]*G.Node{a}) })
		}}
}

func opReduceN(n int, mul bool) *Op {
	name := "ReduceAdd"
	d := binDefByName("Add")
	if mul {
		name, d = "ReduceMul", binDefByName("Prod")
	}
	return &Op{Name: fmt.Sprintf("%s%d", name, n), N: n,
		Ref: func(in []*RT) (*RT, error) {
			r := in[0]
			for i, x := range in[1:] {
				if !sameShape(x.Shape, r.Shape) || mul && i >= 0 && !x.isScalar() {
					return nil, errNA
				}
				var err error
				if r, err = zip2(r, x, d.f); err != nil {
					return nil, err
				}
			}
			return r, nil
		},
		Build: func(in []*G.Node) (*G.Node, error) {
			if mul {
				return G.ReduceMul(append(G.Nodes{}, in...))
			}
			return G.ReduceAdd(append(G.Nodes{}, in...))
		}}
}

func opSizeOf(axis int) *Op {
	return &Op{Name: fmt.Sprintf("SizeOf(%d)", axis), N: 1, NoD: true,
		Ref: func(in []*RT) (*RT, error) {
			if in[0].isScalar() || axis >= len(in[0].Shape) {
				return nil, errNA
			}
			r := newRT(in[0].DT)
			r.D[0] = cst(float64(in[0].Shape[axis]))
			return r, nil
		},
		Build: func(in []*G.Node) (*G.Node, error) { return G.SizeOf(axis, in[0]) }}
}

func runC09(c *Ctx) {
	ext := []int{1, 2, 3}
	shapes := shapesUpTo(3, ext...)
	if c.Thorough {
		shapes = append(shapes, shapesOf(4, ext...)...)
		shapes = append(shapes, shapesOf(5, 1, 2)...)
		shapes = append(shapes, []int{7}, []int{17}, []int{5, 4}, []int{2, 9}, []int{4, 3, 5})
	} else {
		shapes = append(shapes, shapesOf(4, 1, 2)...)
		shapes = append(shapes, []int{2, 3, 1, 2}, []int{3, 2, 2, 3}, []int{7}, []int{5, 4}, []int{4, 3, 5})
	}
	// a scalar is its own sum, mean and largest element
	for _, op := range []*Op{opSum(), opMean(), opMax()} {
		op := *op
		op.Ref = func(in []*RT) (*RT, error) { return in[0].clone(), nil }
		for salt := 1; salt <= 2; salt++ {
			for _, dt := range []string{"f64", "f32"} {
				intAnswer(c, "scalar", &op, []*RT{genRT(dt, 0, salt)})
			}
			for _, dt := range []string{"int", "i64", "i32", "u8"} {
				intAnswer(c, "scalar", intOf(&op), []*RT{intRT(dt, salt)})
			}
		}
	}
	for _, dt := range []string{"int", "i64", "i32", "u8"} {
		for _, sh := range shapes {
			nd := len(sh)
			for _, ax := range append([][]int{{}}, axisLists(nd, nd <= 3)...) {
				for _, op := range []*Op{opSum(ax...), opMax(ax...)} {
					for salt := 1; salt <= 2; salt++ {
						intAnswer(c, "int", intOf(op), []*RT{intRT(dt, salt, sh...)})
					}
				}
			}
		}
		for n := 2; n <= 3; n++ {
			for _, sh := range [][]int{{}, {1}, {3}, {2, 3}, {2, 1, 2}} {
				var in []*RT
				for i := 0; i < n; i++ {
					in = append(in, intRT(dt, i+1, sh...))
				}
				intAnswer(c, "int", intOf(opReduceN(n, false)), in)
				intAnswer(c, "int", intOf(opReduceN(n, true)), in)
			}
		}
	}
	for _, dt := range []string{"f64", "f32"} {
		for _, sh := range shapes {
			nd := len(sh)
			lists := append([][]int{{}}, axisLists(nd, nd <= 3 || c.Thorough && nd == 4)...)
			for _, mode := range []int{0, 1} {
				if mode == 1 && dt == "f32" && !c.Thorough {
					continue
				}
				in := []*RT{genRT(dt, mode, 1, sh...)}
				for _, ax := range lists {
					parts := "frg"
					if mode == 0 && (dt == "f64" || c.Thorough) && nd <= 4 {
						parts = "frgv"
					}
					for _, op := range []*Op{opSum(ax...), opMean(ax...), opMax(ax...)} {
						suite(c, fmt.Sprintf("red%d", mode), op, in, parts)
						if dt == "f64" && mode == 0 {
							for _, left := range []bool{true, false} {
								suite(c, "keep", opKeep(op, left), in, "fg")
							}
						}
					}
				}
				for ax := 0; ax < nd; ax++ {
					for p := 1; p <= 4; p++ {
						suite(c, fmt.Sprintf("norm%d", mode), opNormAny(ax, p), in, "frg")
					}
					suite(c, fmt.Sprintf("lse%d", mode), opLogSumExp(ax), in, "frgv")
					suite(c, "sizeof", opSizeOf(ax), in, "frv")
				}
			}
			// reduction of a reduction: every pair of single axes
			if nd >= 2 && dt == "f64" {
				redPairs(c, sh)
			}
			// equal elements and negative values only
			neg := newRT(dt, sh...)
			for i := range neg.D {
				neg.D[i] = cst(-1.5 - float64(i)/4)
			}
			same := newRT(dt, sh...)
			for i := range same.D {
				same.D[i] = cst(-2.25)
			}
			for _, ax := range lists {
				for _, op := range []*Op{opSum(ax...), opMean(ax...), opMax(ax...)} {
					suite(c, "neg", op, []*RT{neg}, "fg")
					suite(c, "same", op, []*RT{same}, "f")
				}
			}
		}
		// large values: the log domain must not overflow
		for _, sh := range [][]int{{3}, {2, 3}, {3, 2, 2}} {
			for _, off := range []float64{300, -300, 2000, -2000} {
				x := genRT(dt, 0, 1, sh...)
				for i := range x.D {
					x.D[i].V += off
				}
				if dt == "f32" {
					for i := range x.D {
						x.D[i].V = float64(float32(x.D[i].V))
					}
				}
				for ax := range sh {
					suite(c, "lselarge", opLogSumExp(ax), []*RT{x}, "f")
				}
			}
		}
		for n := 1; n <= 4; n++ {
			for _, sh := range [][]int{{}, {1}, {3}, {2, 3}, {2, 1, 2}} {
				var in []*RT
				for i := 0; i < n; i++ {
					in = append(in, genRT(dt, 0, i+1, sh...))
				}
				if n > 1 {
					suite(c, "radd", opReduceN(n, false), in, "frg")
					suite(c, "rmul", opReduceN(n, true), in, "frg")
				}
				// the same node several times
				if n > 1 {
					suite(c, "raddsame", opReduceN(n, false), in[:1], "frg")
				}
			}
		}
	}
}

func shapesOf(nd int, ext ...int) (r [][]int) {
	for _, s := range shapesUpTo(nd, ext...) {
		if len(s) == nd {
			r = append(r, s)
		}
	}
	return
}

func redPairs(c *Ctx, sh []int) {
	mk := func(k int, ax []int) *Op {
		switch k {
		case 0:
			return opSum(ax...)
		case 1:
			return opMean(ax...)
		}
		return opMax(ax...)
	}
	nd := len(sh)
	for k1 := 0; k1 < 3; k1++ {
		for _, a1 := range axisLists(nd, false) {
			if len(a1) == nd {
				continue
			}
			for k2 := 0; k2 < 3; k2++ {
				for _, a2 := range axisLists(nd-len(a1), false) {
					o1, o2 := mk(k1, a1), mk(k2, a2)
					x := genRT("f64", 0, 3, sh...)
					p := &Prog{DT: "f64", NIn: 1, Vals: []*RT{x}, Instrs: []Instr{{o1, []int{0}}, {o2, []int{1}}}}
					r1, err := o1.Ref([]*RT{x})
					if err != nil {
						continue
					}
					r2, err := o2.Ref([]*RT{r1})
					if err != nil {
						continue
					}
					p.Vals = append(p.Vals, r1, r2)
					name := func(p *Prog, what string) func() string {
						return func() string { return fmt.Sprintf("pair|%s|%s", p.String(), what) }
					}
					c.Case(name(p, "tape"), func(t *T) { tapeCase(t, p, 1) })
					c.Case(name(p, "lisp"), func(t *T) { lispCase(t, p, false, 1) })
					suiteGrad(c, p, name)
				}
			}
		}
	}
}
