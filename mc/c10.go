package main

import (
	"fmt"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
)

func init() {
	register(&Check{ID: "C10", Run: runC10, Procs: 1,
		Rule: "states: distinct reference results; transitions: structural operations applied; traces: executions and gradients compared element by element"})
}

func opAt(coords ...int) *Op {
	return &Op{Name: "At" + axesName(coords), N: 1, NoD: true,
		Ref: func(in []*RT) (*RT, error) {
			if len(coords) != len(in[0].Shape) || in[0].isScalar() {
				return nil, errNA
			}
			r := newRT(in[0].DT)
			r.D[0] = in[0].at(coords...)
			return r, nil
		},
		Build: func(in []*G.Node) (*G.Node, error) { return G.At(in[0], cp(coords)...) }}
}

func opByIndices(axis int, idx ...int) *Op {
	return &Op{Name: fmt.Sprintf("ByIndices(%d,%s)", axis, axesName(idx)), N: 1,
		Ref: func(in []*RT) (*RT, error) {
			a := in[0]
			if axis >= len(a.Shape) {
				return nil, errNA
			}
			sh := cp(a.Shape)
			sh[axis] = len(idx)
			r := newRT(a.DT, sh...)
			str := strides(a.Shape)
			eachIdx(sh, func(ix []int, flat int) {
				o := 0
				for i, k := range ix {
					if i == axis {
						k = idx[k]
					}
					o += k * str[i]
				}
				r.D[flat] = a.D[o]
			})
			return r, nil
		},
		Build: func(in []*G.Node) (*G.Node, error) {
			v := tensor.New(tensor.WithBacking(cp(idx)), tensor.WithShape(len(idx)))
			n := G.NewTensor(in[0].Graph(), tensor.Int, 1, G.WithShape(len(idx)), G.WithName("idx"+axesName(idx)), G.WithValue(v))
			return G.ByIndices(in[0], n, axis)
		}}
}

func opDiagFlat() *Op {
	return &Op{Name: "DiagFlat", N: 1, NoD: true,
		Ref: func(in []*RT) (*RT, error) {
			n := len(in[0].D)
			if n < 2 {
				return nil, errNA
			}
			r := newRT(in[0].DT, n, n)
			for i := range in[0].D {
				r.D[i*n+i] = in[0].D[i]
			}
			return r, nil
		},
		Build: func(in []*G.Node) (*G.Node, error) { return G.DiagFlat(in[0]) }}
}

func opUpsample(k int) *Op {
	return &Op{Name: fmt.Sprintf("Upsample(%d)", k), N: 1, NoAD: true,
		Ref: func(in []*RT) (*RT, error) {
			a := in[0]
			if len(a.Shape) != 4 {
				return nil, errNA
			}
			sh := cp(a.Shape)
			sh[2] *= k
			sh[3] *= k
			r := newRT(a.DT, sh...)
			eachIdx(sh, func(ix []int, flat int) { r.D[flat] = a.at(ix[0], ix[1], ix[2]/k, ix[3]/k) })
			return r, nil
		},
		Build: func(in []*G.Node) (*G.Node, error) { return G.Upsample2D(in[0], k) }}
}

// opUnconcat splits in n parts and concatenates them in reverse order.
func opUnconcat(axis, n int) *Op {
	return &Op{Name: fmt.Sprintf("Unconcat(%d,%d)", axis, n), N: 1,
		Ref: func(in []*RT) (*RT, error) {
			a := in[0]
			if axis >= len(a.Shape) || a.Shape[axis]%n != 0 {
				return nil, errNA
			}
			r := newRT(a.DT, a.Shape...)
			w := a.Shape[axis] / n
			eachIdx(a.Shape, func(ix []int, flat int) {
				j := cp(ix)
				j[axis] = (n-1-ix[axis]/w)*w + ix[axis]%w
				r.D[flat] = a.at(j...)
			})
			return r, nil
		},
		Build: func(in []*G.Node) (*G.Node, error) {
			parts, err := G.Unconcat(in[0], axis, n)
			if err != nil {
				return nil, err
			}
			if len(parts) != n {
				return nil, fmt.Errorf("%d parts", len(parts))
			}
			var rev G.Nodes
			for i := range parts {
				rev = append(rev, parts[n-1-i])
			}
			return G.Concat(axis, rev...)
		}}
}

// ranges lists every slice of an axis: whole, every range, every range with a
// step from 2 up.
func ranges(d int, steps bool) (r []*sl) {
	r = append(r, nil)
	for s := 0; s < d; s++ {
		for e := s + 1; e <= d; e++ {
			r = append(r, &sl{s, e, 0})
			if !steps {
				continue
			}
			for st := 1; st <= e-s; st++ {
				r = append(r, &sl{s, e, st})
			}
		}
	}
	return
}

// structOps lists the structural operations applicable to a shape; small keeps
// the list short enough for compositions.
func structOps(sh []int, small bool) (r []*Op) {
	nd := len(sh)
	total := prodInts(sh)
	// slices
	var cur []*sl
	var rec func(axis, used int)
	rec = func(axis, used int) {
		if axis == nd {
			n := len(cur)
			if used == 0 {
				return
			}
			r = append(r, opSlice(append([]*sl{}, cur[:n]...)...))
			// trailing whole axes may be left out
			for n > 0 && cur[n-1] == nil {
				n--
			}
			if n < len(cur) && !small {
				r = append(r, opSlice(append([]*sl{}, cur[:n]...)...))
			}
			return
		}
		for _, x := range ranges(sh[axis], !small) {
			u := used
			if x != nil {
				u++
			}
			if small && (u > 1 || x != nil && x.End-x.Start != 1 && x.End != sh[axis]) || u > 2 && x != nil && x.Step != 0 {
				continue
			}
			cur = append(cur, x)
			rec(axis+1, u)
			cur = cur[:len(cur)-1]
		}
	}
	if nd > 0 {
		rec(0, 0)
	}
	if nd >= 2 {
		for _, p := range permutations(nd) {
			r = append(r, opTranspose(p...))
		}
		r = append(r, opTranspose())
	}
	// reshapes: every ordered factorisation in up to 4 factors
	if nd > 0 {
		for _, f := range factorings(total, 4) {
			if small && len(f) > 3 {
				continue
			}
			r = append(r, opReshape(f...))
			if !small && len(f) > 1 {
				for i := range f {
					g := cp(f)
					g[i] = -1
					r = append(r, opReshape(g...))
				}
			}
		}
		r = append(r, opRavel(), opReshape(-1))
	}
	for ax := 0; ax < nd; ax++ {
		for n := 1; n <= sh[ax]; n++ {
			if n == 1 && small {
				continue
			}
			r = append(r, opUnconcat(ax, n))
		}
		d := sh[ax]
		if small {
			r = append(r, opByIndices(ax, d-1, 0, d-1))
			continue
		}
		for a := 0; a < d; a++ {
			r = append(r, opByIndices(ax, a))
			for b := 0; b < d; b++ {
				r = append(r, opByIndices(ax, a, b))
				for e := 0; e < d; e++ {
					r = append(r, opByIndices(ax, a, b, e))
				}
			}
		}
		if d > 3 || d == 2 {
			r = append(r, opByIndices(ax, d-1, 0, 0, d-1), opByIndices(ax, 0, 1, 1, 1, 0))
		}
	}
	if !small {
		eachIdx(sh, func(ix []int, _ int) { r = append(r, opAt(ix...)) })
	}
	if nd == 4 {
		for k := 1; k <= 3; k++ {
			r = append(r, opUpsample(k))
		}
	}
	r = append(r, opDiagFlat())
	return r
}

func factorings(n, max int) (r [][]int) {
	var rec func(cur []int, left int)
	rec = func(cur []int, left int) {
		if left == 1 && len(cur) > 0 {
			r = append(r, cp(cur))
		}
		if len(cur) == max {
			return
		}
		for f := 1; f <= left; f++ {
			if left%f == 0 {
				rec(append(cp(cur), f), left/f)
			}
		}
	}
	rec(nil, n)
	return
}

func runC10(c *Ctx) {
	shapes := shapesUpTo(2, 1, 2, 3, 4)
	shapes = append(shapes, shapesOf(3, 1, 2, 3)...)
	shapes = append(shapes, []int{6}, []int{5, 2}, []int{1, 1, 2, 3}, []int{2, 2, 2, 2}, []int{2, 1, 3, 2}, []int{1, 2, 2, 1})
	if c.Thorough {
		shapes = append(shapes, shapesOf(4, 1, 2)...)
		shapes = append(shapes, []int{6, 5}, []int{4, 3, 2}, []int{2, 3, 4}, []int{3, 2, 3, 2}, []int{7, 3})
	}
	for _, dt := range []string{"f64", "f32", "int", "bool"} {
		for si, sh := range shapes {
			var x *RT
			switch dt {
			case "int":
				x = intRT(dt, 1, sh...)
			case "bool":
				x = newRT(dt, sh...)
				for i := range x.D {
					x.D[i] = cst(float64((i*i/2 + i) % 2))
				}
			default:
				x = genRT(dt, 1, 1, sh...)
			}
			for _, op := range structOps(sh, false) {
				parts := "frgv"
				if dt == "f32" && !c.Thorough || len(sh) == 3 && si%3 != 0 && !c.Thorough {
					parts = "fg"
				}
				if dt == "int" || dt == "bool" {
					if len(sh) > 2 && !c.Thorough {
						continue
					}
					parts = "f"
				}
				suite(c, "one", op, []*RT{x}, parts)
			}
			concats(c, dt, sh)
		}
	}
	for _, dt := range []string{"f64", "f32"} {
		for _, from := range [][]int{nil, {1}, {1, 1}, {1, 1, 1}} {
			for _, to := range [][]int{nil, {1}, {1, 1}, {1, 1, 1}} {
				suite(c, "one", opReshape1(to...), []*RT{genRT(dt, 1, 1, from...)}, "frg")
			}
		}
	}
	reslices(c)
	// compositions of two (three when thorough)
	comp := [][]int{{3}, {2, 3}, {3, 1}, {1, 2}, {2, 2, 3}, {2, 1, 2}}
	if c.Thorough {
		comp = append(comp, []int{4}, []int{3, 3}, []int{1, 3}, []int{3, 2, 2}, []int{1, 1, 2}, []int{2, 2, 1, 2})
	}
	for _, sh := range comp {
		compose(c, &Prog{DT: "f64", NIn: 1, Vals: []*RT{genRT("f64", 1, 2, sh...)}}, 2)
	}
	if c.Thorough {
		for _, sh := range [][]int{{3}, {2, 2}, {1, 2}, {2, 1}} {
			compose(c, &Prog{DT: "f64", NIn: 1, Vals: []*RT{genRT("f64", 1, 2, sh...)}}, 3)
		}
	}
}

// compose extends p by every structural operation until depth more are placed.
func compose(c *Ctx, p *Prog, depth int) {
	last := p.Vals[len(p.Vals)-1]
	if depth == 0 {
		name := func(p *Prog, what string) func() string {
			return func() string { return fmt.Sprintf("comp|%s|%s", p.String(), what) }
		}
		c.Case(name(p, "tape"), func(t *T) { tapeCase(t, p, 0) })
		c.Case(name(p, "lisp"), func(t *T) { lispCase(t, p, false, 0) })
		suiteGrad(c, p, name)
		return
	}
	if last.isScalar() {
		return
	}
	for _, op := range structOps(last.Shape, true) {
		r, err := op.Ref([]*RT{last})
		if err != nil || len(r.D) > 40 {
			continue
		}
		q := p.clone()
		q.Instrs = append(q.Instrs, Instr{op, []int{len(p.Vals) - 1}})
		q.Vals = append(q.Vals, r)
		compose(c, q, depth-1)
	}
}

func concats(c *Ctx, dt string, sh []int) {
	mk := func(salt int, s []int) *RT {
		if dt == "int" {
			return intRT(dt, salt, s...)
		}
		return genRT(dt, 1, salt, s...)
	}
	if dt == "bool" {
		return
	}
	for ax := range sh {
		for n := 1; n <= 4; n++ {
			// every choice of extents 1..2 (up to three operands), equal extents beyond
			var rec func(ext []int)
			rec = func(ext []int) {
				if len(ext) == n {
					var in []*RT
					for i, e := range ext {
						s := cp(sh)
						s[ax] = e
						in = append(in, mk(i+1, s))
					}
					parts := "frgv"
					if dt == "int" {
						parts = "f"
					} else if dt == "f32" {
						parts = "fg"
					}
					if n == 1 {
						parts = "fg"
					}
					suite(c, "concat", opConcat(ax, n), in, parts)
					return
				}
				for _, e := range []int{sh[ax], 1, 2} {
					if n == 4 && e != sh[ax] {
						continue
					}
					if e == sh[ax] && len(ext) > 0 && (e == 1 || e == 2) && n < 4 {
						continue
					}
					rec(append(cp(ext), e))
				}
			}
			rec(nil)
			// the same node several times
			if n > 1 && n < 4 {
				suite(c, "concatsame", opConcat(ax, n), []*RT{mk(1, sh)}, "fg")
			}
		}
	}
}

// reslices: a slice is re-targeted between runs with UnsafeLet.
func reslices(c *Ctx) {
	max := 3
	if c.Thorough {
		max = 4
	}
	for _, dt := range []string{"f64", "f32"} {
		for _, sh := range [][]int{{4}, {4, 2}, {2, 4}, {4, 1}, {2, 4, 2}} {
			for axis := range sh {
				by := map[string][]*sl{}
				for _, r := range ranges(sh[axis], false) {
					if r == nil {
						continue
					}
					s := make([]*sl, axis+1)
					s[axis] = r
					x, err := sliceRT(genRT(dt, 1, 1, sh...), s)
					if err != nil {
						continue
					}
					k := fmt.Sprint(x.Shape)
					by[k] = append(by[k], r)
				}
				for _, k := range sortedKeys(by) {
					l := by[k]
					for _, seq := range sequences(len(l), max, false) {
						if len(seq) < 2 {
							continue
						}
						for _, kind := range []int{kTape, kLispFwd, kLisp} {
							dt, sh, axis, seq, kind := dt, sh, axis, seq, kind
							var rs []*sl
							for _, i := range seq {
								rs = append(rs, l[i])
							}
							c.Case(func() string {
								return fmt.Sprintf("reslice|%s|%v|%d|%s|%s", dt, sh, axis, slName(rs), kindName[kind])
							}, func(t *T) { resliceCase(t, dt, sh, axis, rs, kind) })
						}
					}
				}
			}
		}
	}
}

func resliceCase(t *T, dt string, sh []int, axis int, rs []*sl, kind int) {
	at := func(r *sl) tensor.Slice {
		if r.Step == 0 {
			return G.S(r.Start, r.End)
		}
		return G.S(r.Start, r.End, r.Step)
	}
	g := G.NewGraph()
	in := genRT(dt, 1, 1, sh...)
	x := newBoundInput(g, "x", in)
	l := make([]tensor.Slice, axis+1)
	l[axis] = at(rs[0])
	y, err := G.Slice(x, l...)
	if err != nil {
		t.Failf("slice: %v", err)
	}
	sq := G.Must(G.Square(y))
	var yv, sv G.Value
	G.Read(y, &yv)
	G.Read(sq, &sv)
	if kind == kLisp && !sq.IsScalar() {
		G.Must(G.Sum(sq))
	}
	if err := G.UnsafeLet(sq, at(rs[0])); err == nil {
		t.Failf("a slice was accepted by a node that is none")
	}
	var m G.VM
	switch kind {
	case kTape:
		m = G.NewTapeMachine(g)
	case kLispFwd:
		m = G.NewLispMachine(g, G.ExecuteFwdOnly())
	default:
		m = G.NewLispMachine(g)
	}
	defer closeVM(m)
	for i, r := range rs {
		if i > 0 {
			m.Reset()
			if err := G.UnsafeLet(y, at(r)); err != nil {
				t.Failf("run %d: %v", i, err)
			}
		}
		if err := m.RunAll(); err != nil {
			t.Failf("run %d: %v", i, err)
		}
		t.Trans(1)
		s := make([]*sl, axis+1)
		s[axis] = r
		want, err := sliceRT(in, s)
		if err != nil {
			t.Failf("reference: %v", err)
		}
		if d := diffValue(yv, want, 0); d != "" {
			t.Failf("run %d: slice: %s", i, d)
		}
		w2 := newRT(dt, want.Shape...)
		for j := range w2.D {
			w2.D[j] = cst(want.D[j].V * want.D[j].V)
		}
		if d := diffValue(sv, w2, tolFor(dt, 4)); d != "" {
			t.Failf("run %d: square: %s", i, d)
		}
		t.Trace(2)
		t.State(fmt.Sprint(sh, axis, r, i))
		if kind != kLisp {
			continue
		}
		gv, err := x.Grad()
		if err != nil {
			t.Failf("run %d: derivative: %v", i, err)
		}
		wg := newRT(dt, sh...)
		idx := newRT(dt, sh...)
		for j := range idx.D {
			idx.D[j] = cst(float64(j))
		}
		pos, err := sliceRT(idx, s)
		if err != nil {
			t.Failf("reference: %v", err)
		}
		for _, p := range pos.D {
			j := int(p.V)
			wg.D[j] = cst(2 * in.D[j].V)
		}
		if d := diffValue(gv, wg, tolFor(dt, 4)); d != "" {
			t.Failf("run %d: derivative: %s", i, d)
		}
		if err := G.NewVanillaSolver(G.WithLearnRate(0)).Step(G.NodesToValueGrads(G.Nodes{x})); err != nil {
			t.Failf("solver: %v", err)
		}
		t.Trace(1)
	}
}
