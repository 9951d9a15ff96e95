package main

// C07: what a node announces is what is computed.

import (
	"errors"
	"fmt"
	"strings"

	G "gorgonia.org/gorgonia"
)

func init() {
	register(&Check{ID: "C07", Run: runC07, Procs: 2,
		Rule: "A case is one operation with one parameterisation on one tuple of operand shapes and element types. Building and running it must give an error, or a value of exactly the shape and element type the node announced; where the definition gives no value there must be an error, and nothing may panic. states: distinct operation and operand tuples; transitions: operations built; traces: values compared."})
}

// benign gives the operand values for which every operation is defined.
func benign(dt string, salt int, shape []int) *RT {
	r := newRT(dt, shape...)
	for i := range r.D {
		r.D[i].V = float64(salt + 1 + i%3)
		if isFloatDT(dt) {
			r.D[i].V = float64(float32(0.5 + 0.37*float64(salt) + 0.01*float64(i)))
		}
		if dt == "bool" {
			r.D[i].V = float64(i % 2)
		}
	}
	return r
}

// firstLine keeps a message short.
func firstLine(e interface{}) string {
	s := strings.SplitN(fmt.Sprint(e), "\n", 2)[0]
	if len(s) > 120 {
		s = s[:120]
	}
	return s
}

func recovered(what string, f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = what + " panics: " + firstLine(e)
		}
	}()
	f()
	return ""
}

// probe evaluates every node below n, without a machine: the machines run
// operations in a goroutine of their own, where a panic ends the process.
func probe(n *G.Node, g *G.ExprGraph, seen map[int64]G.Value) G.Value {
	if v, ok := seen[n.ID()]; ok {
		return v
	}
	if n.Op() == nil || n.Value() != nil {
		seen[n.ID()] = n.Value()
		return n.Value()
	}
	var in []G.Value
	for _, c := range drain(g.From(n.ID())) {
		v := probe(c, g, seen)
		if v == nil {
			return nil
		}
		cl, err := G.CloneValue(v)
		if err != nil {
			return nil
		}
		in = append(in, cl)
	}
	v, err := n.Op().Do(in...)
	if err != nil {
		v = nil
	}
	seen[n.ID()] = v
	return v
}

// errAny: the definition does not say.
var errAny = errors.New("no verdict")

// refShape is the reference value for benign operands.
func refShape(op *Op, in []*RT) (r *RT, err error) {
	scalar := false
	for _, x := range in {
		scalar = scalar || x.isScalar()
	}
	defer func() {
		if e := recover(); e != nil {
			r, err = nil, errNA
		}
		if err != nil && scalar {
			// reductions, concatenation and broadcasting pass scalars on
			r, err = nil, errAny
		}
		if err != nil && tolerated(op.Name, in) {
			r, err = nil, errAny
		}
		if err != nil && (strings.HasPrefix(op.Name, "Slice") || op.Name == "Xent" || strings.HasPrefix(op.Name, "Concat1")) {
			r, err = nil, errAny
		}
	}()
	return op.Ref(in)
}

// tolerated: calls outside an operation's definition that gorgonia gives a
// meaning of its own. They may be refused or not; if not, the value has the
// announced shape.
func tolerated(op string, in []*RT) bool {
	has := func(p string) bool { return strings.HasPrefix(op, p) }
	switch {
	case has("ByIndices"), has("BMM"), has("MaxPool2D"):
		return true // a negative axis is axis 0; matrices are a batch of one; windows in the padding
	case has("T["):
		return len(in[0].Shape) == 1
	case has("BC"):
		a, b := in[0].Shape, in[1].Shape
		if len(in[0].D) == 1 || len(in[1].D) == 1 || len(a) != len(b) || agree(a, b) {
			return true
		}
		for i := range a { // an axis named on both sides, stretched on one
			if a[i] != b[i] && a[i] != 1 && b[i] != 1 {
				return false
			}
		}
		return true
	case len(in) == 2:
		return binByName[op] != nil && agree(in[0].Shape, in[1].Shape)
	}
	return false
}

// panics: wrong calls that the caller is told of by a panic and not by an
// error.
func panics(op, dt string, shapes [][]int) bool {
	has := func(p string) bool { return strings.HasPrefix(op, p) }
	switch {
	case !isFloatDT(dt) && (unaryByName[op] != nil || has("Norm") || has("LogSumExp")):
		return true // no such function of integers
	case has("SizeOf"), has("Tensordot"), has("ByIndices"), has("T["), has("Upsample"), has("Reshape"), has("BMM"), has("Slice"), has("BC"):
		return true // axes and bounds are not looked at before they are used
	case len(shapes) == 2:
		return numElems(shapes[0]) == 1 && numElems(shapes[1]) == 1
	}
	return false
}

func shapeCase(t *T, op *Op, dts []string, shapes [][]int) {
	g := G.NewGraph()
	var ins []*G.Node
	var ref []*RT
	same := true
	for i, s := range shapes {
		ins = append(ins, newBoundInput(g, inNames[i], benign(dts[i], i, s)))
		ref = append(ref, benign("f64", i, s))
		same = same && dts[i] == dts[0]
	}
	t.Trans(1)
	var n *G.Node
	var err error
	if m := recovered("building", func() { n, err = op.Build(ins) }); m != "" {
		if !panics(op.Name, dts[0], shapes) {
			t.Failf("%s", m)
		}
		t.Count("refused when built, by a panic of the caller", 1)
		return
	}
	want, rerr := refShape(op, ref)
	if err != nil {
		t.Count("refused when built", 1)
		return
	}
	shape := append([]int{}, n.Shape()...)
	var dt string
	if m := recovered("announcing the element type", func() { dt = dtName(n.Dtype()) }); m != "" {
		t.Failf("%s", m)
	}
	if n.Dims() != len(shape) {
		t.Failf("announces %d dimensions and shape %v", n.Dims(), shape)
	}
	nd := len(shape)
	for _, p := range []struct {
		what      string
		got, want bool
	}{
		{"scalar", n.IsScalar(), nd == 0},
		{"vector", n.IsVector(), nd == 1},
		{"vector", n.IsVec(), nd == 1},
		{"matrix", n.IsMatrix(), nd == 2},
		{"column", n.IsColVec(), nd == 2 && shape[0] > 1 && shape[1] == 1},
		{"row", n.IsRowVec(), nd == 2 && shape[0] == 1 && shape[1] > 1},
	} {
		if p.got != p.want {
			t.Failf("a %s: %v, announced shape %v", p.what, p.got, shape)
		}
	}
	if m := recovered("running", func() { probe(n, g, map[int64]G.Value{}) }); m != "" {
		t.Failf("%s", m)
	}
	var got G.Value
	G.Read(n, &got)
	var vm G.VM
	if m := recovered("compiling", func() { vm = G.NewTapeMachine(g) }); m != "" {
		t.Failf("%s", m)
	}
	defer closeVM(vm)
	if err := vm.RunAll(); err != nil {
		t.Count("refused when run", 1)
		return
	}
	v, err := readValue(got)
	if err != nil {
		t.Failf("value: %v", err)
	}
	t.Trace(1)
	if !sameShape(v.Shape, shape) {
		t.Failf("announced shape %v, value has %v", shape, v.Shape)
	}
	if v.DT != dt {
		t.Failf("announced element type %s, value has %s", dt, v.DT)
	}
	if rerr == errAny {
		return
	}
	if rerr != nil {
		t.Failf("accepted outside its definition, shape %v", shape)
	}
	if !same {
		t.Failf("accepted operands of different element types, result %s", dt)
	}
	if !sameShape(v.Shape, want.Shape) {
		t.Failf("shape %v, want %v", v.Shape, want.Shape)
	}
	if w := want.DT; w != "f64" && dt != w || w == "f64" && dt != dts[0] {
		t.Failf("element type %s of operands %s", dt, dts[0])
	}
}

func runC07(c *Ctx) {
	shapes := [][]int{nil, {1}, {2}, {3}, {1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}, {3, 2}, {1, 1, 1}, {2, 1, 2}, {2, 2, 2}, {2, 3, 2}, {1, 1, 2, 2}, {2, 2, 2, 2}, {1, 2, 3, 3}}
	dtl := []string{"f64", "f32", "int", "i64", "i32", "u8", "bool"}
	one := func(op *Op) {
		for _, dt := range dtl {
			for _, s := range shapes {
				dt, s := dt, s
				c.Case(func() string { return fmt.Sprintf("%s|%s%v", op.Name, dt, s) }, func(t *T) { t.State(op.Name, dt, s); shapeCase(t, op, []string{dt}, [][]int{s}) })
			}
		}
	}
	two := func(op *Op) {
		for i, d0 := range dtl {
			for j, d1 := range dtl {
				for _, s0 := range shapes {
					for _, s1 := range shapes {
						d0, d1, s0, s1 := d0, d1, s0, s1
						if i != j && (len(s0) > 2 || len(s1) > 2) {
							continue
						}
						c.Case(func() string { return fmt.Sprintf("%s|%s%v|%s%v", op.Name, d0, s0, d1, s1) }, func(t *T) {
							t.State(op.Name, d0, s0, d1, s1)
							shapeCase(t, op, []string{d0, d1}, [][]int{s0, s1})
						})
					}
				}
			}
		}
	}
	for _, d := range unaryDefs {
		one(unaryByName[d.name])
	}
	for _, d := range binDefs {
		two(binByName[d.name])
	}
	for _, d := range cmpDefs {
		two(binByName[d.name])
		two(binByName[d.name+"b"])
	}
	two(opMul())
	two(opOuter())
	for k := 0; k < 4; k++ {
		two(opBatchedMatMul(k&1 > 0, k&2 > 0))
	}
	for ax := -1; ax < 5; ax++ {
		one(opSum(ax))
		one(opMean(ax))
		one(opMax(ax))
		one(opNorm(ax, 2))
		one(opLogSumExp(ax))
		one(opSoftmax(ax, false))
		one(opSoftmax(ax, true))
		one(opSparsemax(ax))
		one(opSizeOf(ax))
		two(opConcat(ax, 2))
		one(opConcat(ax, 1))
		for n := 0; n < 4; n++ {
			one(opUnconcat(ax, n))
		}
		one(opByIndices(ax, 0, 1))
		one(opByIndices(ax, 0))
		for bx := -1; bx < 4; bx++ {
			one(opSum(ax, bx))
			one(opMax(ax, bx))
			one(opMean(ax, bx))
			two(opTensordot([]int{ax}, []int{bx}))
			if ax >= 0 && bx >= 0 {
				two(opTensordot([]int{ax, bx}, []int{ax, bx}))
				two(opTensordot([]int{ax, bx}, []int{bx, ax}))
				two(opTensordot([]int{ax, ax}, []int{ax, bx}))
				two(opTensordot([]int{ax, bx}, []int{ax, ax}))
			}
			one(opAt(ax, bx))
			one(opSlice(&sl{ax, bx, 0}))
			one(opSlice(nil, &sl{ax, bx, 0}))
			one(opReshape(ax, bx))
			one(opTranspose(ax, bx))
		}
		one(opAt(ax))
		one(opReshape(ax))
		one(opTranspose(ax))
		one(opUpsample(ax))
	}
	one(opSum())
	one(opMean())
	one(opMax())
	one(opRavel())
	one(opDiagFlat())
	one(opTranspose())
	for _, p := range permutations(3) {
		one(opTranspose(p...))
	}
	for _, s := range [][]int{{1, 2, 2}, {2, -1, 2}, {-1, -1}, {4, 1}, {2, 2, 2}, {8}, {3, 2}, {2, 1, 2, 1}, {0, 2}, {2, 0}} {
		one(opReshape(s...))
	}
	pats := [][]int{nil, {0}, {1}, {2}, {0, 1}, {3}}
	for _, l := range pats {
		for _, r := range pats {
			two(opBroadcast(binDefs[0], l, r))
		}
	}
	for _, k := range []int{1, 2, 3} {
		for _, p := range []int{0, 1} {
			for _, s := range []int{1, 2} {
				w := win{K: k, P0: p, P1: p, S: s, D: 1}
				one(opPool(w, w))
				one(opIm2Col(w, w))
				two(opConv(w, w))
			}
		}
	}
	two(xentOp)
}
