package main

// C14: different expressions are never merged.

import (
	"fmt"
	"math"
	"sort"
	"strings"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
)

func init() {
	register(&Check{ID: "C14", Run: runC14, Procs: 4,
		Rule: "A case is an ordered pair of expressions of the catalogue built in one graph over shared inputs, alone (12) and repeated (1221), and run on a machine. Every handle must have the value that its expression has when built alone, and the gradient of a cost over both must be the sum of the gradients. states: distinct pairs; transitions: expressions built; traces: handles and gradients compared."})
}

// cexpr is an entry of the catalogue.
type cexpr struct {
	name string
	f    func(x *cenv) (*G.Node, error)
}

// cenv makes the inputs on demand.
type cenv struct {
	g    *G.ExprGraph
	have map[string]*G.Node
	used []string // in order of creation, differentiable ones
	own  bool     // names of twins are replaced by others without a common hash
}

func newCenv() *cenv { return &cenv{g: G.NewGraph(), have: map[string]*G.Node{}} }

// pair of input names with the same hash, found by search
var twins = map[string][2]string{}

func twinNames(dt string, shape ...int) (string, string) {
	key := dt + fmt.Sprint(shape)
	if t, ok := twins[key]; ok {
		return t[0], t[1]
	}
	seen := map[uint32]string{}
	g := G.NewGraph()
	for i := 0; i < 400000; i++ {
		name := fmt.Sprintf("w%d", i)
		n := newInput(g, name, newRT(dt, shape...))
		h := n.Hashcode()
		if o, ok := seen[h]; ok {
			twins[key] = [2]string{o, name}
			return o, name
		}
		seen[h] = name
		if i%1000 == 999 {
			g = G.NewGraph()
		}
	}
	twins[key] = [2]string{"w0", "w1"}
	return "w0", "w1"
}

// in returns the input of the name: its first letter decides the type and shape.
func (x *cenv) in(name string) *G.Node {
	if n, ok := x.have[name]; ok {
		return n
	}
	salt := 0
	for _, c := range name {
		salt = salt*7 + int(c)
	}
	salt %= 101
	var rt *RT
	switch name[0] {
	case 's':
		rt = genRT("f64", 0, salt)
	case 'z':
		rt = genRT("f32", 0, salt)
	case 'v':
		rt = genRT("f64", 0, salt, 3)
	case 'a':
		rt = genRT("f64", 0, salt, 5)
	case 'b':
		rt = genRT("f64", 0, salt, 3, 3)
	case 'c':
		rt = genRT("f64", 0, salt, 1, 1, 5, 5)
	case 'l':
		rt = genRT("f64", 0, salt, 600)
	case 'm':
		rt = genRT("f64", 0, salt, 2, 3)
	case 'h':
		rt = genRT("f32", 0, salt, 2, 3)
	case 'q', 'w':
		rt = genRT("f64", 0, salt, 2, 2)
	case 't':
		rt = genRT("f64", 0, salt, 2, 2, 2)
	case 'p':
		rt = genRT("f64", 0, salt, 1, 4, 4, 4)
	case 'f':
		rt = genRT("f64", 0, salt, 2, 4, 2, 2)
	case 'y':
		rt = genRT("f32", 0, salt, 1, 18, 2, 2)
	case 'i':
		rt = rtOf("int", []int{2}, float64(salt%2), float64((salt/2)%2))
	case 'j':
		rt = rtOf("i64", []int{2}, float64(salt%5), float64(salt%7))
	}
	label := name
	if x.own {
		label = "own " + name
	}
	n := newBoundInput(x.g, label, rt)
	x.have[name] = n
	if rt.DT == "f64" || rt.DT == "f32" {
		x.used = append(x.used, name)
	}
	return n
}

func (e *cexpr) build(x *cenv) (n *G.Node, err error) {
	defer func() {
		if r := recover(); r != nil {
			n, err = nil, fmt.Errorf("panic: %v", r)
		}
	}()
	return e.f(x)
}

// ccost adds a scalar cost over n to the graph.
func ccost(x *cenv, n *G.Node) (c *G.Node, err error) {
	defer func() {
		if r := recover(); r != nil {
			c, err = nil, fmt.Errorf("panic: %v", r)
		}
	}()
	if n.Dtype() != tensor.Float64 {
		return nil, fmt.Errorf("type")
	}
	if n.IsScalar() {
		return n, nil
	}
	return G.Sum(n)
}

// alone is what an expression gives in a graph of its own.
type alone struct {
	val   *RT
	lisp  bool // runs on the lisp machine
	grads map[string]*RT
}

var aloneCache = map[string]*alone{}

func (e *cexpr) alone() *alone {
	if a, ok := aloneCache[e.name]; ok {
		return a
	}
	a := &alone{}
	aloneCache[e.name] = a
	x := newCenv()
	x.own = true
	n, err := e.build(x)
	if err != nil {
		return a
	}
	if len(x.have) == 0 {
		x.in("s")
	}
	vals := cvals([]*G.Node{n}, x.g, 0)
	if vals == nil {
		return a
	}
	a.val = vals[0]
	x = newCenv()
	x.own = true
	n, _ = e.build(x)
	if len(x.have) == 0 {
		x.in("s")
	}
	a.lisp = cvals([]*G.Node{n}, x.g, 1) != nil
	x = newCenv()
	x.own = true
	n, _ = e.build(x)
	c, err := ccost(x, n)
	if err != nil || len(x.used) == 0 || strings.HasPrefix(e.name, "Tensordot[[0 1]") {
		// (a full contraction gives a value of shape (1), which cannot be added to another cost)
		return a
	}
	a.grads, _ = cgrads(x, c)
	return a
}

// cvals runs the graph and returns the nodes' values; nil if it cannot be run.
func cvals(ns []*G.Node, g *G.ExprGraph, kind int) (r []*RT) {
	var vm G.VM
	defer func() {
		if e := recover(); e != nil {
			r = nil
		}
		if vm != nil {
			closeVM(vm)
		}
	}()
	got := make([]G.Value, len(ns))
	if kind == 0 {
		for i, n := range ns {
			G.Read(n, &got[i])
		}
		vm = G.NewTapeMachine(g)
	} else {
		vm = G.NewLispMachine(g, G.ExecuteFwdOnly())
	}
	if err := vm.RunAll(); err != nil {
		return nil
	}
	for i, n := range ns {
		v := got[i]
		if kind != 0 {
			v = n.Value()
		}
		rt, err := readValue(v)
		if err != nil {
			return nil
		}
		r = append(r, rt)
	}
	return r
}

func cgrads(x *cenv, cost *G.Node) (r map[string]*RT, err error) {
	defer func() {
		if e := recover(); e != nil {
			r, err = nil, fmt.Errorf("panic: %v", e)
		}
	}()
	var wrt G.Nodes
	for _, n := range x.used {
		wrt = append(wrt, x.have[n])
	}
	gs, err := G.Grad(cost, wrt...)
	if err != nil {
		return nil, err
	}
	got := make([]G.Value, len(gs))
	for i, n := range gs {
		G.Read(n, &got[i])
	}
	vm := G.NewTapeMachine(x.g)
	defer closeVM(vm)
	if err := vm.RunAll(); err != nil {
		return nil, err
	}
	r = map[string]*RT{}
	for i, n := range x.used {
		if r[n], err = readValue(got[i]); err != nil {
			return nil, err
		}
	}
	return r, nil
}

// mergeCase builds the expressions in the given order in one graph. kind 0
// tape, 1 lisp forward.
func mergeCase(t *T, es []*cexpr, order string, kind int) {
	x := newCenv()
	var ns []*G.Node
	var want []*RT
	for _, o := range order {
		e := es[o-'1']
		a := e.alone()
		n, err := e.build(x)
		if err != nil {
			t.Failf("%s cannot be built beside the other: %v", e.name, err)
		}
		ns = append(ns, n)
		want = append(want, a.val)
	}
	if len(x.have) == 0 {
		x.in("s")
	}
	t.Trans(len(ns))
	t.Trace(len(ns))
	got := cvals(ns, x.g, kind)
	if got == nil {
		t.Failf("the graph of both cannot be run")
	}
	for i := range ns {
		if d := diffRT(got[i], want[i], 1e-9); d != "" {
			t.Failf("handle %d (%s): %s", i, es[order[i]-'1'].name, d)
		}
	}
}

func mergeGrad(t *T, a, b *cexpr) {
	x := newCenv()
	na, err := a.build(x)
	if err != nil {
		t.Failf("%v", err)
	}
	nb, err := b.build(x)
	if err != nil {
		t.Failf("%v", err)
	}
	ca, err := ccost(x, na)
	if err != nil {
		t.Failf("%v", err)
	}
	cb, err := ccost(x, nb)
	if err != nil {
		t.Failf("%v", err)
	}
	cost, err := G.Add(ca, cb)
	if err != nil {
		t.Failf("%v", err)
	}
	got, err := cgrads(x, cost)
	if err != nil {
		t.Failf("gradient of the cost over both: %v", err)
	}
	t.Trans(3)
	for _, n := range x.used {
		var want *RT
		for _, g := range []map[string]*RT{a.alone().grads, b.alone().grads} {
			if g[n] == nil {
				continue
			}
			if want == nil {
				want = g[n]
				continue
			}
			s := newRT(want.DT, want.Shape...)
			for i := range s.D {
				s.D[i].V = want.D[i].V + g[n].D[i].V
			}
			want = s
		}
		if d := diffRT(got[n], want, 1e-9*(1+want.maxAbs())); d != "" {
			t.Failf("gradient of %s: %s", n, d)
		}
		t.Trace(1)
	}
}

func mergeCatalogue(thorough bool) (es []*cexpr) {
	add := func(name string, f func(x *cenv) (*G.Node, error)) { es = append(es, &cexpr{name, f}) }
	un := map[string]func(*G.Node) (*G.Node, error){"Abs": G.Abs, "Sign": G.Sign, "Ceil": G.Ceil, "Floor": G.Floor, "Sin": G.Sin, "Cos": G.Cos, "Exp": G.Exp, "Log": G.Log, "Log2": G.Log2, "Neg": G.Neg, "Square": G.Square, "Sqrt": G.Sqrt, "Inverse": G.Inverse, "InverseSqrt": G.InverseSqrt, "Cube": G.Cube, "Tanh": G.Tanh, "Sigmoid": G.Sigmoid, "Log1p": G.Log1p, "Expm1": G.Expm1, "Softplus": G.Softplus, "Mish": G.Mish, "Rectify": G.Rectify}
	bin := map[string]func(a, b *G.Node) (*G.Node, error){"Add": G.Add, "Sub": G.Sub, "Prod": G.HadamardProd, "Div": G.HadamardDiv, "Pow": G.Pow, "MinB": G.MinBetween, "MaxB": G.MaxBetween, "Mul": G.Mul}
	cmp := map[string]func(a, b *G.Node, s bool) (*G.Node, error){"Lt": G.Lt, "Gt": G.Gt, "Lte": G.Lte, "Gte": G.Gte, "Eq": G.Eq, "Ne": G.Ne}
	bc := map[string]func(a, b *G.Node, l, r []byte) (*G.Node, error){"BAdd": G.BroadcastAdd, "BSub": G.BroadcastSub, "BProd": G.BroadcastHadamardProd, "BDiv": G.BroadcastHadamardDiv}
	t1, t2 := "w0", "w1"
	t1, t2 = twinNames("f64", 2, 2)
	for _, n := range sortedKeys(un) {
		f := un[n]
		ins := []string{"q"}
		if n == "Neg" || n == "Exp" || thorough {
			ins = []string{"q", "q1", "q11", "m", "s", "s1", "h", "z", "t", t1, t2}
		}
		for _, in := range ins {
			in := in
			add(n+"("+in+")", func(x *cenv) (*G.Node, error) { return f(x.in(in)) })
		}
	}
	for _, n := range sortedKeys(bin) {
		f := bin[n]
		for _, in := range [][2]string{{"q", "q1"}, {"q1", "q"}, {"q", "q"}, {"q", "s"}, {"s", "q"}, {"s", "s1"}, {t1, "q"}, {t2, "q"}, {"q", t1}, {"q", t2}, {t1, t2}, {t2, t1}} {
			in := in
			if n == "Mul" && (in[0] == "s" || in[1] == "s") {
				continue
			}
			add(n+"("+in[0]+","+in[1]+")", func(x *cenv) (*G.Node, error) { return f(x.in(in[0]), x.in(in[1])) })
		}
	}
	for _, n := range sortedKeys(cmp) {
		f := cmp[n]
		for _, same := range []bool{true, false} {
			for _, in := range [][2]string{{"q", "q1"}, {"q1", "q"}, {t1, "q"}, {t2, "q"}} {
				in, same := in, same
				add(fmt.Sprintf("%s(%s,%s,%v)", n, in[0], in[1], same), func(x *cenv) (*G.Node, error) { return f(x.in(in[0]), x.in(in[1]), same) })
			}
		}
	}
	for _, n := range sortedKeys(bc) {
		f := bc[n]
		for _, pat := range [][2][]byte{{nil, {0}}, {nil, {1}}} {
			pat := pat
			add(fmt.Sprintf("%s(w,q,%v)", n, pat), func(x *cenv) (*G.Node, error) {
				v, err := G.Slice(x.in("q"), nil, G.S(0))
				if err != nil {
					return nil, err
				}
				return f(x.in("q1"), v, pat[0], pat[1])
			})
		}
		add(n+"(lr)", func(x *cenv) (*G.Node, error) { return f(x.in("v"), x.in("m"), []byte{0}, nil) })
	}
	for _, al := range [][]int{nil, {0}, {1}, {2}, {0, 1}, {1, 2}, {0, 2}, {0, 1, 2}} {
		al := al
		add(fmt.Sprintf("Sum%v", al), func(x *cenv) (*G.Node, error) { return G.Sum(x.in("t"), al...) })
		add(fmt.Sprintf("Mean%v", al), func(x *cenv) (*G.Node, error) { return G.Mean(x.in("t"), al...) })
		add(fmt.Sprintf("Max%v", al), func(x *cenv) (*G.Node, error) { return G.Max(x.in("t"), al...) })
	}
	for ax := 0; ax < 2; ax++ {
		ax := ax
		for p := 1; p < 4; p++ {
			p := p
			add(fmt.Sprintf("Norm(%d,%d)", ax, p), func(x *cenv) (*G.Node, error) { return G.Norm(x.in("q"), ax, p) })
		}
		add(fmt.Sprintf("LogSumExp(%d)", ax), func(x *cenv) (*G.Node, error) { return G.LogSumExp(x.in("q"), ax) })
		add(fmt.Sprintf("SoftMax(%d)", ax), func(x *cenv) (*G.Node, error) { return G.SoftMax(x.in("q"), ax) })
		add(fmt.Sprintf("LogSoftMax(%d)", ax), func(x *cenv) (*G.Node, error) { return G.LogSoftMax(x.in("q"), ax) })
		add(fmt.Sprintf("Sparsemax(%d)", ax), func(x *cenv) (*G.Node, error) { return G.Sparsemax(x.in("q"), ax) })
		add(fmt.Sprintf("SizeOf(%d)", ax), func(x *cenv) (*G.Node, error) { return G.SizeOf(ax, x.in("m")) })
		for _, ix := range []string{"i", "i1"} {
			ix := ix
			add(fmt.Sprintf("ByIndices(%s,%d)", ix, ax), func(x *cenv) (*G.Node, error) { return G.ByIndices(x.in("q"), x.in(ix), ax) })
		}
	}
	for _, sc := range []string{"q", "q1", t1, t2} {
		sc := sc
		add("Softmax0("+sc+")", func(x *cenv) (*G.Node, error) { return G.SoftMax(x.in(sc), 0) })
		add("Transpose("+sc+")", func(x *cenv) (*G.Node, error) { return G.Transpose(x.in(sc), 1, 0) })
		add("Sum("+sc+")", func(x *cenv) (*G.Node, error) { return G.Sum(x.in(sc)) })
		add("Slice("+sc+")", func(x *cenv) (*G.Node, error) { return G.Slice(x.in(sc), G.S(1)) })
		add("Reshape("+sc+")", func(x *cenv) (*G.Node, error) { return G.Reshape(x.in(sc), tensor.Shape{4}) })
		add("Concat(q,"+sc+")", func(x *cenv) (*G.Node, error) { return G.Concat(0, x.in("q"), x.in(sc)) })
		add("MulNeg("+sc+")", func(x *cenv) (*G.Node, error) {
			n, err := G.Neg(x.in(sc))
			if err != nil {
				return nil, err
			}
			return G.Mul(n, x.in("q"))
		})
	}
	// slices: every range of the matrix, and ranges beyond 256 of the long vector
	for a := 0; a < 2; a++ {
		for b := a + 1; b <= 2; b++ {
			a, b := a, b
			add(fmt.Sprintf("Slice(q,%d:%d)", a, b), func(x *cenv) (*G.Node, error) { return G.Slice(x.in("q"), G.S(a, b)) })
			add(fmt.Sprintf("Slice(q,:,%d:%d)", a, b), func(x *cenv) (*G.Node, error) { return G.Slice(x.in("q"), nil, G.S(a, b)) })
		}
		a := a
		add(fmt.Sprintf("Slice(q,%d)", a), func(x *cenv) (*G.Node, error) { return G.Slice(x.in("q"), G.S(a)) })
		add(fmt.Sprintf("Slice(q,:,%d)", a), func(x *cenv) (*G.Node, error) { return G.Slice(x.in("q"), nil, G.S(a)) })
	}
	for _, r := range [][3]int{{1, 3, 1}, {2, 4, 1}, {257, 259, 1}, {513, 515, 1}, {0, 256, 1}, {256, 512, 1}, {1, 5, 2}, {1, 4, 2}, {0, 6, 3}, {257, 261, 2}} {
		r := r
		add(fmt.Sprintf("Slice(l,%v)", r), func(x *cenv) (*G.Node, error) { return G.Slice(x.in("l"), G.S(r[0], r[1], r[2])) })
	}
	for _, i := range []int{1, 257, 513, 0, 256} {
		i := i
		add(fmt.Sprintf("Slice(l,%d)", i), func(x *cenv) (*G.Node, error) { return G.Slice(x.in("l"), G.S(i)) })
		add(fmt.Sprintf("At(l,%d)", i), func(x *cenv) (*G.Node, error) { return G.At(x.in("l"), i) })
	}
	for k := 0; k < 4; k++ {
		k := k
		add(fmt.Sprintf("At(q,%d,%d)", k/2, k%2), func(x *cenv) (*G.Node, error) { return G.At(x.in("q"), k/2, k%2) })
	}
	for _, p := range [][]int{{0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
		p := p
		add(fmt.Sprintf("Transpose(t,%v)", p), func(x *cenv) (*G.Node, error) { return G.Transpose(x.in("t"), p...) })
	}
	for _, s := range [][]int{{8}, {4, 2}, {2, 4}, {1, 8}, {8, 1}, {2, 1, 4}} {
		s := s
		add(fmt.Sprintf("Reshape(t,%v)", s), func(x *cenv) (*G.Node, error) { return G.Reshape(x.in("t"), append(tensor.Shape{}, s...)) })
	}
	for ax := 0; ax < 3; ax++ {
		ax := ax
		add(fmt.Sprintf("Concat(%d)", ax), func(x *cenv) (*G.Node, error) { return G.Concat(ax, x.in("t"), x.in("t1")) })
		add(fmt.Sprintf("Concat(%d)swapped", ax), func(x *cenv) (*G.Node, error) { return G.Concat(ax, x.in("t1"), x.in("t")) })
	}
	for _, d := range [][2][]int{{{0}, {0}}, {{0}, {1}}, {{1}, {0}}, {{1}, {1}}, {{0, 1}, {0, 1}}, {{0, 1}, {1, 0}}} {
		d := d
		add(fmt.Sprintf("Tensordot%v", d), func(x *cenv) (*G.Node, error) { return G.Tensordot(d[0], d[1], x.in("q"), x.in("q1")) })
	}
	for k := 0; k < 4; k++ {
		k := k
		add(fmt.Sprintf("BatchedMatMul(%d)", k), func(x *cenv) (*G.Node, error) { return G.BatchedMatMul(x.in("t"), x.in("t1"), k&1 != 0, k&2 != 0) })
	}
	add("OuterProd(v,v1)", func(x *cenv) (*G.Node, error) { return G.OuterProd(x.in("v"), x.in("v1")) })
	add("OuterProd(v1,v)", func(x *cenv) (*G.Node, error) { return G.OuterProd(x.in("v1"), x.in("v")) })
	for _, al := range []float64{0.1, 0.2, 1e-7, 2e-7} {
		al := al
		add(fmt.Sprintf("LeakyRelu(%g)", al), func(x *cenv) (*G.Node, error) {
			n, err := G.Neg(x.in("q"))
			if err != nil {
				return nil, err
			}
			return G.LeakyRelu(n, al)
		})
	}
	// constants
	long := func(last float64) *tensor.Dense {
		b := make([]float64, 600)
		for i := range b {
			b[i] = float64(i) / 8
		}
		b[300] += last
		return tensor.New(tensor.WithShape(600), tensor.WithBacking(b))
	}
	mat := func(v ...float64) *tensor.Dense { return tensor.New(tensor.WithShape(2, 2), tensor.WithBacking(v)) }
	consts := map[string]struct {
		in string
		v  func() interface{}
	}{
		"1":      {"q", func() interface{} { return 1.0 }},
		"2":      {"q", func() interface{} { return 2.0 }},
		"f32 1":  {"h", func() interface{} { return float32(1) }},
		"f32 2":  {"h", func() interface{} { return float32(2) }},
		"int 1":  {"", func() interface{} { return int(1) }},
		"i64 1":  {"", func() interface{} { return int64(1) }},
		"1s":     {"s", func() interface{} { return 1.0 }},
		"f32 1s": {"z", func() interface{} { return float32(1) }},
		"near 1": {"q", func() interface{} { return math.Nextafter(1, 2) }},
		"l0":     {"l", func() interface{} { return long(0) }},
		"l1":     {"l", func() interface{} { return long(1) }},
		"l2":     {"l", func() interface{} { return long(2) }},
		"q0":     {"q", func() interface{} { return mat(1, 2, 3, 4) }},
		"q1":     {"q", func() interface{} { return mat(1, 2, 3, 5) }},
		"q2":     {"q", func() interface{} { return mat(1, 2, 3, math.Nextafter(4, 5)) }},
		"q3":     {"q", func() interface{} { return mat(4, 3, 2, 1) }},
	}
	for _, n := range sortedKeys(consts) {
		cn := consts[n]
		for _, name := range []string{"", "k", "k1"} {
			name := name
			mk := func() *G.Node {
				if name == "" {
					return G.NewConstant(cn.v())
				}
				return G.NewConstant(cn.v(), G.WithName(name))
			}
			if cn.in == "" {
				add("Const "+n+" "+name, func(x *cenv) (*G.Node, error) { return x.g.AddNode(mk()), nil })
				continue
			}
			add("Prod("+cn.in+",Const "+n+" "+name+")", func(x *cenv) (*G.Node, error) { return G.HadamardProd(x.in(cn.in), mk()) })
			add("Const "+n+" "+name, func(x *cenv) (*G.Node, error) { return x.g.AddNode(mk()), nil })
			if strings.HasPrefix(n, "q") || n == "1" || n == "f32 1" {
				add("Sub(g.Constant "+n+" "+name+")", func(x *cenv) (*G.Node, error) {
					v := mk().Value()
					return G.Sub(x.in(cn.in), x.g.Constant(v))
				})
			}
		}
	}
	for _, to := range []tensor.Dtype{tensor.Float32, tensor.Int, tensor.Int64, tensor.Int32} {
		to := to
		add(fmt.Sprintf("ConvType(%v)", to), func(x *cenv) (*G.Node, error) { return G.ConvType(x.in("q"), tensor.Float64, to) })
	}
	// convolution, pooling, normalisation
	sh := func(v ...int) tensor.Shape { return tensor.Shape(append([]int{}, v...)) }
	for _, k := range [][8]int{{2, 2, 0, 0, 1, 1, 1, 1}, {2, 2, 1, 1, 1, 1, 1, 1}, {2, 2, 0, 0, 2, 2, 1, 1}, {2, 2, 0, 0, 1, 1, 2, 2}, {2, 2, 1, 1, 2, 2, 1, 1}, {2, 2, 1, 1, 2, 2, 2, 2}} {
		k := k
		add(fmt.Sprintf("Conv2d%v", k), func(x *cenv) (*G.Node, error) {
			return G.Conv2d(x.in("p"), x.in("f"), sh(k[0], k[1]), []int{k[2], k[3]}, []int{k[4], k[5]}, []int{k[6], k[7]})
		})
		add(fmt.Sprintf("Im2Col%v", k), func(x *cenv) (*G.Node, error) {
			return G.Im2Col(x.in("p"), sh(k[0], k[1]), sh(k[2], k[3]), sh(k[4], k[5]), sh(k[6], k[7]))
		})
	}
	for _, k := range [][6]int{{2, 2, 0, 0, 1, 1}, {2, 2, 0, 0, 2, 2}, {2, 2, 1, 1, 2, 2}, {1, 2, 0, 0, 1, 1}, {2, 1, 0, 0, 1, 1}, {3, 3, 1, 1, 1, 1}, {4, 4, 0, 0, 1, 1}, {2, 2, 1, 0, 1, 1}, {2, 2, 0, 1, 1, 1}, {2, 2, 0, 0, 1, 2}, {2, 2, 0, 0, 2, 1}} {
		k := k
		add(fmt.Sprintf("MaxPool2D%v", k), func(x *cenv) (*G.Node, error) {
			return G.MaxPool2D(x.in("p"), sh(k[0], k[1]), []int{k[2], k[3]}, []int{k[4], k[5]})
		})
		add(fmt.Sprintf("AveragePool2D%v", k), func(x *cenv) (*G.Node, error) {
			return G.AveragePool2D(x.in("p"), sh(k[0], k[1]), []int{k[2], k[3]}, []int{k[4], k[5]})
		})
	}
	for _, s := range []int{0, 1, 2} {
		s := s
		add(fmt.Sprintf("Upsample2D(%d)", s), func(x *cenv) (*G.Node, error) { return G.Upsample2D(x.in("p"), s) })
	}
	add("GlobalAveragePool2D", func(x *cenv) (*G.Node, error) { return G.GlobalAveragePool2D(x.in("p")) })
	for _, mo := range []float64{0.5, 0.9} {
		for _, ep := range []float64{1e-3, 0.2, 1e-8, 2e-8} {
			mo, ep := mo, ep
			add(fmt.Sprintf("BatchNorm(%g,%g)", mo, ep), func(x *cenv) (*G.Node, error) {
				n, _, _, _, err := G.BatchNorm(x.in("p"), x.in("pscale"), x.in("pbias"), mo, ep)
				return n, err
			})
		}
	}
	for _, gr := range []int{1, 2, 4} {
		for _, ep := range []float64{1e-3, 0.2, 0.5} {
			gr, ep := gr, ep
			add(fmt.Sprintf("GroupNorm(%d,%g)", gr, ep), func(x *cenv) (*G.Node, error) {
				return G.GroupNorm(x.in("p"), x.in("pscale"), x.in("pbias"), gr, 4, ep)
			})
		}
	}
	for _, net := range []int{8, 16} {
		for _, an := range []float32{10, 20} {
			net, an := net, an
			add(fmt.Sprintf("YOLOv3(%d,%v)", net, an), func(x *cenv) (*G.Node, error) {
				return G.YOLOv3(x.in("y"), []float32{an, 13, 16, 30, 33, 23}, []int{0, 1, 2}, net, 1, 0.7)
			})
		}
	}
	return es
}

// mergeFamilies lists operations of one kind over one input, with every
// combination of their parameters.
func mergeFamilies(thorough bool) (fams [][]*cexpr) {
	var es []*cexpr
	add := func(name string, f func(x *cenv) (*G.Node, error)) { es = append(es, &cexpr{name, f}) }
	end := func() { fams, es = append(fams, es), nil }
	sh := func(v ...int) tensor.Shape { return tensor.Shape(append([]int{}, v...)) }

	// ranges of a vector of five, with steps
	for a := 0; a < 5; a++ {
		for b := a + 1; b <= 5; b++ {
			for s := 1; s < 4; s++ {
				a, b, s := a, b, s
				add(fmt.Sprintf("Slice(a,%d:%d:%d)", a, b, s), func(x *cenv) (*G.Node, error) { return G.Slice(x.in("a"), G.S(a, b, s)) })
			}
		}
		a := a
		add(fmt.Sprintf("Slice(a,%d)", a), func(x *cenv) (*G.Node, error) { return G.Slice(x.in("a"), G.S(a)) })
	}
	end()
	// ranges of both axes of a matrix
	var rs []tensor.Slice
	rn := []string{":"}
	rs = append(rs, nil)
	for a := 0; a < 3; a++ {
		for b := a + 1; b <= 3; b++ {
			rs, rn = append(rs, G.S(a, b)), append(rn, fmt.Sprintf("%d:%d", a, b))
		}
		rs, rn = append(rs, G.S(a)), append(rn, fmt.Sprint(a))
	}
	for i := range rs {
		for j := range rs {
			if i+j == 0 {
				continue
			}
			i, j := i, j
			add(fmt.Sprintf("Slice(b,%s,%s)", rn[i], rn[j]), func(x *cenv) (*G.Node, error) { return G.Slice(x.in("b"), rs[i], rs[j]) })
		}
	}
	end()
	// convolution
	two := func(max int, f func(h, w int)) {
		for h := 0; h < max; h++ {
			for w := 0; w < max; w++ {
				f(h, w)
			}
		}
	}
	for _, k := range [][2]int{{2, 2}, {1, 2}, {2, 1}} {
		two(2, func(p0, p1 int) {
			two(2, func(s0, s1 int) {
				two(2, func(d0, d1 int) {
					if !thorough && k[0] != k[1] {
						return
					}
					p, s, d, k := []int{p0, p1}, []int{s0 + 1, s1 + 1}, []int{d0 + 1, d1 + 1}, k
					add(fmt.Sprintf("Im2Col(c,%v,%v,%v,%v)", k, p, s, d), func(x *cenv) (*G.Node, error) {
						return G.Im2Col(x.in("c"), sh(k[0], k[1]), sh(p...), sh(s...), sh(d...))
					})
				})
			})
		})
	}
	end()
	for _, avg := range []bool{false, true} {
		two(3, func(k0, k1 int) {
			two(2, func(p0, p1 int) {
				two(2, func(s0, s1 int) {
					k, p, s := []int{k0 + 1, k1 + 1}, []int{p0, p1}, []int{s0 + 1, s1 + 1}
					if avg {
						add(fmt.Sprintf("AveragePool2D(c,%v,%v,%v)", k, p, s), func(x *cenv) (*G.Node, error) {
							return G.AveragePool2D(x.in("c"), sh(k...), p, s)
						})
						return
					}
					if k[0] <= p[0] || k[1] <= p[1] {
						return // a window of nothing but padding has no maximum
					}
					add(fmt.Sprintf("MaxPool2D(c,%v,%v,%v)", k, p, s), func(x *cenv) (*G.Node, error) {
						return G.MaxPool2D(x.in("c"), sh(k...), p, s)
					})
				})
			})
		})
		end()
	}
	return fams
}

func runC14(c *Ctx) {
	runnable := func(all []*cexpr) (es []*cexpr) {
		seen := map[string]bool{}
		for _, e := range all {
			if seen[e.name] {
				continue
			}
			seen[e.name] = true
			if e.alone().val == nil {
				c.Case(func() string { return "alone|" + e.name }, func(t *T) { t.Count("expressions that cannot be run alone", 1) })
				continue
			}
			es = append(es, e)
		}
		return es
	}
	for _, fam := range mergeFamilies(c.Thorough) {
		es := runnable(fam)
		for i, a := range es {
			for _, b := range es[i+1:] {
				a, b := a, b
				if !c.Thorough && !sameShape(a.alone().val.Shape, b.alone().val.Shape) {
					continue // in the quick tier, pairs whose results have one shape
				}
				key := a.name + "|" + b.name
				c.Case(func() string { return key + "|12|tape" }, func(t *T) { t.State(key); mergeCase(t, []*cexpr{a, b}, "12", 0) })
				if a.alone().grads != nil && b.alone().grads != nil {
					c.Case(func() string { return key + "|grad" }, func(t *T) { t.State(key); mergeGrad(t, a, b) })
				}
			}
		}
	}
	es := runnable(mergeCatalogue(c.Thorough))
	for i, a := range es {
		for j, b := range es {
			if j < i && !c.Thorough {
				continue
			}
			a, b := a, b
			key := a.name + "|" + b.name
			run := func(order string, kind int) {
				if kind == 1 && !(a.alone().lisp && b.alone().lisp) {
					return
				}
				c.Case(func() string { return fmt.Sprintf("%s|%s|%s", key, order, []string{"tape", "lispfwd"}[kind]) },
					func(t *T) { t.State(key); mergeCase(t, []*cexpr{a, b}, order, kind) })
			}
			run("1221", 0)
			run("21", 1)
			if c.Thorough {
				run("21", 0)
				run("1221", 1)
			}
			if a.alone().grads != nil && b.alone().grads != nil {
				c.Case(func() string { return key + "|grad" }, func(t *T) { t.State(key); mergeGrad(t, a, b) })
			}
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
