package main

// Operation catalogue: how the library builds an operation and what it means.

import (
	"fmt"
	"math"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
)

// Op is one operation with all its parameters fixed.
type Op struct {
	Name  string
	N     int
	Ref   func(in []*RT) (*RT, error)
	Build func(in []*G.Node) (*G.Node, error)
	Comm  bool // commutative: only ordered operand pairs with a<=b are needed
	NoD   bool // not differentiable (comparisons, sign, ...)
	NoAD  bool // no automatic differentiation on the interpreting machine
	NoSym bool // no symbolic differentiation
}

func f64bits(f float64) uint64 {
	if math.IsNaN(f) {
		return 0x7ff8000000000001
	}
	return math.Float64bits(f)
}

const kinkEps = 1e-4

var nan = math.NaN()

// ---- element-wise unary ----

type unaryDef struct {
	name string
	fn   func(x float64) float64
	df   func(x float64) float64 // NaN where undefined
	b    func(*G.Node) (*G.Node, error)
	noD  bool
}

func sigm(x float64) float64 { return 1 / (1 + math.Exp(-x)) }
func softplus(x float64) float64 {
	if x > 30 {
		return x
	}
	return math.Log1p(math.Exp(x))
}
func kinkAt0(f func(float64) float64) func(float64) float64 {
	return func(x float64) float64 {
		if math.Abs(x) < kinkEps {
			return nan
		}
		return f(x)
	}
}
func kinkAtInt(x float64) float64 {
	if math.Abs(x-math.Round(x)) < kinkEps {
		return nan
	}
	return 0
}
func mish(x float64) float64 { return x * math.Tanh(softplus(x)) }

var unaryDefs = []unaryDef{
	{"Neg", func(x float64) float64 { return -x }, func(x float64) float64 { return -1 }, G.Neg, false},
	{"Square", func(x float64) float64 { return x * x }, func(x float64) float64 { return 2 * x }, G.Square, false},
	{"Exp", math.Exp, math.Exp, G.Exp, false},
	{"Tanh", math.Tanh, func(x float64) float64 { t := math.Tanh(x); return 1 - t*t }, G.Tanh, false},
	{"Sigmoid", sigm, func(x float64) float64 { s := sigm(x); return s * (1 - s) }, G.Sigmoid, false},
	{"Log", math.Log, func(x float64) float64 { return 1 / x }, G.Log, false},
	{"Sqrt", math.Sqrt, func(x float64) float64 { return 0.5 / math.Sqrt(x) }, G.Sqrt, false},
	{"Abs", math.Abs, kinkAt0(func(x float64) float64 { return math.Copysign(1, x) }), G.Abs, false},
	{"Sign", func(x float64) float64 {
		switch {
		case x < 0:
			return -1
		case x > 0:
			return 1
		}
		return 0
	}, kinkAt0(func(float64) float64 { return 0 }), G.Sign, true},
	{"Ceil", math.Ceil, kinkAtInt, G.Ceil, true},
	{"Floor", math.Floor, kinkAtInt, G.Floor, true},
	{"Sin", math.Sin, math.Cos, G.Sin, false},
	{"Cos", math.Cos, func(x float64) float64 { return -math.Sin(x) }, G.Cos, false},
	{"Log2", math.Log2, func(x float64) float64 { return 1 / (x * math.Ln2) }, G.Log2, false},
	{"Inverse", func(x float64) float64 { return 1 / x }, func(x float64) float64 { return -1 / (x * x) }, G.Inverse, false},
	{"InverseSqrt", func(x float64) float64 { return 1 / math.Sqrt(x) }, func(x float64) float64 { return -0.5 / (x * math.Sqrt(x)) }, G.InverseSqrt, false},
	{"Cube", func(x float64) float64 { return x * x * x }, func(x float64) float64 { return 3 * x * x }, G.Cube, false},
	{"Log1p", math.Log1p, func(x float64) float64 { return 1 / (1 + x) }, G.Log1p, false},
	{"Expm1", math.Expm1, math.Exp, G.Expm1, false},
	{"Softplus", softplus, sigm, G.Softplus, false},
	{"Mish", mish, func(x float64) float64 {
		sp := softplus(x)
		t := math.Tanh(sp)
		return t + x*(1-t*t)*sigm(x)
	}, G.Mish, false},
	{"Rectify", func(x float64) float64 { return math.Max(x, 0) }, kinkAt0(func(x float64) float64 {
		if x > 0 {
			return 1
		}
		return 0
	}), G.Rectify, false},
	{"LeakyRelu", func(x float64) float64 {
		if x >= 0 {
			return x
		}
		return 0.25 * x
	}, kinkAt0(func(x float64) float64 {
		if x > 0 {
			return 1
		}
		return 0.25
	}), func(n *G.Node) (*G.Node, error) { return G.LeakyRelu(n, 0.25) }, false},
}

func isFloatDT(dt string) bool { return dt == "f64" || dt == "f32" }

func mkUnary(d unaryDef) *Op {
	return &Op{Name: d.name, N: 1, NoD: d.noD,
		Ref: func(in []*RT) (*RT, error) {
			if !isFloatDT(in[0].DT) {
				return nil, errNA
			}
			bad := false
			r := map1(in[0], func(x Dual) Dual {
				df := d.df(x.V)
				if !(math.Abs(df) < 1e3) { // kink, pole or badly conditioned
					bad = true
				}
				return Dual{d.fn(x.V), df * x.D}
			})
			if bad {
				return nil, errNA
			}
			return r, nil
		},
		Build: func(in []*G.Node) (*G.Node, error) { return d.b(in[0]) }}
}

var unaryByName = map[string]*Op{}

func init() {
	for _, d := range unaryDefs {
		unaryByName[d.name] = mkUnary(d)
	}
	for _, d := range binDefs {
		binByName[d.name] = mkBin(d)
	}
	for _, d := range cmpDefs {
		binByName[d.name] = mkCmp(d, true)
		binByName[d.name+"b"] = mkCmp(d, false)
	}
}

func uops(names ...string) (l []*Op) {
	for _, n := range names {
		o := unaryByName[n]
		if o == nil {
			panic("no unary " + n)
		}
		l = append(l, o)
	}
	return
}
func bops(names ...string) (l []*Op) {
	for _, n := range names {
		o := binByName[n]
		if o == nil {
			panic("no binary " + n)
		}
		l = append(l, o)
	}
	return
}

// ---- element-wise binary ----

type binDef struct {
	name string
	f    func(x, y Dual) Dual
	b    func(a, b *G.Node) (*G.Node, error)
	bc   func(a, b *G.Node, l, r []byte) (*G.Node, error)
}

func dPow(x, y Dual) Dual {
	r := Dual{V: math.Pow(x.V, y.V)}
	if x.D != 0 {
		r.D += y.V * math.Pow(x.V, y.V-1) * x.D
	}
	if y.D != 0 {
		r.D += r.V * math.Log(x.V) * y.D
	}
	return r
}
func dMaxB(x, y Dual) Dual {
	if math.Abs(x.V-y.V) < kinkEps && x.D != y.D || x.D != x.D || y.D != y.D {
		return Dual{math.Max(x.V, y.V), nan}
	}
	if x.V > y.V {
		return x
	}
	return y
}
func dMinB(x, y Dual) Dual {
	if math.Abs(x.V-y.V) < kinkEps && x.D != y.D || x.D != x.D || y.D != y.D {
		return Dual{math.Min(x.V, y.V), nan}
	}
	if x.V < y.V {
		return x
	}
	return y
}

var binDefs = []binDef{
	{"Add", dAdd, G.Add, G.BroadcastAdd},
	{"Sub", dSub, G.Sub, G.BroadcastSub},
	{"Prod", dMul, G.HadamardProd, G.BroadcastHadamardProd},
	{"Div", dDiv, G.HadamardDiv, G.BroadcastHadamardDiv},
	{"Pow", dPow, G.Pow, G.BroadcastPow},
	{"MaxB", dMaxB, G.MaxBetween, nil},
	{"MinB", dMinB, G.MinBetween, nil},
}

type cmpDef struct {
	name string
	f    func(x, y float64) bool
	b    func(a, b *G.Node, retSame bool) (*G.Node, error)
	bc   func(a, b *G.Node, retSame bool, l, r []byte) (*G.Node, error)
}

var cmpDefs = []cmpDef{
	{"Gt", func(x, y float64) bool { return x > y }, G.Gt, G.BroadcastGt},
	{"Lt", func(x, y float64) bool { return x < y }, G.Lt, G.BroadcastLt},
	{"Gte", func(x, y float64) bool { return x >= y }, G.Gte, G.BroadcastGte},
	{"Lte", func(x, y float64) bool { return x <= y }, G.Lte, G.BroadcastLte},
	{"Eq", func(x, y float64) bool { return x == y }, G.Eq, G.BroadcastEq},
	{"Ne", func(x, y float64) bool { return x != y }, G.Ne, G.BroadcastNe},
}

var binByName = map[string]*Op{}

func mkBin(d binDef) *Op {
	return &Op{Name: d.name, N: 2,
		Ref: func(in []*RT) (*RT, error) {
			if !isFloatDT(in[0].DT) {
				return nil, errNA
			}
			switch d.name {
			case "Div":
				for _, y := range in[1].D {
					if math.Abs(y.V) < 1e-3 {
						return nil, errNA
					}
				}
			case "Pow":
				for _, x := range in[0].D {
					if x.V < 1e-3 {
						return nil, errNA
					}
				}
			case "MaxB", "MinB": // defined on tensors of one shape only
				if in[0].isScalar() || in[1].isScalar() || nearTie(in[0], in[1]) {
					return nil, errNA
				}
			}
			return zip2(in[0], in[1], d.f)
		},
		Build: func(in []*G.Node) (*G.Node, error) { return d.b(in[0], in[1]) }}
}

// nearTie reports operands that are so close that rounding decides a
// comparison; an operand compared with itself is exact.
func nearTie(a, b *RT) bool {
	if a == b {
		return false
	}
	tie := false
	zip2(a, b, func(x, y Dual) Dual {
		if math.Abs(x.V-y.V) < 1e-3 {
			tie = true
		}
		return x
	})
	return tie
}

func b2f(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

func cmpRef(d cmpDef, same bool) func(a, b *RT) (*RT, error) {
	return func(a, b *RT) (*RT, error) {
		r, err := zip2(a, b, func(x, y Dual) Dual { return cst(b2f(d.f(x.V, y.V))) })
		if err == nil && !same {
			r.DT = "bool"
		}
		return r, err
	}
}

func mkCmp(d cmpDef, same bool) *Op {
	n := d.name
	if !same {
		n += "b"
	}
	ref := cmpRef(d, same)
	return &Op{Name: n, N: 2, NoD: true,
		Ref: func(in []*RT) (*RT, error) {
			if in[0].DT == "bool" || in[1].DT == "bool" || nearTie(in[0], in[1]) {
				return nil, errNA
			}
			return ref(in[0], in[1])
		},
		Build: func(in []*G.Node) (*G.Node, error) { return d.b(in[0], in[1], same) }}
}

// ---- reductions ----

func axesName(axes []int) string {
	s := ""
	for i, a := range axes {
		if i > 0 {
			s += ","
		}
		s += fmt.Sprint(a)
	}
	return "[" + s + "]"
}

func validAxes(axes []int, nd int) bool {
	seen := map[int]bool{}
	for _, a := range axes {
		if a < 0 || a >= nd || seen[a] {
			return false
		}
		seen[a] = true
	}
	return true
}
func allAxes(nd int) (l []int) {
	for i := 0; i < nd; i++ {
		l = append(l, i)
	}
	return
}

func redRef(axes []int, f func([]Dual) Dual) func(in []*RT) (*RT, error) {
	return func(in []*RT) (*RT, error) {
		a := in[0]
		if !isFloatDT(a.DT) || a.isScalar() {
			return nil, errNA
		}
		ax := axes
		if len(ax) == 0 {
			ax = allAxes(len(a.Shape))
		}
		if !validAxes(ax, len(a.Shape)) {
			return nil, errNA
		}
		return reduceRT(a, ax, false, f), nil
	}
}

func maxDualsKink(l []Dual) Dual {
	m := maxDuals(l)
	n := 0
	for _, d := range l {
		if math.Abs(d.V-m.V) < kinkEps {
			n++
		}
	}
	if n > 1 {
		m.D = nan
	}
	return m
}

func meanDuals(l []Dual) Dual { return dScale(sumDuals(l), 1/float64(len(l))) }

func cp(a []int) []int { return append([]int{}, a...) }

func opSum(axes ...int) *Op {
	return &Op{Name: "Sum" + axesName(axes), N: 1, Ref: redRef(axes, sumDuals),
		Build: func(in []*G.Node) (*G.Node, error) { return G.Sum(in[0], cp(axes)...) }}
}
func opMean(axes ...int) *Op {
	return &Op{Name: "Mean" + axesName(axes), N: 1, Ref: redRef(axes, meanDuals),
		Build: func(in []*G.Node) (*G.Node, error) { return G.Mean(in[0], cp(axes)...) }}
}
func opMax(axes ...int) *Op {
	return &Op{Name: "Max" + axesName(axes), N: 1, NoAD: true, Ref: redRef(axes, maxDualsKink),
		Build: func(in []*G.Node) (*G.Node, error) { return G.Max(in[0], cp(axes)...) }}
}
func opNorm(axis, p int) *Op {
	return &Op{Name: fmt.Sprintf("Norm(%d,%d)", axis, p), N: 1,
		Ref: redRef([]int{axis}, func(l []Dual) Dual {
			var s Dual
			for _, d := range l {
				if d.V < 1e-3 && p != 2 {
					return cst(nan)
				}
				s = dAdd(s, dPow(d, cst(float64(p))))
			}
			r := dPow(s, cst(1/float64(p)))
			if s.V < 1e-6 {
				r.D = nan // not differentiable at 0
			}
			return r
		}),
		Build: func(in []*G.Node) (*G.Node, error) { return G.Norm(in[0], axis, p) }}
}

// ---- structural ----

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append([]int{}, p[:i]...)
			q = append(q, n-1)
			q = append(q, p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

func opTranspose(perm ...int) *Op {
	return &Op{Name: "T" + axesName(perm), N: 1,
		Ref: func(in []*RT) (*RT, error) {
			p := perm
			if len(p) == 0 {
				for i := len(in[0].Shape) - 1; i >= 0; i-- {
					p = append(p, i)
				}
			}
			if len(p) != len(in[0].Shape) || len(p) < 2 {
				return nil, errNA
			}
			return transposeRT(in[0], p), nil
		},
		Build: func(in []*G.Node) (*G.Node, error) { return G.Transpose(in[0], cp(perm)...) }}
}

func opReshape(to ...int) *Op {
	return &Op{Name: "Reshape" + axesName(to), N: 1,
		Ref: func(in []*RT) (*RT, error) {
			if in[0].isScalar() {
				return nil, errNA
			}
			t := cp(to)
			for i := range t {
				if t[i] < 0 {
					p := 1
					for j := range t {
						if j != i {
							p *= t[j]
						}
					}
					if p == 0 || len(in[0].D)%p != 0 {
						return nil, errNA
					}
					t[i] = len(in[0].D) / p
				}
			}
			return reshapeRT(in[0], t)
		},
		Build: func(in []*G.Node) (*G.Node, error) { return G.Reshape(in[0], tensor.Shape(cp(to))) }}
}

// opReshape1 takes a scalar or a tensor of one element to a shape of size 1.
// oneAlpha are operations on scalars and tensors of one element.
func oneAlpha() []*Op {
	return append(cat(uops("Tanh"), bops("Add", "Prod")), opReshape1(), opReshape1(1), opReshape1(1, 1))
}

// oneShapes are the inputs they are applied to.
var oneShapes = [][][]int{{{}}, {{1}}, {{1, 1}}}

func opReshape1(to ...int) *Op {
	return &Op{Name: "Reshape" + axesName(to), N: 1,
		Ref: func(in []*RT) (*RT, error) {
			if len(in[0].D) != 1 {
				return nil, errNA
			}
			return reshapeRT(in[0], to)
		},
		Build: func(in []*G.Node) (*G.Node, error) { return G.Reshape(in[0], tensor.Shape(cp(to))) }}
}

func opRavel() *Op {
	return &Op{Name: "Ravel", N: 1,
		Ref: func(in []*RT) (*RT, error) {
			if in[0].isScalar() {
				return nil, errNA
			}
			return reshapeRT(in[0], []int{len(in[0].D)})
		},
		Build: func(in []*G.Node) (*G.Node, error) { return G.Ravel(in[0]) }}
}

func slName(s []*sl) string {
	r := ""
	for i, x := range s {
		if i > 0 {
			r += ","
		}
		if x == nil {
			r += ":"
		} else if x.Step == 0 {
			r += fmt.Sprintf("%d:%d", x.Start, x.End)
		} else {
			r += fmt.Sprintf("%d:%d:%d", x.Start, x.End, x.Step)
		}
	}
	return "[" + r + "]"
}

func opSlice(s ...*sl) *Op {
	return &Op{Name: "Slice" + slName(s), N: 1,
		Ref: func(in []*RT) (*RT, error) {
			if in[0].isScalar() {
				return nil, errNA
			}
			return sliceRT(in[0], s)
		},
		Build: func(in []*G.Node) (*G.Node, error) {
			var l []tensor.Slice
			for _, x := range s {
				switch {
				case x == nil:
					l = append(l, nil)
				case x.Step == 0:
					l = append(l, G.S(x.Start, x.End))
				default:
					l = append(l, G.S(x.Start, x.End, x.Step))
				}
			}
			return G.Slice(in[0], l...)
		}}
}

func opConcat(axis, n int) *Op {
	return &Op{Name: fmt.Sprintf("Concat%d(%d)", n, axis), N: n,
		Ref: func(in []*RT) (*RT, error) {
			if in[0].isScalar() {
				return nil, errNA
			}
			return concatRT(axis, in...)
		},
		Build: func(in []*G.Node) (*G.Node, error) { return G.Concat(axis, in...) }}
}

// ---- linear algebra ----

func opMul() *Op {
	return &Op{Name: "Mul", N: 2, Ref: mulRef,
		Build: func(in []*G.Node) (*G.Node, error) { return G.Mul(in[0], in[1]) }}
}

func mulRef(in []*RT) (*RT, error) {
	a, b := in[0], in[1]
	if a.DT != b.DT || !isFloatDT(a.DT) {
		return nil, errNA
	}
	la, lb := len(a.Shape), len(b.Shape)
	switch {
	case la == 0 || lb == 0:
		return zip2(a, b, dMul)
	case la == 1 && lb == 1:
		if a.Shape[0] != b.Shape[0] {
			return nil, errNA
		}
		r := newRT(a.DT)
		for i := range a.D {
			r.D[0] = dAdd(r.D[0], dMul(a.D[i], b.D[i]))
		}
		return r, nil
	case la == 2 && lb == 2:
		return matmulRT(a, b, false, false)
	case la == 2 && lb == 1:
		bb, _ := reshapeRT(b, []int{b.Shape[0], 1})
		r, err := matmulRT(a, bb, false, false)
		if err != nil {
			return nil, err
		}
		return reshapeRT(r, []int{r.Shape[0]})
	case la == 1 && lb == 2:
		aa, _ := reshapeRT(a, []int{1, a.Shape[0]})
		r, err := matmulRT(aa, b, false, false)
		if err != nil {
			return nil, err
		}
		return reshapeRT(r, []int{r.Shape[1]})
	}
	return nil, errNA
}

func opOuter() *Op {
	return &Op{Name: "Outer", N: 2,
		Ref: func(in []*RT) (*RT, error) {
			a, b := in[0], in[1]
			if len(a.Shape) != 1 || len(b.Shape) != 1 || a.DT != b.DT || !isFloatDT(a.DT) {
				return nil, errNA
			}
			r := newRT(a.DT, a.Shape[0], b.Shape[0])
			for i := range a.D {
				for j := range b.D {
					r.D[i*len(b.D)+j] = dMul(a.D[i], b.D[j])
				}
			}
			return r, nil
		},
		Build: func(in []*G.Node) (*G.Node, error) { return G.OuterProd(in[0], in[1]) }}
}

func opBatchedMatMul(ta, tb bool) *Op {
	return &Op{Name: fmt.Sprintf("BMM(%v,%v)", ta, tb), N: 2,
		Ref: func(in []*RT) (*RT, error) {
			a, b := in[0], in[1]
			nd := len(a.Shape)
			if nd < 3 || len(b.Shape) != nd || a.DT != b.DT || !isFloatDT(a.DT) {
				return nil, errNA
			}
			if !sameShape(a.Shape[:nd-2], b.Shape[:nd-2]) {
				return nil, errNA
			}
			batch := prodInts(a.Shape[:nd-2])
			ma, mb := a.Shape[nd-2:], b.Shape[nd-2:]
			na, nb := prodInts(ma), prodInts(mb)
			var out *RT
			for i := 0; i < batch; i++ {
				x := &RT{Shape: ma, D: a.D[i*na : (i+1)*na], DT: a.DT}
				y := &RT{Shape: mb, D: b.D[i*nb : (i+1)*nb], DT: b.DT}
				r, err := matmulRT(x, y, ta, tb)
				if err != nil {
					return nil, err
				}
				if out == nil {
					out = newRT(a.DT, append(cp(a.Shape[:nd-2]), r.Shape...)...)
				}
				copy(out.D[i*len(r.D):], r.D)
			}
			return out, nil
		},
		Build: func(in []*G.Node) (*G.Node, error) { return G.BatchedMatMul(in[0], in[1], ta, tb) }}
}

func tensordotRT(a, b *RT, aAxes, bAxes []int) (*RT, error) {
	if len(aAxes) != len(bAxes) || a.DT != b.DT || !validAxes(aAxes, len(a.Shape)) || !validAxes(bAxes, len(b.Shape)) {
		return nil, errNA
	}
	for i := range aAxes {
		if a.Shape[aAxes[i]] != b.Shape[bAxes[i]] {
			return nil, errNA
		}
	}
	var out, af, bf, con []int
	for i, s := range a.Shape {
		if !inInts(i, aAxes) {
			af = append(af, i)
			out = append(out, s)
		}
	}
	for i, s := range b.Shape {
		if !inInts(i, bAxes) {
			bf = append(bf, i)
			out = append(out, s)
		}
	}
	for _, x := range aAxes {
		con = append(con, a.Shape[x])
	}
	r := newRT(a.DT, out...)
	as, bs := strides(a.Shape), strides(b.Shape)
	eachIdx(out, func(idx []int, flat int) {
		ao, bo := 0, 0
		for i, k := range af {
			ao += idx[i] * as[k]
		}
		for i, k := range bf {
			bo += idx[len(af)+i] * bs[k]
		}
		var s Dual
		eachIdx(con, func(ci []int, _ int) {
			x, y := ao, bo
			for i, v := range ci {
				x += v * as[aAxes[i]]
				y += v * bs[bAxes[i]]
			}
			s = dAdd(s, dMul(a.D[x], b.D[y]))
		})
		r.D[flat] = s
	})
	return r, nil
}

func opTensordot(aAxes, bAxes []int) *Op {
	return &Op{Name: fmt.Sprintf("Tensordot(%v,%v)", axesName(aAxes), axesName(bAxes)), N: 2,
		Ref: func(in []*RT) (*RT, error) {
			if !isFloatDT(in[0].DT) {
				return nil, errNA
			}
			// Contractions of all axes are decided by C11.
			if len(in[0].Shape)+len(in[1].Shape) == 2*len(aAxes) {
				return nil, errNA
			}
			return tensordotRT(in[0], in[1], aAxes, bAxes)
		},
		Build: func(in []*G.Node) (*G.Node, error) { return G.Tensordot(cp(aAxes), cp(bAxes), in[0], in[1]) }}
}

// ---- broadcasting ----

// bcRT expands a along the listed axes of other's shape following the
// documented rule: the axes are those of the other operand that a lacks or
// has with extent one.
func bcExpand(a *RT, axes []int, other []int) (*RT, error) {
	if len(axes) == 0 {
		return a, nil
	}
	nd := len(other)
	var rs []int
	if len(a.Shape) == nd {
		rs = cp(a.Shape)
		for _, x := range axes {
			if x >= nd || rs[x] != 1 {
				return nil, errNA
			}
		}
	} else {
		j := 0
		for i := 0; i < nd; i++ {
			if inInts(i, axes) {
				rs = append(rs, 1)
				continue
			}
			if j >= len(a.Shape) {
				return nil, errNA
			}
			rs = append(rs, a.Shape[j])
			j++
		}
		if j != len(a.Shape) {
			return nil, errNA
		}
	}
	out := cp(rs)
	for _, x := range axes {
		if x >= nd {
			return nil, errNA
		}
		out[x] = other[x]
	}
	r := newRT(a.DT, out...)
	str := strides(rs)
	eachIdx(out, func(idx []int, flat int) {
		o := 0
		for i, k := range idx {
			if rs[i] == 1 {
				k = 0
			}
			o += k * str[i]
		}
		r.D[flat] = a.D[o]
	})
	return r, nil
}

func toBytes(a []int) []byte {
	var r []byte
	for _, x := range a {
		r = append(r, byte(x))
	}
	return r
}

func bcRef(l, r []int, f func(a, b *RT) (*RT, error)) func(in []*RT) (*RT, error) {
	return func(in []*RT) (*RT, error) {
		a, b := in[0], in[1]
		if a.isScalar() || b.isScalar() || a.DT == "bool" || b.DT == "bool" {
			return nil, errNA
		}
		x, err := bcExpand(a, l, b.Shape)
		if err != nil {
			return nil, err
		}
		y, err := bcExpand(b, r, a.Shape)
		if err != nil {
			return nil, err
		}
		if !sameShape(x.Shape, y.Shape) {
			return nil, errNA
		}
		return f(x, y)
	}
}

func opBroadcast(d binDef, l, r []int) *Op {
	pt := mkBin(d)
	return &Op{Name: fmt.Sprintf("BC%s(%v,%v)", d.name, axesName(l), axesName(r)), N: 2,
		Ref:   bcRef(l, r, func(a, b *RT) (*RT, error) { return pt.Ref([]*RT{a, b}) }),
		Build: func(in []*G.Node) (*G.Node, error) { return d.bc(in[0], in[1], toBytes(l), toBytes(r)) }}
}

func opBroadcastCmp(d cmpDef, same bool, l, r []int) *Op {
	return &Op{Name: fmt.Sprintf("BC%s%v(%v,%v)", d.name, same, axesName(l), axesName(r)), N: 2, NoD: true,
		Ref: bcRef(l, r, func(a, b *RT) (*RT, error) {
			if !isFloatDT(a.DT) || !isFloatDT(b.DT) || nearTie(a, b) {
				return nil, errNA
			}
			return cmpRef(d, same)(a, b)
		}),
		Build: func(in []*G.Node) (*G.Node, error) { return d.bc(in[0], in[1], same, toBytes(l), toBytes(r)) }}
}

func binDefByName(n string) binDef {
	for _, d := range binDefs {
		if d.name == n {
			return d
		}
	}
	panic(n)
}

// ---- normalised exponentials ----

func softmaxRT(a *RT, axis int, isLog bool) *RT {
	r := newRT(a.DT, a.Shape...)
	str := strides(a.Shape)
	eachIdx(a.Shape, func(idx []int, flat int) {
		if idx[axis] != 0 {
			return
		}
		m := math.Inf(-1)
		n := a.Shape[axis]
		for k := 0; k < n; k++ {
			m = math.Max(m, a.D[flat+k*str[axis]].V)
		}
		var s Dual
		for k := 0; k < n; k++ {
			s = dAdd(s, dExp(dSub(a.D[flat+k*str[axis]], cst(m))))
		}
		for k := 0; k < n; k++ {
			o := flat + k*str[axis]
			x := dSub(a.D[o], cst(m))
			if isLog {
				r.D[o] = dSub(x, dLog(s))
			} else {
				r.D[o] = dDiv(dExp(x), s)
			}
		}
	})
	return r
}

func opSoftmax(axis int, isLog bool) *Op {
	n := "SoftMax"
	b := G.SoftMax
	if isLog {
		n, b = "LogSoftMax", G.LogSoftMax
	}
	return &Op{Name: fmt.Sprintf("%s(%d)", n, axis), N: 1,
		Ref: func(in []*RT) (*RT, error) {
			if in[0].isScalar() || !isFloatDT(in[0].DT) {
				return nil, errNA
			}
			ax := axis
			if ax < 0 {
				ax += len(in[0].Shape)
				if len(in[0].Shape) == 2 && in[0].Shape[1] == 1 && in[0].Shape[0] > 1 {
					ax = 0 // column vectors are normalised along the column
				}
			}
			if ax < 0 || ax >= len(in[0].Shape) {
				return nil, errNA
			}
			return softmaxRT(in[0], ax, isLog), nil
		},
		Build: func(in []*G.Node) (*G.Node, error) { return b(in[0], axis) }}
}
