package main

// Programs: straight-line lists of operations over inputs, their exhaustive
// enumeration, their construction with the library and value comparison.

import (
	"fmt"
	"math"
	"runtime"
	"strings"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
)

type Instr struct {
	Op   *Op
	Args []int
}

// Prog is a program together with its reference values.
type Prog struct {
	DT     string
	NIn    int
	Const  []bool // per input: bound as a constant
	Instrs []Instr
	Vals   []*RT // inputs first, then one per instruction
}

func (p *Prog) String() string {
	var b strings.Builder
	b.WriteString(p.DT)
	b.WriteString("|in=")
	for i := 0; i < p.NIn; i++ {
		if p.Const != nil && p.Const[i] {
			b.WriteString("c")
		}
		fmt.Fprintf(&b, "(%s)", strings.Trim(axesName(p.Vals[i].Shape), "[]"))
	}
	b.WriteString("|")
	for i, in := range p.Instrs {
		if i > 0 {
			b.WriteString(";")
		}
		b.WriteString(in.Op.Name)
		b.WriteString("(")
		for j, a := range in.Args {
			if j > 0 {
				b.WriteString(",")
			}
			fmt.Fprintf(&b, "%d", a)
		}
		b.WriteString(")")
	}
	return b.String()
}

// used reports for every value whether a later instruction reads it.
func (p *Prog) used() []bool {
	u := make([]bool, len(p.Vals))
	for _, in := range p.Instrs {
		for _, a := range in.Args {
			u[a] = true
		}
	}
	return u
}

// reach reports the values the given value depends on (itself included).
func (p *Prog) reach(v int) []bool {
	r := make([]bool, len(p.Vals))
	var walk func(int)
	walk = func(x int) {
		if r[x] {
			return
		}
		r[x] = true
		if x >= p.NIn {
			for _, a := range p.Instrs[x-p.NIn].Args {
				walk(a)
			}
		}
	}
	walk(v)
	return r
}

// eval recomputes all values with the given inputs.
func (p *Prog) eval(ins []*RT) ([]*RT, error) {
	vals := append([]*RT{}, ins...)
	for _, in := range p.Instrs {
		args := make([]*RT, len(in.Args))
		for i, a := range in.Args {
			args[i] = vals[a]
		}
		r, err := in.Op.Ref(args)
		if err != nil {
			return nil, err
		}
		vals = append(vals, r)
	}
	return vals, nil
}

func (p *Prog) clone() *Prog {
	q := &Prog{DT: p.DT, NIn: p.NIn, Const: p.Const}
	q.Instrs = append([]Instr{}, p.Instrs...)
	q.Vals = append([]*RT{}, p.Vals...)
	return q
}

// EnumOpts steers enumeration.
type EnumOpts struct {
	Limit    float64 // largest magnitude allowed in any value
	MaxElems int     // largest number of elements in any value
	NoDup    bool    // skip programs that repeat an identical instruction
	Chain    bool    // every instruction must use the previous result
	LastUses bool    // last instruction uses the previous one (prunes pure permutations)
	Skip     func(p *Prog, op *Op, args []int) bool
}

// enumProgs visits every program of exactly n instructions over the alphabet.
func enumProgs(c *Ctx, dt string, ins []*RT, consts []bool, alpha []*Op, n int, o EnumOpts, visit func(p *Prog)) {
	if o.Limit == 0 {
		o.Limit = 1e4
	}
	if o.MaxElems == 0 {
		o.MaxElems = 64
	}
	p := &Prog{DT: dt, NIn: len(ins), Const: consts, Vals: append([]*RT{}, ins...)}
	var rec func(left int)
	rec = func(left int) {
		if c != nil && c.Stop() {
			return
		}
		if left == 0 {
			visit(p)
			return
		}
		nv := len(p.Vals)
		for _, op := range alpha {
			args := make([]int, op.N)
			in := make([]*RT, op.N)
			var pick func(k int)
			pick = func(k int) {
				if k == op.N {
					if o.Chain && nv > p.NIn || o.LastUses && left == 1 && nv > p.NIn {
						ok := false
						for _, a := range args {
							if a == nv-1 {
								ok = true
							}
						}
						if !ok {
							return
						}
					}
					if o.NoDup {
						for _, q := range p.Instrs {
							if q.Op == op && sameShape(q.Args, args) {
								return
							}
						}
					}
					if o.Skip != nil && o.Skip(p, op, args) {
						return
					}
					for i, a := range args {
						in[i] = p.Vals[a]
					}
					r, err := op.Ref(in)
					if err != nil || !r.finite(o.Limit) || len(r.D) > o.MaxElems {
						return
					}
					p.Instrs = append(p.Instrs, Instr{op, append([]int{}, args...)})
					p.Vals = append(p.Vals, r)
					rec(left - 1)
					p.Instrs = p.Instrs[:len(p.Instrs)-1]
					p.Vals = p.Vals[:len(p.Vals)-1]
					return
				}
				for a := 0; a < nv; a++ {
					if op.Comm && k == 1 && a < args[0] {
						continue
					}
					args[k] = a
					pick(k + 1)
				}
			}
			pick(0)
		}
	}
	if c == nil {
		rec(n)
		return
	}
	// one group of cases per prefix
	inner := rec
	rec = func(left int) {
		if left == 1 && n > 1 {
			c.Group(func() { inner(1) })
			return
		}
		inner(left)
	}
	rec(n)
}

// ---- values ----

// genVals fills a tensor with distinct generic values. mode 0: positive,
// mode 1: mixed signs, mode 2: other positive values.
func genRT(dt string, mode, salt int, shape ...int) *RT {
	r := newRT(dt, shape...)
	for i := range r.D {
		k := i + salt*17 + 1
		var v float64
		switch mode {
		case 0:
			v = 0.25 + float64((k*577)%997)/997*1.5
		case 1:
			v = 0.25 + float64((k*577)%997)/997*1.5
			if (k*7919/13)%2 == 0 {
				v = -v
			}
		default:
			v = 0.3 + float64((k*733+101)%991)/991*1.2
		}
		r.D[i] = cst(float64(float32(v)))
	}
	return r
}

var dtypes = map[string]tensor.Dtype{"f64": tensor.Float64, "f32": tensor.Float32, "bool": tensor.Bool,
	"int": tensor.Int, "i64": tensor.Int64, "i32": tensor.Int32, "u8": tensor.Byte}

// backing returns a fresh Go slice with the values.
func backing(t *RT) interface{} {
	switch t.DT {
	case "f64":
		r := make([]float64, len(t.D))
		for i := range r {
			r[i] = t.D[i].V
		}
		return r
	case "f32":
		r := make([]float32, len(t.D))
		for i := range r {
			r[i] = float32(t.D[i].V)
		}
		return r
	case "int":
		r := make([]int, len(t.D))
		for i := range r {
			r[i] = int(t.D[i].V)
		}
		return r
	case "i64":
		r := make([]int64, len(t.D))
		for i := range r {
			r[i] = int64(t.D[i].V)
		}
		return r
	case "i32":
		r := make([]int32, len(t.D))
		for i := range r {
			r[i] = int32(t.D[i].V)
		}
		return r
	case "u8":
		r := make([]byte, len(t.D))
		for i := range r {
			r[i] = byte(t.D[i].V)
		}
		return r
	case "bool":
		r := make([]bool, len(t.D))
		for i := range r {
			r[i] = t.D[i].V != 0
		}
		return r
	}
	panic(t.DT)
}

// goVal gives the value in the form the library accepts for binding.
func goVal(t *RT) interface{} {
	if t.isScalar() {
		switch b := backing(t).(type) {
		case []float64:
			return b[0]
		case []float32:
			return b[0]
		case []int:
			return b[0]
		case []int64:
			return b[0]
		case []int32:
			return b[0]
		case []byte:
			return b[0]
		case []bool:
			return b[0]
		}
	}
	return tensor.New(tensor.WithShape(t.Shape...), tensor.WithBacking(backing(t)))
}

func toFloats(data interface{}) ([]float64, bool) {
	switch b := data.(type) {
	case []float64:
		return b, true
	case []float32:
		r := make([]float64, len(b))
		for i, x := range b {
			r[i] = float64(x)
		}
		return r, true
	case []int:
		r := make([]float64, len(b))
		for i, x := range b {
			r[i] = float64(x)
		}
		return r, true
	case []int64:
		r := make([]float64, len(b))
		for i, x := range b {
			r[i] = float64(x)
		}
		return r, true
	case []int32:
		r := make([]float64, len(b))
		for i, x := range b {
			r[i] = float64(x)
		}
		return r, true
	case []byte:
		r := make([]float64, len(b))
		for i, x := range b {
			r[i] = float64(x)
		}
		return r, true
	case []bool:
		r := make([]float64, len(b))
		for i, x := range b {
			r[i] = b2f(x)
		}
		return r, true
	}
	return nil, false
}

func scalarFloat(x interface{}) (float64, bool) {
	switch v := x.(type) {
	case float64:
		return v, true
	case float32:
		return float64(v), true
	case int:
		return float64(v), true
	case int64:
		return float64(v), true
	case int32:
		return float64(v), true
	case byte:
		return float64(v), true
	case bool:
		return b2f(v), true
	}
	return 0, false
}

func dtName(d tensor.Dtype) string {
	for k, v := range dtypes {
		if v == d {
			return k
		}
	}
	return d.String()
}

// readValue turns a library value into a reference tensor, honouring views.
func readValue(v G.Value) (*RT, error) {
	if v == nil {
		return nil, fmt.Errorf("no value")
	}
	dt := dtName(v.Dtype())
	if _, ok := v.(G.Scalar); ok {
		f, ok := scalarFloat(v.Data())
		if !ok {
			return nil, fmt.Errorf("unreadable scalar %T", v.Data())
		}
		return &RT{DT: dt, D: []Dual{cst(f)}}, nil
	}
	t, ok := v.(tensor.Tensor)
	if !ok {
		return nil, fmt.Errorf("unreadable value %T", v)
	}
	r := &RT{DT: dt, Shape: append([]int{}, t.Shape()...)}
	n := prodInts(r.Shape)
	r.D = make([]Dual, n)
	if t.Shape().IsScalar() || n == 1 {
		f, ok := scalarFloat(t.Data())
		if !ok {
			if fs, ok2 := toFloats(t.Data()); ok2 && len(fs) >= 1 {
				f = fs[0]
			} else {
				return nil, fmt.Errorf("unreadable scalar tensor %T", t.Data())
			}
		}
		r.D[0] = cst(f)
		return r, nil
	}
	if !t.RequiresIterator() && t.DataOrder().IsRowMajor() && !t.DataOrder().IsTransposed() {
		if fs, ok := toFloats(t.Data()); ok && len(fs) == n {
			for i := range fs {
				r.D[i] = cst(fs[i])
			}
			return r, nil
		}
	}
	var err error
	eachIdx(r.Shape, func(idx []int, flat int) {
		if err != nil {
			return
		}
		x, e := t.At(idx...)
		if e != nil {
			err = fmt.Errorf("At(%v) of shape %v: %v", idx, r.Shape, e)
			return
		}
		f, ok := scalarFloat(x)
		if !ok {
			err = fmt.Errorf("unreadable element %T", x)
			return
		}
		r.D[flat] = cst(f)
	})
	if err != nil {
		return nil, err
	}
	return r, nil
}

func close1(got, want, tol float64) bool {
	if math.IsNaN(want) || math.IsNaN(got) {
		return math.IsNaN(want) && math.IsNaN(got)
	}
	if math.IsInf(want, 0) || math.IsInf(got, 0) {
		return got == want
	}
	return math.Abs(got-want) <= tol*(1+math.Abs(want))
}

func tolFor(dt string, scale float64) float64 {
	if scale < 1 {
		scale = 1
	}
	if dt == "f32" {
		return 2e-5 * scale * 5
	}
	return 1e-10 * scale * 10
}

// diffValue reports how a library value differs from the reference, or "".
func diffValue(v G.Value, want *RT, tol float64) string {
	got, err := readValue(v)
	if err != nil {
		return err.Error()
	}
	return diffRT(got, want, tol)
}

// lenientOne lets a value of one element pass for a scalar.
var lenientOne bool

func diffRT(got, want *RT, tol float64) string {
	if lenientOne && len(want.Shape) == 0 && len(got.D) == 1 {
		got = &RT{DT: got.DT, D: got.D}
	}
	if got.DT != want.DT {
		return fmt.Sprintf("element type %s, want %s", got.DT, want.DT)
	}
	if !sameShape(got.Shape, want.Shape) {
		return fmt.Sprintf("shape %v, want %v", got.Shape, want.Shape)
	}
	for i := range want.D {
		if !close1(got.D[i].V, want.D[i].V, tol) {
			return fmt.Sprintf("values %v, want %v (element %d)", got.vals(), want.vals(), i)
		}
	}
	return ""
}

// ---- construction ----

func newInput(g *G.ExprGraph, name string, t *RT, opts ...G.NodeConsOpt) *G.Node {
	o := append([]G.NodeConsOpt{G.WithName(name)}, opts...)
	dt := dtypes[t.DT]
	if !t.isScalar() {
		o = append(o, G.WithShape(t.Shape...))
	}
	switch len(t.Shape) {
	case 0:
		return G.NewScalar(g, dt, o...)
	case 1:
		return G.NewVector(g, dt, o...)
	case 2:
		return G.NewMatrix(g, dt, o...)
	default:
		return G.NewTensor(g, dt, len(t.Shape), o...)
	}
}

func newBoundInput(g *G.ExprGraph, name string, t *RT) *G.Node {
	return newInput(g, name, t, G.WithValue(goVal(t)))
}

var inNames = []string{"a", "b", "c", "d", "e", "f"}

// build creates the program's nodes in g: inputs first, then instructions.
func (p *Prog) build(g *G.ExprGraph) ([]*G.Node, error) { return p.buildFor(g, nil) }

// buildFor leaves out the inputs that are not marked in used (nil: none).
func (p *Prog) buildFor(g *G.ExprGraph, used []bool) ([]*G.Node, error) {
	nodes := make([]*G.Node, 0, len(p.Vals))
	for i := 0; i < p.NIn; i++ {
		if used != nil && !used[i] {
			nodes = append(nodes, nil)
			continue
		}
		if p.Const != nil && p.Const[i] {
			nodes = append(nodes, g.AddNode(G.NewConstant(goVal(p.Vals[i]), G.WithName("k"+inNames[i]))))
			continue
		}
		nodes = append(nodes, newBoundInput(g, inNames[i], p.Vals[i]))
	}
	for i, in := range p.Instrs {
		args := make([]*G.Node, len(in.Args))
		for j, a := range in.Args {
			args[j] = nodes[a]
		}
		n, err := in.Op.Build(args)
		if err != nil {
			return nil, fmt.Errorf("instruction %d (%s): %v", i, in.Op.Name, err)
		}
		if n == nil {
			return nil, fmt.Errorf("instruction %d (%s): nil node", i, in.Op.Name)
		}
		nodes = append(nodes, n)
	}
	return nodes, nil
}

func (p *Prog) scale() float64 {
	m := 1.0
	for _, v := range p.Vals {
		m = math.Max(m, v.maxAbs())
	}
	return m
}

// closeVM closes m and drops its finalizer, so that it can be collected at once.
func closeVM(m G.VM) {
	m.Close()
	runtime.SetFinalizer(m, nil)
}
