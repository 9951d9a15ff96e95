package main

// Reference model: naive row-major tensors of dual numbers.  Nothing here
// shares code with the library under test.

import (
	"errors"
	"fmt"
	"math"
)

// Dual is a value with a first derivative along the current direction.
type Dual struct{ V, D float64 }

func cst(v float64) Dual            { return Dual{V: v} }
func dAdd(a, b Dual) Dual           { return Dual{a.V + b.V, a.D + b.D} }
func dSub(a, b Dual) Dual           { return Dual{a.V - b.V, a.D - b.D} }
func dMul(a, b Dual) Dual           { return Dual{a.V * b.V, a.D*b.V + a.V*b.D} }
func dDiv(a, b Dual) Dual           { return Dual{a.V / b.V, (a.D*b.V - a.V*b.D) / (b.V * b.V)} }
func dScale(a Dual, k float64) Dual { return Dual{a.V * k, a.D * k} }
func dExp(a Dual) Dual              { e := math.Exp(a.V); return Dual{e, e * a.D} }
func dLog(a Dual) Dual              { return Dual{math.Log(a.V), a.D / a.V} }

// RT is a reference tensor. A nil/empty Shape is a scalar.
type RT struct {
	Shape []int
	D     []Dual
	DT    string // "f64" "f32" "bool" "int" "i64" "i32" "u8"
}

var errNA = errors.New("not applicable")

func prodInts(s []int) int {
	p := 1
	for _, x := range s {
		p *= x
	}
	return p
}

func newRT(dt string, shape ...int) *RT {
	return &RT{Shape: append([]int{}, shape...), D: make([]Dual, prodInts(shape)), DT: dt}
}

func (t *RT) isScalar() bool { return len(t.Shape) == 0 }
func (t *RT) clone() *RT {
	r := newRT(t.DT, t.Shape...)
	copy(r.D, t.D)
	return r
}
func (t *RT) String() string {
	return fmt.Sprintf("%s%v%v", t.DT, t.Shape, t.vals())
}
func (t *RT) vals() []float64 {
	r := make([]float64, len(t.D))
	for i := range r {
		r[i] = t.D[i].V
	}
	return r
}
func (t *RT) finite(limit float64) bool {
	for _, d := range t.D {
		if math.IsNaN(d.V) || math.IsInf(d.V, 0) || math.Abs(d.V) > limit {
			return false
		}
	}
	return true
}
func (t *RT) maxAbs() float64 {
	m := 0.0
	for _, d := range t.D {
		if a := math.Abs(d.V); a > m {
			m = a
		}
	}
	return m
}

func sameShape(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func strides(shape []int) []int {
	s := make([]int, len(shape))
	p := 1
	for i := len(shape) - 1; i >= 0; i-- {
		s[i] = p
		p *= shape[i]
	}
	return s
}

// eachIdx calls f with every index of shape in row-major order. idx is reused.
func eachIdx(shape []int, f func(idx []int, flat int)) {
	n := prodInts(shape)
	idx := make([]int, len(shape))
	for i := 0; i < n; i++ {
		f(idx, i)
		for k := len(shape) - 1; k >= 0; k-- {
			idx[k]++
			if idx[k] < shape[k] {
				break
			}
			idx[k] = 0
		}
	}
}

func flatOf(idx, str []int) int {
	o := 0
	for i, x := range idx {
		o += x * str[i]
	}
	return o
}

func (t *RT) at(idx ...int) Dual { return t.D[flatOf(idx, strides(t.Shape))] }

// map1 applies f element-wise.
func map1(a *RT, f func(Dual) Dual) *RT {
	r := newRT(a.DT, a.Shape...)
	for i, d := range a.D {
		r.D[i] = f(d)
	}
	return r
}

// zip2 applies f element-wise; a scalar operand is extended.
func zip2(a, b *RT, f func(x, y Dual) Dual) (*RT, error) {
	if a.DT != b.DT {
		return nil, errNA
	}
	switch {
	case a.isScalar() && !b.isScalar():
		return map1(b, func(y Dual) Dual { return f(a.D[0], y) }), nil
	case b.isScalar():
		return map1(a, func(x Dual) Dual { return f(x, b.D[0]) }), nil
	}
	if !sameShape(a.Shape, b.Shape) {
		return nil, errNA
	}
	r := newRT(a.DT, a.Shape...)
	for i := range r.D {
		r.D[i] = f(a.D[i], b.D[i])
	}
	return r, nil
}

func inInts(x int, l []int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// reduceRT folds the given axes; f receives the elements in row-major order.
func reduceRT(a *RT, axes []int, keep bool, f func([]Dual) Dual) *RT {
	var outShape, keepIdx []int
	for i, s := range a.Shape {
		if inInts(i, axes) {
			if keep {
				outShape = append(outShape, 1)
			}
			continue
		}
		outShape = append(outShape, s)
		keepIdx = append(keepIdx, i)
	}
	r := newRT(a.DT, outShape...)
	var ks []int
	for _, k := range keepIdx {
		ks = append(ks, a.Shape[k])
	}
	kstr := strides(ks)
	buckets := make([][]Dual, len(r.D))
	eachIdx(a.Shape, func(idx []int, flat int) {
		o := 0
		for i, k := range keepIdx {
			o += idx[k] * kstr[i]
		}
		buckets[o] = append(buckets[o], a.D[flat])
	})
	for i := range r.D {
		r.D[i] = f(buckets[i])
	}
	return r
}

func sumDuals(l []Dual) Dual {
	var s Dual
	for _, d := range l {
		s = dAdd(s, d)
	}
	return s
}

func maxDuals(l []Dual) Dual {
	m := l[0]
	for _, d := range l[1:] {
		if d.V > m.V {
			m = d
		}
	}
	return m
}

func transposeRT(a *RT, perm []int) *RT {
	ns := make([]int, len(perm))
	for i, p := range perm {
		ns[i] = a.Shape[p]
	}
	r := newRT(a.DT, ns...)
	astr := strides(a.Shape)
	eachIdx(ns, func(idx []int, flat int) {
		o := 0
		for i, p := range perm {
			o += idx[i] * astr[p]
		}
		r.D[flat] = a.D[o]
	})
	return r
}

func reshapeRT(a *RT, to []int) (*RT, error) {
	if prodInts(to) != len(a.D) {
		return nil, errNA
	}
	r := newRT(a.DT, to...)
	copy(r.D, a.D)
	return r, nil
}

func concatRT(axis int, xs ...*RT) (*RT, error) {
	nd := len(xs[0].Shape)
	if axis < 0 || axis >= nd {
		return nil, errNA
	}
	out := append([]int{}, xs[0].Shape...)
	for _, x := range xs[1:] {
		if len(x.Shape) != nd || x.DT != xs[0].DT {
			return nil, errNA
		}
		for i := range x.Shape {
			if i != axis && x.Shape[i] != out[i] {
				return nil, errNA
			}
		}
		out[axis] += x.Shape[axis]
	}
	r := newRT(xs[0].DT, out...)
	rstr := strides(out)
	off := 0
	for _, x := range xs {
		eachIdx(x.Shape, func(idx []int, flat int) {
			o := 0
			for i, k := range idx {
				if i == axis {
					k += off
				}
				o += k * rstr[i]
			}
			r.D[o] = x.D[flat]
		})
		off += x.Shape[axis]
	}
	return r, nil
}

// sl is a half-open range with a step; nil (in a list) means the whole axis.
type sl struct{ Start, End, Step int }

// sliceRT follows the library's documented semantics: a range of length one
// keeps no axis when it was given as a single index.
func sliceRT(a *RT, s []*sl) (*RT, error) {
	if len(s) > len(a.Shape) {
		return nil, errNA
	}
	var out []int
	type ax struct{ start, step, n int }
	axs := make([]ax, len(a.Shape))
	for i, d := range a.Shape {
		if i >= len(s) || s[i] == nil {
			axs[i] = ax{0, 1, d}
			out = append(out, d)
			continue
		}
		st := s[i].Step
		if st == 0 {
			st = 1
		}
		if s[i].Start < 0 || s[i].End > d || s[i].Start >= s[i].End || st < 1 {
			return nil, errNA
		}
		n := (s[i].End - s[i].Start + st - 1) / st
		axs[i] = ax{s[i].Start, st, n}
		if n == 1 { // an axis narrowed to one element disappears
			continue
		}
		out = append(out, n)
	}
	full := make([]int, len(axs))
	for i := range axs {
		full[i] = axs[i].n
	}
	r := newRT(a.DT, out...)
	astr := strides(a.Shape)
	eachIdx(full, func(idx []int, flat int) {
		o := 0
		for i, k := range idx {
			o += (axs[i].start + k*axs[i].step) * astr[i]
		}
		r.D[flat] = a.D[o]
	})
	return r, nil
}

// matmul of two matrices given as RTs with optional transposition.
func matmulRT(a, b *RT, ta, tb bool) (*RT, error) {
	if len(a.Shape) != 2 || len(b.Shape) != 2 || a.DT != b.DT {
		return nil, errNA
	}
	if ta {
		a = transposeRT(a, []int{1, 0})
	}
	if tb {
		b = transposeRT(b, []int{1, 0})
	}
	if a.Shape[1] != b.Shape[0] {
		return nil, errNA
	}
	m, k, n := a.Shape[0], a.Shape[1], b.Shape[1]
	r := newRT(a.DT, m, n)
	for i := 0; i < m; i++ {
		for j := 0; j < n; j++ {
			var s Dual
			for x := 0; x < k; x++ {
				s = dAdd(s, dMul(a.D[i*k+x], b.D[x*n+j]))
			}
			r.D[i*n+j] = s
		}
	}
	return r, nil
}
