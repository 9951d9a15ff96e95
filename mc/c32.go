package main

// C32: conversion between element types.

import (
	"fmt"
	"math"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
)

func init() {
	register(&Check{ID: "C32", Run: runC32, Procs: 1,
		Rule: "A case is a source and a destination element type, a shape, contents, a position of the conversion in a chain and a machine. The value must have the announced shape and type and every element must be the element converted as the Go conversion does (towards zero); what cannot be converted must be refused. states: distinct cases; transitions: conversions; traces: values and gradients compared."})
}

var convOK = map[string]bool{"f64>int": true, "f32>int": true, "int>f64": true, "int>f32": true}

// convertRT is the conversion of every element.
func convertRT(x *RT, to string) *RT {
	r := newRT(to, x.Shape...)
	for i, d := range x.D {
		v := d.V
		switch to {
		case "int":
			v = math.Trunc(v)
		case "f32":
			v = float64(float32(v))
		}
		r.D[i] = cst(v)
	}
	return r
}

func runC32(c *Ctx) {
	dts := []string{"f64", "f32", "int", "i64", "i32", "u8", "bool"}
	vals := []float64{0, 1, -1, 2.5, -2.5, 0.999, -0.999, 1e9, -1e9, 16777217, 1 << 31, -1<<31 - 1, 1<<32 + 3, 1<<40 + 1, 1<<53 - 1}
	shapes := [][]int{nil, {1}, {3}, {1, 1}, {2, 3}, {3, 1}, {1, 3}, {2, 1, 3}, {1, 1, 2, 2}}
	if c.Thorough {
		shapes = append(shapes, []int{7}, []int{4, 5}, []int{2, 3, 4}, []int{1, 1, 1}, []int{2, 2, 2, 2})
	}
	fill := func(dt string, shape []int, salt int) *RT {
		r := newRT(dt, shape...)
		for i := range r.D {
			v := vals[(salt+i)%len(vals)]
			switch dt {
			case "f32":
				v = float64(float32(v))
			case "int", "i64":
				v = math.Trunc(v)
			case "i32":
				v = float64(int32(int64(v)))
			case "u8":
				v = float64(uint8(int64(v)))
			case "bool":
				v = float64(int(math.Abs(v)) % 2)
			}
			r.D[i] = cst(v)
		}
		return r
	}
	for _, from := range dts {
		for _, real := range dts {
			for _, to := range dts {
				for _, s := range shapes {
					for salt := range vals {
						for kind := 0; kind < 4; kind++ {
							from, real, to, s, salt, kind := from, real, to, s, salt, kind
							if real != from && (salt > 0 || kind > 0) {
								continue
							}
							c.Case(func() string {
								return fmt.Sprintf("convert|%s|%s>%s|%v|%d|%d", real, from, to, s, salt, kind)
							}, func(t *T) {
								t.State(from, real, to, s, salt, kind)
								x := fill(real, s, salt)
								g := G.NewGraph()
								xn := newBoundInput(g, "x", x)
								t.Trans(1)
								if kind == 3 && len(s) > 1 { // of a transposed view
									perm := make([]int, len(s))
									for i := range perm {
										perm[i] = len(s) - 1 - i
									}
									xn = G.Must(G.Transpose(xn, perm...))
									x = transposeRT(x, perm)
								}
								n, err := G.ConvType(xn, dtypes[from], dtypes[to])
								if err != nil {
									if real == from && convOK[from+">"+to] {
										t.Failf("refused: %v", err)
									}
									t.Count("refused when built", 1)
									return
								}
								if m := recovered("converting", func() { probe(n, g, map[int64]G.Value{}) }); m != "" {
									t.Failf("%s", m)
								}
								if real == from && (!sameShape(n.Shape(), x.Shape) || n.Dtype() != dtypes[to]) {
									t.Failf("announces %v %v", n.Shape(), n.Dtype())
								}
								var got G.Value
								G.Read(n, &got)
								var vm G.VM
								if kind == 1 {
									vm = G.NewLispMachine(g, G.ExecuteFwdOnly())
								} else {
									vm = G.NewTapeMachine(g)
								}
								defer closeVM(vm)
								runs := 1
								if kind == 2 {
									runs = 3
								}
								for r := 0; r < runs; r++ {
									if r > 0 {
										vm.Reset()
										x = fill(real, s, salt+r)
										if err := G.Let(xn, goVal(x)); err != nil {
											t.Failf("%v", err)
										}
									}
									err := vm.RunAll()
									if real != from || !convOK[from+">"+to] {
										if err == nil {
											t.Failf("accepted")
										}
										t.Count("refused when run", 1)
										return
									}
									if err != nil {
										t.Failf("%v", err)
									}
									t.Trace(1)
									if m := diffValue(got, convertRT(x, to), 0); m != "" {
										t.Failf("run %d: %s", r, m)
									}
								}
							})
						}
					}
				}
			}
		}
	}
	// there and back, and gradients: what reaches a conversion is converted back
	for _, f := range []string{"f64", "f32"} {
		for _, s := range shapes {
			for salt := range vals {
				f, s, salt := f, s, salt
				c.Case(func() string { return fmt.Sprintf("back|%s|%v|%d", f, s, salt) }, func(t *T) {
					t.State("back", f, s, salt)
					x := fill(f, s, salt)
					g := G.NewGraph()
					y := G.Must(G.ConvType(newBoundInput(g, "x", x), dtypes[f], tensor.Int))
					z := G.Must(G.ConvType(y, tensor.Int, dtypes[f]))
					var got G.Value
					G.Read(z, &got)
					vm := G.NewTapeMachine(g)
					defer closeVM(vm)
					t.Trans(2)
					if err := vm.RunAll(); err != nil {
						t.Failf("%v", err)
					}
					t.Trace(1)
					if m := diffValue(got, convertRT(convertRT(x, "int"), f), 0); m != "" {
						t.Failf("%s", m)
					}
				})
				c.Case(func() string { return fmt.Sprintf("gradient|%s|%v|%d", f, s, salt) }, func(t *T) {
					t.State("gradient", f, s, salt)
					x, w := fill("int", s, salt), fill(f, s, salt+3)
					g := G.NewGraph()
					xn := newBoundInput(g, "x", x)
					y := G.Must(G.ConvType(xn, tensor.Int, dtypes[f]))
					cost := G.Must(G.HadamardProd(y, newBoundInput(g, "w", w)))
					if len(s) > 0 {
						cost = G.Must(G.Sum(cost))
					}
					grads, err := G.Grad(cost, xn)
					if err != nil {
						t.Failf("%v", err)
					}
					var got G.Value
					G.Read(grads[0], &got)
					vm := G.NewTapeMachine(g)
					defer closeVM(vm)
					t.Trans(2)
					if err := vm.RunAll(); err != nil {
						t.Failf("%v", err)
					}
					t.Trace(1)
					if m := diffValue(got, convertRT(w, "int"), 0); m != "" {
						t.Failf("%s", m)
					}
				})
			}
		}
	}
}
