package main

// C33: the detection layer.

import (
	"fmt"
	"math"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
)

func init() {
	register(&Check{ID: "C33", Run: runC33, Procs: 1,
		Rule: "A case is a batch size, a grid, a sequence of chosen anchors, a number of classes, a stride, a machine and a number of runs. Every box of the output is compared with the formula of the layer applied to the attributes of its cell and anchor; the input must keep its contents. states: distinct cases; transitions: machine runs; traces: values compared."})
}

// yoloRT lists the boxes cell by cell, and for every cell anchor by anchor.
func yoloRT(x *RT, anchors []float32, masks []int, size, classes int) *RT {
	b, grid := x.Shape[0], x.Shape[2]
	attrs := 5 + classes
	stride := float64(size / grid)
	r := newRT(x.DT, b, grid*grid*len(masks), attrs)
	at := 0
	for i := 0; i < b; i++ {
		for gy := 0; gy < grid; gy++ {
			for gx := 0; gx < grid; gx++ {
				for a, m := range masks {
					for k := 0; k < attrs; k++ {
						v := x.D[((i*len(masks)+a)*attrs+k)*grid*grid+gy*grid+gx].V
						switch k {
						case 0:
							v = (sigm(v) + float64(gx)) * stride
						case 1:
							v = (sigm(v) + float64(gy)) * stride
						case 2, 3:
							v = math.Exp(v) * float64(anchors[2*m+k-2])
						default:
							v = sigm(v)
						}
						r.D[at] = cst(v)
						at++
					}
				}
			}
		}
	}
	return r
}

func runC33(c *Ctx) {
	maxB, maxG, maxC := 2, 3, 2
	if c.Thorough {
		maxB, maxG, maxC = 3, 5, 4
	}
	anchors := []float32{10, 13, 16, 30, 33, 23, 61, 45}
	for b := 1; b <= maxB; b++ {
		for grid := 1; grid <= maxG; grid++ {
			for _, masks := range sequences(4, 3, true) {
				for cl := 0; cl <= maxC; cl++ {
					for _, stride := range []int{1, 2, 8} {
						for kind := 0; kind < 3; kind++ {
							b, grid, masks, cl, stride, kind := b, grid, masks, cl, stride, kind
							if len(masks) == 0 {
								continue
							}
							c.Case(func() string {
								return fmt.Sprintf("boxes|b%d|g%d|%v|c%d|s%d|%d", b, grid, masks, cl, stride, kind)
							}, func(t *T) {
								t.State(b, grid, masks, cl, stride, kind)
								shape := []int{b, len(masks) * (5 + cl), grid, grid}
								x := genRT("f32", 1, b+cl, shape...)
								g := G.NewGraph()
								xn := newBoundInput(g, "x", x)
								n, err := G.YOLOv3(xn, append([]float32{}, anchors...), cp(masks), stride*grid, cl, 0.5)
								if err != nil {
									t.Failf("%v", err)
								}
								want := yoloRT(x, anchors, masks, stride*grid, cl)
								if !sameShape(n.Shape(), want.Shape) {
									t.Failf("announces %v, want %v", n.Shape(), want.Shape)
								}
								var got G.Value
								G.Read(n, &got)
								var vm G.VM
								runs := 1
								switch kind {
								case 0:
									vm = G.NewTapeMachine(g)
								case 1:
									vm = G.NewLispMachine(g, G.ExecuteFwdOnly())
								case 2:
									vm, runs = G.NewTapeMachine(g), 3
								}
								defer closeVM(vm)
								for r := 0; r < runs; r++ {
									if r > 0 {
										vm.Reset()
										x = genRT("f32", 1, b+cl+r, shape...)
										if err := G.Let(xn, goVal(x)); err != nil {
											t.Failf("%v", err)
										}
										want = yoloRT(x, anchors, masks, stride*grid, cl)
									}
									t.Trans(1)
									if err := vm.RunAll(); err != nil {
										t.Failf("%v", err)
									}
									t.Trace(1)
									if m := diffValue(got, want, 1e-4); m != "" {
										t.Failf("run %d: %s", r, m)
									}
									if m := diffValue(xn.Value(), x, 0); m != "" {
										t.Failf("run %d: input afterwards: %s", r, m)
									}
								}
							})
						}
					}
				}
			}
		}
	}
	for _, m := range []int{4, 5, 100} {
		for k := 0; k < 3; k++ {
			m, k := m, k
			c.Case(func() string { return fmt.Sprintf("refused|mask|%d|%d", m, k) }, func(t *T) {
				t.State("mask", m, k)
				masks := []int{0, 1, 2}
				masks[k] = m
				g := G.NewGraph()
				n, err := G.YOLOv3(newBoundInput(g, "x", genRT("f32", 1, 1, 1, 15, 2, 2)), anchors, masks, 4, 0, 0.5)
				if err != nil {
					return
				}
				_ = n
				vm := G.NewTapeMachine(g)
				defer closeVM(vm)
				if vm.RunAll() == nil {
					t.Failf("accepted anchor %d of 4", m)
				}
			})
		}
	}
	c.Case(func() string { return "refused|f64" }, func(t *T) {
		t.State("f64")
		g := G.NewGraph()
		x := G.NewTensor(g, tensor.Float64, 4, G.WithShape(1, 5, 2, 2), G.WithInit(G.Zeroes()), G.WithName("x"))
		n, err := G.YOLOv3(x, anchors, []int{0}, 4, 0, 0.5)
		if err != nil {
			return
		}
		var got G.Value
		G.Read(n, &got)
		vm := G.NewTapeMachine(g)
		defer closeVM(vm)
		if vm.RunAll() == nil {
			want := yoloRT(newRT("f64", 1, 5, 2, 2), anchors, []int{0}, 4, 0)
			if m := diffValue(got, want, 1e-9); m != "" {
				t.Failf("%s", m)
			}
		}
	})
}
