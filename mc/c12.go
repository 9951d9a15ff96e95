package main

import (
	"fmt"
	"strings"

	G "gorgonia.org/gorgonia"
	nnops "gorgonia.org/gorgonia/ops/nn"
	"gorgonia.org/tensor"
)

func init() {
	register(&Check{ID: "C12", Run: runC12, Procs: 1,
		Rule: "states: distinct reference results; transitions: convolutions and poolings applied; traces: executions, gradients and refusals compared with the sliding-window definition"})
}

// win is the geometry of a window along one axis.
type win struct{ K, P0, P1, S, D int }

// out gives the number of output positions along an axis of extent n, zero
// when there is none.
func (w win) out(n int) int {
	span := n + w.P0 + w.P1 - (w.D*(w.K-1) + 1)
	if span < 0 {
		return 0
	}
	return span/w.S + 1
}

func convRT(im, f *RT, h, w win) (*RT, error) {
	if len(im.Shape) != 4 || len(f.Shape) != 4 || im.Shape[1] != f.Shape[1] || f.Shape[2] != h.K || f.Shape[3] != w.K {
		return nil, errNA
	}
	oh, ow := h.out(im.Shape[2]), w.out(im.Shape[3])
	if oh == 0 || ow == 0 {
		return nil, errNA
	}
	r := newRT(im.DT, im.Shape[0], f.Shape[0], oh, ow)
	is, fs := strides(im.Shape), strides(f.Shape)
	eachIdx(r.Shape, func(x []int, at int) {
		var acc Dual
		for c := 0; c < im.Shape[1]; c++ {
			for i := 0; i < h.K; i++ {
				y := x[2]*h.S - h.P0 + i*h.D
				if y < 0 || y >= im.Shape[2] {
					continue
				}
				for j := 0; j < w.K; j++ {
					z := x[3]*w.S - w.P0 + j*w.D
					if z < 0 || z >= im.Shape[3] {
						continue
					}
					acc = dAdd(acc, dMul(im.D[x[0]*is[0]+c*is[1]+y*is[2]+z], f.D[x[1]*fs[0]+c*fs[1]+i*fs[2]+j]))
				}
			}
		}
		r.D[at] = acc
	})
	return r, nil
}

// poolRT is the maximum over every window; padding takes no part in it. A
// window that covers nothing but padding has no maximum.
func poolRT(im *RT, h, w win) (*RT, error) {
	if len(im.Shape) != 4 {
		return nil, errNA
	}
	oh, ow := h.out(im.Shape[2]), w.out(im.Shape[3])
	if oh == 0 || ow == 0 {
		return nil, errNA
	}
	r := newRT(im.DT, im.Shape[0], im.Shape[1], oh, ow)
	is := strides(im.Shape)
	bad := false
	eachIdx(r.Shape, func(x []int, at int) {
		var l []Dual
		for i := 0; i < h.K; i++ {
			y := x[2]*h.S - h.P0 + i
			if y < 0 || y >= im.Shape[2] {
				continue
			}
			for j := 0; j < w.K; j++ {
				z := x[3]*w.S - w.P0 + j
				if z < 0 || z >= im.Shape[3] {
					continue
				}
				l = append(l, im.D[x[0]*is[0]+x[1]*is[1]+y*is[2]+z])
			}
		}
		if len(l) == 0 {
			bad = true
			return
		}
		r.D[at] = maxDuals(l)
		for _, d := range l {
			// too close to tell which one single precision prefers
			if x := r.D[at].V - d.V; x != 0 && x < 1e-4 {
				bad = true
			}
		}
	})
	if bad {
		return nil, errNA
	}
	return r, nil
}

// avgRT averages over the window; what lies outside the image counts as zero.
func avgRT(im *RT, h, w win) (*RT, error) {
	if len(im.Shape) != 4 || !isFloatDT(im.DT) {
		return nil, errNA
	}
	b, ch, nh, nw := im.Shape[0], im.Shape[1], im.Shape[2], im.Shape[3]
	oh, ow := h.out(nh), w.out(nw)
	if oh == 0 || ow == 0 {
		return nil, errNA
	}
	r := newRT(im.DT, b, ch, oh, ow)
	is := strides(im.Shape)
	eachIdx(r.Shape, func(x []int, at int) {
		sum := r.D[at]
		for i := 0; i < h.K; i++ {
			for j := 0; j < w.K; j++ {
				y, z := x[2]*h.S-h.P0+i, x[3]*w.S-w.P0+j
				if y >= 0 && y < nh && z >= 0 && z < nw {
					sum = dAdd(sum, im.D[x[0]*is[0]+x[1]*is[1]+y*is[2]+z])
				}
			}
		}
		r.D[at] = dDiv(sum, cst(float64(h.K*w.K)))
	})
	return r, nil
}

func opAvgPool(h, w win) *Op {
	o := opPool(h, w)
	pad := []int{h.P0, w.P0}
	if h.P0 != h.P1 || w.P0 != w.P1 {
		pad = []int{h.P1, h.P0, w.P1, w.P0}
	}
	return &Op{Name: strings.Replace(o.Name, "MaxPool", "AveragePool", 1), N: 1,
		Ref: func(in []*RT) (*RT, error) { return avgRT(in[0], h, w) },
		Build: func(in []*G.Node) (*G.Node, error) {
			return G.AveragePool2D(in[0], tensor.Shape{h.K, w.K}, cp(pad), []int{h.S, w.S})
		}}
}

func opAvgPool1(w win) *Op {
	return &Op{Name: fmt.Sprintf("AveragePool1D(k%d,p%d,s%d)", w.K, w.P0, w.S), N: 1,
		Ref: func(in []*RT) (*RT, error) { return avgRT(in[0], win{1, 0, 0, 1, 1}, w) },
		Build: func(in []*G.Node) (*G.Node, error) {
			return G.AveragePool1D(in[0], w.K, w.P0, w.S)
		}}
}

func opGlobalAvgPool() *Op {
	return &Op{Name: "GlobalAveragePool2D", N: 1,
		Ref: func(in []*RT) (*RT, error) {
			if len(in[0].Shape) != 4 {
				return nil, errNA
			}
			return avgRT(in[0], win{in[0].Shape[2], 0, 0, 1, 1}, win{in[0].Shape[3], 0, 0, 1, 1})
		},
		Build: func(in []*G.Node) (*G.Node, error) { return G.GlobalAveragePool2D(in[0]) }}
}

func opConv(h, w win) *Op {
	return &Op{Name: fmt.Sprintf("Conv2d(k%dx%d,p%d-%d,s%d-%d,d%d-%d)", h.K, w.K, h.P0, w.P0, h.S, w.S, h.D, w.D), N: 2,
		Ref: func(in []*RT) (*RT, error) { return convRT(in[0], in[1], h, w) },
		Build: func(in []*G.Node) (*G.Node, error) {
			return G.Conv2d(in[0], in[1], tensor.Shape{h.K, w.K}, []int{h.P0, w.P0}, []int{h.S, w.S}, []int{h.D, w.D})
		}}
}

// opConvNil leaves out what has a default.
func opConvNil(h, w win) *Op {
	return &Op{Name: fmt.Sprintf("Conv2d(k%dx%d,s%d-%d)", h.K, w.K, h.S, w.S), N: 2,
		Ref: func(in []*RT) (*RT, error) { return convRT(in[0], in[1], h, w) },
		Build: func(in []*G.Node) (*G.Node, error) {
			return G.Conv2d(in[0], in[1], tensor.Shape{h.K, w.K}, nil, []int{h.S, w.S}, nil)
		}}
}

func opConv1(w win) *Op {
	return &Op{Name: fmt.Sprintf("Conv1d(k%d,p%d,s%d,d%d)", w.K, w.P0, w.S, w.D), N: 2,
		Ref: func(in []*RT) (*RT, error) { return convRT(in[0], in[1], win{1, 0, 0, 1, 1}, w) },
		Build: func(in []*G.Node) (*G.Node, error) {
			return G.Conv1d(in[0], in[1], w.K, w.P0, w.S, w.D)
		}}
}

func opPool(h, w win) *Op {
	pad, pn := []int{h.P0, w.P0}, fmt.Sprintf("%d-%d", h.P0, w.P0)
	if h.P0 != h.P1 || w.P0 != w.P1 {
		// the four values are the padding after and before the rows, then
		// after and before the columns: what the existing tests expect
		pad = []int{h.P1, h.P0, w.P1, w.P0}
		pn = fmt.Sprintf("%v", pad)
	}
	return &Op{Name: fmt.Sprintf("MaxPool2D(k%dx%d,p%s,s%d-%d)", h.K, w.K, strings.ReplaceAll(pn, " ", "-"), h.S, w.S), N: 1,
		Ref: func(in []*RT) (*RT, error) { return poolRT(in[0], h, w) },
		Build: func(in []*G.Node) (*G.Node, error) {
			return G.MaxPool2D(in[0], tensor.Shape{h.K, w.K}, cp(pad), []int{h.S, w.S})
		}}
}

func opPool1(w win) *Op {
	return &Op{Name: fmt.Sprintf("MaxPool1D(k%d,p%d,s%d)", w.K, w.P0, w.S), N: 1,
		Ref: func(in []*RT) (*RT, error) { return poolRT(in[0], win{1, 0, 0, 1, 1}, w) },
		Build: func(in []*G.Node) (*G.Node, error) {
			return G.MaxPool1D(in[0], w.K, w.P0, w.S)
		}}
}

// opIm2Col lays every patch out as one row.
func opIm2Col(h, w win) *Op {
	return &Op{Name: fmt.Sprintf("Im2Col(k%dx%d,p%d-%d,s%d-%d,d%d-%d)", h.K, w.K, h.P0, w.P0, h.S, w.S, h.D, w.D), N: 1,
		Ref: func(in []*RT) (*RT, error) {
			im := in[0]
			if len(im.Shape) != 4 {
				return nil, errNA
			}
			oh, ow := h.out(im.Shape[2]), w.out(im.Shape[3])
			if oh == 0 || ow == 0 {
				return nil, errNA
			}
			r := newRT(im.DT, im.Shape[0], oh, ow, im.Shape[1]*h.K*w.K)
			is := strides(im.Shape)
			eachIdx(r.Shape, func(x []int, at int) {
				c, i, j := x[3]/(h.K*w.K), x[3]/w.K%h.K, x[3]%w.K
				y, z := x[1]*h.S-h.P0+i*h.D, x[2]*w.S-w.P0+j*w.D
				if y >= 0 && y < im.Shape[2] && z >= 0 && z < im.Shape[3] {
					r.D[at] = im.D[x[0]*is[0]+c*is[1]+y*is[2]+z]
				}
			})
			return r, nil
		},
		Build: func(in []*G.Node) (*G.Node, error) {
			return G.Im2Col(in[0], tensor.Shape{h.K, w.K}, tensor.Shape{h.P0, w.P0}, tensor.Shape{h.S, w.S}, tensor.Shape{h.D, w.D})
		}}
}

// refusedCase: building or running the expression must report an error.
func refusedCase(t *T, ins []*RT, build func([]*G.Node) (*G.Node, error)) {
	g := G.NewGraph()
	var in []*G.Node
	for i, r := range ins {
		n := G.NewTensor(g, dtypes[r.DT], len(r.Shape), G.WithShape(r.Shape...), G.WithName(fmt.Sprintf("x%d", i)), G.WithValue(goVal(r)))
		in = append(in, n)
	}
	t.Trans(1)
	n, err := build(in)
	if err != nil {
		t.Count("refused", 1)
		return
	}
	m := G.NewTapeMachine(g)
	defer closeVM(m)
	if err := m.RunAll(); err != nil {
		t.Count("refused", 1)
		return
	}
	t.Failf("no output position exists, but the result is %v of shape %v", n.Value(), n.Shape())
}

// geometry lists the windows with kernel, padding, stride and dilation up to
// the given bounds.
func geometry(k, p, s, d int) (r []win) {
	for a := 1; a <= k; a++ {
		for b := 0; b <= p; b++ {
			for e := 1; e <= s; e++ {
				for f := 1; f <= d; f++ {
					r = append(r, win{a, b, b, e, f})
				}
			}
		}
	}
	return
}

func runC12(c *Ctx) {
	conv(c)
	pool(c)
	nets(c)
}

func conv(c *Ctx) {
	N, K := 3, 3
	if c.Thorough {
		N, K = 4, 3
	}
	name := func(tag string) func(p *Prog, what string) func() string {
		return func(p *Prog, what string) func() string {
			return func() string { return fmt.Sprintf("%s|%s|%s", tag, p.String(), what) }
		}
	}
	// every pair of row and column geometry
	gs := geometry(K, 2, 3, 2)
	for nh := 1; nh <= N; nh++ {
		for nw := 1; nw <= N; nw++ {
			for _, h := range gs {
				for _, w := range gs {
					if h.K == 1 && h.D > 1 || w.K == 1 && w.D > 1 {
						continue
					}
					for _, dt := range []string{"f64", "f32"} {
						ins := []*RT{genRT(dt, 1, 1, 1, 2, nh, nw), genRT(dt, 1, 2, 2, 2, h.K, w.K)}
						op := opConv(h, w)
						if h.out(nh) == 0 || w.out(nw) == 0 {
							c.Case(func() string { return fmt.Sprintf("conv|refused|%v|%v|%s", ins[0].Shape, ins[1].Shape, op.Name) }, func(t *T) { refusedCase(t, ins, op.Build) })
							continue
						}
						p, err := single(op, ins)
						if err != nil {
							continue
						}
						c.Case(name("conv")(p, "tape"), func(t *T) { tapeCase(t, p, 0) })
						c.Case(name("conv")(p, "grad"), func(t *T) { symGradCase(t, p, 3) })
						c.Case(name("conv")(p, "ad"), func(t *T) { adGradCase(t, p) })
					}
				}
			}
		}
	}
	// batches, channels, filters and element types with everything run
	few := []win{{1, 0, 0, 1, 1}, {2, 0, 0, 1, 1}, {2, 1, 1, 2, 1}, {3, 1, 1, 1, 1}, {2, 0, 0, 1, 2}, {2, 1, 1, 1, 2}, {3, 2, 2, 3, 1}}
	for _, dt := range []string{"f64", "f32"} {
		for b := 1; b <= 3; b++ {
			for ch := 1; ch <= 3; ch++ {
				for f := 1; f <= 3; f++ {
					for i, h := range few {
						for j, w := range few {
							if !c.Thorough && b+ch+f > 5 {
								continue
							}
							ins := []*RT{genRT(dt, 1, 1, b, ch, 3, 4), genRT(dt, 1, 2, f, ch, h.K, w.K)}
							suite(c, "convall", opConv(h, w), ins, "frg")
							if i == j && h.P0 == 0 && h.D == 1 {
								suite(c, "convnil", opConvNil(h, w), ins, "fg")
							}
							if i == 0 {
								suite(c, "conv1", opConv1(w), ins, "fg")
							}
						}
					}
				}
			}
		}
	}
	// the same operations by the names of package ops/nn
	nn := func(o *Op, build func(in []*G.Node) (*G.Node, error)) *Op {
		return &Op{Name: "nn." + o.Name, N: o.N, Ref: o.Ref, Build: build}
	}
	for _, h := range few {
		for _, w := range few {
			h, w := h, w
			ins := []*RT{genRT("f64", 1, 1, 2, 2, 3, 4), genRT("f64", 1, 2, 2, 2, h.K, w.K)}
			suite(c, "nn", nn(opConv(h, w), func(in []*G.Node) (*G.Node, error) {
				return nnops.Conv2d(in[0], in[1], tensor.Shape{h.K, w.K}, []int{h.P0, w.P0}, []int{h.S, w.S}, []int{h.D, w.D})
			}), ins, "fg")
			if h.D > 1 || w.D > 1 {
				continue
			}
			suite(c, "nn", nn(opPool(h, w), func(in []*G.Node) (*G.Node, error) {
				return nnops.MaxPool2D(in[0], tensor.Shape{h.K, w.K}, []int{h.P0, w.P0}, []int{h.S, w.S})
			}), ins[:1], "fg")
		}
		h := h
		ins := []*RT{genRT("f64", 1, 1, 2, 2, 3, 4), genRT("f64", 1, 2, 2, 2, 1, h.K)}
		suite(c, "nn", nn(opConv1(h), func(in []*G.Node) (*G.Node, error) {
			return nnops.Conv1d(in[0], in[1], h.K, h.P0, h.S, h.D)
		}), ins, "fg")
	}
	for _, dt := range []string{"f64", "f32"} {
		for _, s := range [][]int{{1, 1, 3, 3}, {2, 2, 3, 4}, {2, 1, 4, 2}, {1, 3, 2, 3}} {
			for _, h := range few {
				for _, w := range few {
					suite(c, "im2col", opIm2Col(h, w), []*RT{genRT(dt, 1, 1, s...)}, "frgv")
				}
			}
		}
		for _, h := range few {
			mixedViews(c, "convview", opConv(h, few[1]), []*RT{genRT(dt, 1, 1, 2, 2, 3, 4), genRT(dt, 1, 2, 3, 2, h.K, 2)}, true)
			mixedViews(c, "convview", opConv(h, few[2]), []*RT{genRT(dt, 1, 1, 1, 3, 3, 2), genRT(dt, 1, 2, 2, 3, h.K, 2)}, true)
		}
	}
	// parameters outside the definition
	im, f := genRT("f64", 1, 1, 1, 1, 3, 3), genRT("f64", 1, 2, 1, 1, 2, 2)
	for _, b := range []struct {
		name             string
		pad, stride, dil []int
		kernel           tensor.Shape
		ins              []*RT
	}{
		{"stride0", []int{0, 0}, []int{0, 1}, []int{1, 1}, tensor.Shape{2, 2}, []*RT{im, f}},
		{"stride-1", []int{0, 0}, []int{1, -1}, []int{1, 1}, tensor.Shape{2, 2}, []*RT{im, f}},
		{"pad-1", []int{-1, 0}, []int{1, 1}, []int{1, 1}, tensor.Shape{2, 2}, []*RT{im, f}},
		{"dil0", []int{0, 0}, []int{1, 1}, []int{1, 0}, tensor.Shape{2, 2}, []*RT{im, f}},
		{"dil-1", []int{0, 0}, []int{1, 1}, []int{-1, 1}, tensor.Shape{2, 2}, []*RT{im, f}},
		{"kernel0", []int{0, 0}, []int{1, 1}, []int{1, 1}, tensor.Shape{0, 2}, []*RT{im, f}},
		{"channels", []int{0, 0}, []int{1, 1}, []int{1, 1}, tensor.Shape{2, 2}, []*RT{im, genRT("f64", 1, 2, 1, 2, 2, 2)}},
		{"image3", []int{0, 0}, []int{1, 1}, []int{1, 1}, tensor.Shape{2, 2}, []*RT{genRT("f64", 1, 1, 1, 3, 3), f}},
		{"filter3", []int{0, 0}, []int{1, 1}, []int{1, 1}, tensor.Shape{2, 2}, []*RT{im, genRT("f64", 1, 2, 1, 2, 2)}},
	} {
		b := b
		c.Case(func() string { return "conv|refused|" + b.name }, func(t *T) {
			refusedCase(t, b.ins, func(in []*G.Node) (*G.Node, error) {
				return G.Conv2d(in[0], in[1], b.kernel, b.pad, b.stride, b.dil)
			})
		})
	}
}

func pool(c *Ctx) {
	N := 4
	if c.Thorough {
		N = 5
	}
	gs := geometry(3, 2, 3, 1)
	if c.Thorough {
		gs = geometry(4, 3, 3, 1)
	}
	uneven := gs
	for _, g := range gs {
		if g.P0 == 0 {
			for _, p := range [][2]int{{0, 1}, {1, 0}, {1, 2}, {2, 0}} {
				uneven = append(uneven, win{g.K, p[0], p[1], g.S, 1})
			}
		}
	}
	for nh := 1; nh <= N; nh++ {
		for nw := 1; nw <= N; nw++ {
			for gi, h := range uneven {
				for gj, w := range uneven {
					// symmetric padding takes two values, so an uneven one
					// on either axis makes all four explicit
					for _, dt := range []string{"f64", "f32"} {
						ins := []*RT{genRT(dt, 1, gi+gj, 1, 2, nh, nw)}
						op := opPool(h, w)
						if h.out(nh) == 0 || w.out(nw) == 0 {
							c.Case(func() string { return fmt.Sprintf("pool|refused|%v|%s", ins[0].Shape, op.Name) }, func(t *T) { refusedCase(t, ins, op.Build) })
							continue
						}
						p, err := single(op, ins)
						if err != nil {
							continue
						}
						name := func(what string) func() string {
							return func() string { return fmt.Sprintf("pool|%s|%s", p.String(), what) }
						}
						c.Case(name("tape"), func(t *T) { tapeCase(t, p, 0) })
						c.Case(name("grad"), func(t *T) { symGradCase(t, p, 1) })
						c.Case(name("ad"), func(t *T) { adGradCase(t, p) })
					}
				}
			}
			for gi, h := range uneven {
				for gj, w := range uneven {
					for _, dt := range []string{"f64", "f32"} {
						ins := []*RT{genRT(dt, 1, gi+gj, 1, 2, nh, nw)}
						op := opAvgPool(h, w)
						if h.out(nh) == 0 || w.out(nw) == 0 {
							c.Case(func() string { return fmt.Sprintf("avg|refused|%v|%s", ins[0].Shape, op.Name) }, func(t *T) { refusedCase(t, ins, op.Build) })
							continue
						}
						p, err := single(op, ins)
						if err != nil {
							continue
						}
						name := func(what string) func() string {
							return func() string { return fmt.Sprintf("avg|%s|%s", p.String(), what) }
						}
						c.Case(name("tape"), func(t *T) { tapeCase(t, p, 0) })
						c.Case(name("grad"), func(t *T) { symGradCase(t, p, 1) })
						c.Case(name("ad"), func(t *T) { adGradCase(t, p) })
					}
				}
			}
			for b := 1; b <= 3; b++ {
				for ch := 1; ch <= 3; ch++ {
					for _, dt := range []string{"f64", "f32"} {
						suite(c, "global", opGlobalAvgPool(), []*RT{genRT(dt, 1, b+ch, b, ch, nh, nw)}, "frv")
					}
				}
			}
		}
	}
	for _, dt := range []string{"f64", "f32"} {
		for b := 1; b <= 3; b++ {
			for ch := 1; ch <= 3; ch++ {
				for _, h := range []win{{1, 0, 0, 1, 1}, {2, 0, 0, 1, 1}, {2, 1, 1, 2, 1}, {3, 0, 0, 2, 1}, {2, 0, 1, 1, 1}, {2, 1, 0, 1, 1}} {
					for _, w := range []win{{1, 0, 0, 1, 1}, {2, 0, 0, 2, 1}, {3, 1, 1, 1, 1}, {2, 0, 1, 1, 1}, {2, 1, 0, 1, 1}} {
						suite(c, "poolall", opPool(h, w), []*RT{genRT(dt, 1, 3, b, ch, 3, 4)}, "frgv")
						suite(c, "avgall", opAvgPool(h, w), []*RT{genRT(dt, 1, 3, b, ch, 3, 4)}, "frgv")
						if h.K == 1 && w.P0 == w.P1 {
							suite(c, "avg1", opAvgPool1(w), []*RT{genRT(dt, 1, 3, b, ch, 3, 4)}, "frg")
							suite(c, "pool1", opPool1(w), []*RT{genRT(dt, 1, 3, b, ch, 3, 4)}, "frg")
						}
					}
				}
			}
		}
		// images in which nothing is positive, and with equal elements
		for _, h := range []win{{2, 1, 1, 1, 1}, {3, 1, 1, 2, 1}} {
			neg := genRT(dt, 0, 5, 2, 2, 3, 3)
			for i := range neg.D {
				neg.D[i].V = -neg.D[i].V
			}
			suite(c, "poolneg", opPool(h, h), []*RT{neg}, "frg")
			for m := 0; m < 512; m++ {
				eq := newRT(dt, 1, 1, 3, 3)
				for i := range eq.D {
					eq.D[i].V = float64(m>>i&1) - 2
				}
				suite(c, "poolties", opPool(h, h), []*RT{eq}, "f")
			}
		}
	}
	x := genRT("f64", 1, 1, 1, 1, 3, 3)
	for _, b := range []struct {
		name        string
		kernel      tensor.Shape
		pad, stride []int
		in          *RT
	}{
		{"stride0", tensor.Shape{2, 2}, []int{0, 0}, []int{0, 1}, x},
		{"stride-1", tensor.Shape{2, 2}, []int{0, 0}, []int{1, -1}, x},
		{"pad-1", tensor.Shape{2, 2}, []int{0, -1}, []int{1, 1}, x},
		{"kernel1", tensor.Shape{2}, []int{0, 0}, []int{1, 1}, x},
		{"kernel3", tensor.Shape{2, 2, 2}, []int{0, 0}, []int{1, 1}, x},
		{"image3", tensor.Shape{2, 2}, []int{0, 0}, []int{1, 1}, genRT("f64", 1, 1, 1, 3, 3)},
		{"image2", tensor.Shape{2, 2}, []int{0, 0}, []int{1, 1}, genRT("f64", 1, 1, 3, 3)},
	} {
		b := b
		c.Case(func() string { return "pool|refused|" + b.name }, func(t *T) {
			refusedCase(t, []*RT{b.in}, func(in []*G.Node) (*G.Node, error) {
				return G.MaxPool2D(in[0], b.kernel, b.pad, b.stride)
			})
		})
		c.Case(func() string { return "avg|refused|" + b.name }, func(t *T) {
			refusedCase(t, []*RT{b.in}, func(in []*G.Node) (*G.Node, error) {
				return G.AveragePool2D(in[0], b.kernel, b.pad, b.stride)
			})
		})
	}
}

// nets composes convolutions and poolings: one after another, and side by
// side on the same image, so that the image has several uses.
func nets(c *Ctx) {
	var convs, pools []*Op
	for _, h := range []win{{1, 0, 0, 1, 1}, {2, 0, 0, 1, 1}, {2, 0, 0, 2, 1}, {2, 0, 0, 2, 2}, {2, 1, 1, 1, 2}, {2, 0, 0, 1, 2}} {
		for _, w := range []win{{1, 0, 0, 1, 1}, {2, 0, 0, 1, 1}, {2, 0, 0, 2, 1}, {2, 0, 0, 2, 2}, {2, 1, 1, 1, 2}} {
			if h.K == w.K {
				convs = append(convs, opConv(h, w))
			}
		}
	}
	for _, h := range []win{{1, 0, 0, 1, 1}, {2, 0, 0, 1, 1}, {2, 1, 1, 2, 1}, {2, 0, 1, 1, 1}, {2, 1, 0, 1, 1}, {3, 1, 1, 1, 1}} {
		for _, w := range []win{{1, 0, 0, 1, 1}, {2, 0, 0, 1, 1}, {2, 0, 1, 1, 1}, {2, 1, 0, 1, 1}, {3, 1, 1, 1, 1}} {
			pools = append(pools, opPool(h, w))
			if h.K == w.K {
				pools = append(pools, opAvgPool(h, w))
			}
		}
	}
	name := func(p *Prog, what string) func() string {
		return func() string { return fmt.Sprintf("net|%s|%s", p.String(), what) }
	}
	run := func(p *Prog, grad bool) {
		c.Case(name(p, "tape"), func(t *T) { tapeCase(t, p, 0) })
		c.Case(name(p, "lisp"), func(t *T) { lispCase(t, p, false, 0) })
		if grad {
			suiteGrad(c, p, name)
		}
	}
	put := func(p *Prog, op *Op, args ...int) *Prog {
		in := make([]*RT, len(args))
		for i, a := range args {
			in[i] = p.Vals[a]
		}
		r, err := op.Ref(in)
		if err != nil {
			return nil
		}
		q := &Prog{DT: p.DT, NIn: p.NIn, Vals: append(append([]*RT{}, p.Vals...), r)}
		q.Instrs = append(append([]Instr{}, p.Instrs...), Instr{op, args})
		return q
	}
	for _, dt := range []string{"f64", "f32"} {
		for _, ks := range []int{1, 2} {
			base := &Prog{DT: dt, NIn: 2, Vals: []*RT{genRT(dt, 1, 1, 2, 2, 3, 3), genRT(dt, 1, 2, 2, 2, ks, ks)}}
			type layer struct {
				op   *Op
				args []int
			}
			at := func(op *Op, x int) layer {
				if op.N == 2 {
					return layer{op, []int{x, 1}}
				}
				return layer{op, []int{x}}
			}
			all := append(append([]*Op{}, convs...), pools...)
			for _, o1 := range all {
				l1 := at(o1, 0)
				p1 := put(base, l1.op, l1.args...)
				if p1 == nil {
					continue
				}
				// the image and its result used together
				if q := put(p1, bops("Add")[0], 2, 0); q != nil {
					run(q, true)
				}
				if q := put(p1, bops("Prod")[0], 0, 2); q != nil {
					run(q, true)
				}
				if !c.Thorough && dt == "f32" {
					continue
				}
				for _, o2 := range all {
					l2 := at(o2, 2)
					if q := put(p1, l2.op, l2.args...); q != nil {
						run(q, c.Thorough || ks == 2)
					}
					l2 = at(o2, 0)
					if q := put(p1, l2.op, l2.args...); q != nil {
						// joined, so that both get a gradient
						if j := put(q, bops("Prod")[0], 2, 3); j != nil {
							run(j, true)
						} else {
							run(q, false)
						}
					}
				}
			}
		}
	}
}
