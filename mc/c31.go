package main

// C31: group normalisation.

import (
	"fmt"
	"io/ioutil"
	"log"
	"math"

	G "gorgonia.org/gorgonia"
)

func init() {
	register(&Check{ID: "C31", Run: runC31, Procs: 2,
		Rule: "A case is a shape, a number of groups, an element type, a value of epsilon, and one way to run: forward and with gradients of input, scale and bias, on both machines, repeated, and with operands that are views. The reference takes mean and variance of every group of channels of every sample with dual numbers. states: distinct cases; transitions: instructions and machine runs; traces: values compared."})
}

// opGroupNorm normalises the channels of every sample in groups.
func opGroupNorm(groups int, eps float64) *Op {
	return &Op{Name: fmt.Sprintf("GroupNorm(%d,%v)", groups, eps), N: 3,
		Ref: func(in []*RT) (*RT, error) {
			x, scale, bias := in[0], in[1], in[2]
			if len(x.Shape) < 2 || x.Shape[1]%groups != 0 || !isFloatDT(x.DT) {
				return nil, errNA
			}
			ch := x.Shape[1]
			if len(scale.D) != ch || len(bias.D) != ch {
				return nil, errNA
			}
			img := len(x.D) / x.Shape[0] / ch
			n := img * ch / groups
			r := newRT(x.DT, x.Shape...)
			for at := 0; at < len(x.D); at += n {
				mean := cst(0)
				for _, d := range x.D[at : at+n] {
					mean = dAdd(mean, d)
				}
				mean = dScale(mean, 1/float64(n))
				v := cst(0)
				for _, d := range x.D[at : at+n] {
					e := dSub(d, mean)
					v = dAdd(v, dMul(e, e))
				}
				v = dAdd(dScale(v, 1/float64(n)), cst(eps))
				s := math.Sqrt(v.V)
				inv := Dual{1 / s, -v.D / (2 * s * s * s)}
				for i := at; i < at+n; i++ {
					c := i / img % ch
					r.D[i] = dAdd(dMul(dMul(dSub(x.D[i], mean), inv), scale.D[c]), bias.D[c])
				}
			}
			return r, nil
		},
		Build: func(in []*G.Node) (*G.Node, error) {
			return G.GroupNorm(in[0], in[1], in[2], groups, in[0].Shape()[1], eps)
		}}
}

func runC31(c *Ctx) {
	log.SetOutput(ioutil.Discard) // the derivative logs its operand
	eps := []float64{0.5, 1e-2}
	ops := func(dt string, s []int) []*RT {
		p := []int{1, s[1]}
		for range s[2:] {
			p = append(p, 1)
		}
		return []*RT{genRT(dt, 1, 1, s...), genRT(dt, 1, 2, p...), genRT(dt, 1, 3, p...)}
	}
	maxB, maxC, maxE := 2, 4, 3
	if c.Thorough {
		maxB, maxC, maxE = 3, 6, 4
	}
	for _, dt := range []string{"f64", "f32"} {
		for _, e := range eps {
			for b := 1; b <= maxB; b++ {
				for ch := 1; ch <= maxC; ch++ {
					for grp := 1; grp <= ch; grp++ {
						if ch%grp != 0 {
							continue
						}
						suite(c, "gn", opGroupNorm(grp, e), ops(dt, []int{b, ch}), "frgv")
						for h := 1; h <= maxE; h++ {
							suite(c, "gn", opGroupNorm(grp, e), ops(dt, []int{b, ch, h}), "frgv")
							for w := 1; w <= maxE; w++ {
								suite(c, "gn", opGroupNorm(grp, e), ops(dt, []int{b, ch, h, w}), "frgv")
							}
						}
					}
				}
			}
		}
		// every size of a group up to a bound: the moments are accumulated in
		// vectors, chunks of vectors and a tree of chunks
		max := 700
		if c.Thorough {
			max = 1600
		}
		for n := 1; n <= max; n++ {
			for _, s := range [][]int{{1, 1, 1, n}, {2, 2, 1, n}} {
				if s[0] == 2 && n%8 > 1 && n%8 < 7 {
					continue
				}
				p, err := single(opGroupNorm(s[1], 1e-2), ops(dt, s))
				if err != nil {
					continue
				}
				key := fmt.Sprintf("size|%s|%v|", dt, s)
				c.Case(func() string { return key + "tape" }, func(t *T) { tapeCase(t, p, 0) })
				if n <= 40 || n%128 <= 1 || n%128 == 127 {
					c.Case(func() string { return key + "grad" }, func(t *T) { symGradCase(t, p, 7) })
					c.Case(func() string { return key + "ad" }, func(t *T) { adGradCase(t, p) })
				}
			}
		}
	}
}
