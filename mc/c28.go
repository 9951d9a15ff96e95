package main

import (
	"fmt"
	"math"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
)

func init() {
	register(&Check{ID: "C28", Run: runC28, Procs: 1,
		Rule: "A case is a batch of sequences (number of frames, labels, target words, input lengths), a layout of the targets, an element type, a reduction and a machine. The reference lists every one of the labels^frames paths and keeps those that collapse to the target. states: distinct (sequence, loss) results of the reference; transitions: paths listed plus loss and gradient evaluations; traces: executions compared."})
}

// ctcSeq is one sequence of a batch: how many of the frames count and the
// target word.
type ctcSeq struct {
	n    int
	word []int
}

// ctcRef lists every path of labels over the sequence's frames. It returns the
// loss, the probability that a frame carries a label given the target, and the
// number of paths.
func ctcRef(lp [][]float64, q ctcSeq) (loss float64, gamma [][]float64, paths int) {
	labels := len(lp[0])
	gamma = make([][]float64, q.n)
	for t := range gamma {
		gamma[t] = make([]float64, labels)
	}
	total := 0.0
	path := make([]int, q.n)
	var rec func(t int, logp float64)
	rec = func(t int, logp float64) {
		if t == q.n {
			paths++
			at, last := 0, 0
			for _, l := range path {
				if l != 0 && l != last {
					if at >= len(q.word) || q.word[at] != l {
						return
					}
					at++
				}
				last = l
			}
			if at != len(q.word) {
				return
			}
			pr := math.Exp(logp)
			total += pr
			for i, l := range path {
				gamma[i][l] += pr
			}
			return
		}
		for l := 0; l < labels; l++ {
			path[t] = l
			rec(t+1, logp+lp[t][l])
		}
	}
	rec(0, 0)
	for _, g := range gamma {
		for l := range g {
			g[l] /= total
		}
	}
	return -math.Log(total), gamma, paths
}

// ctcCase runs a batch. How: "fwd" takes log-probabilities as the input;
// "grad" takes scores, puts them through the log-softmax and compares the
// gradient of the scores.
func ctcCase(t *T, dt string, frames, labels, mode int, batch []ctcSeq, twoD bool, red G.Reduction, how string, kind, ctx int) {
	B := len(batch)
	d := G.Float64
	tol := 1e-9
	if dt == "f32" {
		d, tol = G.Float32, 1e-4
	}
	set := func(round int) (*RT, [][][]float64) {
		scores := genRT(dt, mode, 1+round, frames, B, labels)
		lp := make([][][]float64, B)
		for b := range lp {
			lp[b] = make([][]float64, frames)
			for f := range lp[b] {
				row := make([]float64, labels)
				z := 0.0
				for l := range row {
					row[l] = scores.D[(f*B+b)*labels+l].V
					z += math.Exp(row[l])
				}
				for l := range row {
					row[l] -= math.Log(z)
				}
				lp[b][f] = row
			}
		}
		return scores, lp
	}
	tgt, total, width := []int{}, 0, 1
	for _, q := range batch {
		total += len(q.word)
		if len(q.word) > width {
			width = len(q.word)
		}
	}
	var targets *tensor.Dense
	inLen, tgtLen := make([]int, B), make([]int, B)
	for b, q := range batch {
		inLen[b], tgtLen[b] = q.n, len(q.word)
		tgt = append(tgt, q.word...)
		if twoD {
			for i := len(q.word); i < width; i++ {
				tgt = append(tgt, 1) // padding: not part of the target
			}
		}
	}
	if twoD {
		targets = tensor.New(tensor.WithShape(B, width), tensor.WithBacking(tgt))
	} else {
		if total == 0 {
			tgt = []int{1}
		}
		targets = tensor.New(tensor.WithShape(len(tgt)), tensor.WithBacking(tgt))
	}

	g := G.NewGraph()
	x := G.NewTensor(g, d, 3, G.WithShape(frames, B, labels), G.WithName("x"))
	tn := G.NewTensor(g, tensor.Int, targets.Dims(), G.WithShape(targets.Shape()...), G.WithName("targets"), G.WithValue(targets))
	ln := G.NewVector(g, tensor.Int, G.WithShape(B), G.WithName("in"), G.WithValue(tensor.New(tensor.WithShape(B), tensor.WithBacking(inLen))))
	tl := G.NewVector(g, tensor.Int, G.WithShape(B), G.WithName("tl"), G.WithValue(tensor.New(tensor.WithShape(B), tensor.WithBacking(tgtLen))))
	in := x
	var err error
	if how == "grad" {
		if in, err = G.LogSoftMax(x, 2); err != nil {
			t.Failf("log-softmax refused: %v", err)
			return
		}
	}
	loss, err := G.CTCLoss(in, tn, ln, tl, red)
	if err != nil {
		t.Failf("refused: %v", err)
		return
	}
	cost := loss
	switch ctx {
	case 1:
		cost = G.Must(G.Square(loss))
	case 2:
		cost = G.Must(G.Add(loss, G.Must(G.Sum(G.Must(G.Square(x))))))
	}
	var dx G.Nodes
	if how == "grad" {
		if dx, err = G.Grad(cost, x); err != nil {
			t.Failf("gradient refused: %v", err)
			return
		}
	}
	var m G.VM
	if kind == kLispFwd {
		m = G.NewLispMachine(g, G.ExecuteFwdOnly())
	} else {
		m = G.NewTapeMachine(g)
	}
	defer closeVM(m)
	for round := 0; round < 2; round++ {
		scores, lp := set(round)
		var bound *RT
		if how == "grad" {
			bound = scores
		} else {
			bound = newRT(dt, frames, B, labels)
			for b := range lp {
				for f := range lp[b] {
					for l, v := range lp[b][f] {
						bound.D[(f*B+b)*labels+l].V = v
					}
				}
			}
		}
		if err := G.Let(x, goVal(bound)); err != nil {
			t.Failf("binding refused: %v", err)
			return
		}
		if round > 0 {
			m.Reset()
		}
		if err := m.RunAll(); err != nil {
			t.Failf("round %d: run failed: %v", round, err)
			return
		}
		t.Trace(1)
		t.Trans(1)
		want := 0.0
		inf := make([]bool, B) // no alignment at all: no derivative
		anyInf := false
		gamma := make([][][]float64, B)
		weight := make([]float64, B)
		for b, q := range batch {
			l, gm, n := ctcRef(lp[b], q)
			t.Trans(n)
			t.State(fmt.Sprintf("%v %v %v", q, labels, l))
			weight[b] = 1
			if red == G.ReductionMean {
				weight[b] = 1 / float64(B)
				if len(q.word) > 0 {
					weight[b] /= float64(len(q.word))
				}
			}
			want += l * weight[b]
			gamma[b] = gm
			inf[b] = math.IsInf(l, 1)
			anyInf = anyInf || inf[b]
		}
		got, err := readValue(loss.Value())
		if err != nil {
			t.Failf("round %d: %v", round, err)
			return
		}
		if len(got.D) != 1 {
			t.Failf("round %d: the loss has %d elements", round, len(got.D))
			return
		}
		if v := got.D[0].V; !(v == want || math.Abs(v-want) <= tol*(1+math.Abs(want))) {
			t.Failf("round %d: loss is %v, the sum over all alignments gives %v", round, v, want)
			return
		}
		if how != "grad" || anyInf && ctx != 0 {
			continue
		}
		gr, err := readValue(dx[0].Value())
		if err != nil {
			t.Failf("round %d: gradient: %v", round, err)
			return
		}
		outer := 1.0
		if ctx == 1 {
			outer = 2 * want
		}
		t.Trans(1)
		for b, q := range batch {
			if inf[b] {
				continue
			}
			for f := 0; f < frames; f++ {
				for l := 0; l < labels; l++ {
					w := 0.0
					if f < q.n {
						w = (math.Exp(lp[b][f][l]) - gamma[b][f][l]) * weight[b] * outer
					}
					at := (f*B+b)*labels + l
					if ctx == 2 {
						w += 2 * scores.D[at].V
					}
					if v := gr.D[at].V; !(math.Abs(v-w) <= tol*10*(1+math.Abs(w))) {
						t.Failf("round %d: gradient of frame %d, sequence %d, label %d is %v, want %v", round, f, b, l, v, w)
						return
					}
				}
			}
		}
	}
}

func runC28(c *Ctx) {
	words := func(labels, max int) [][]int {
		r := [][]int{{}}
		for at := 0; at < len(r); at++ {
			if len(r[at]) < max {
				for l := 1; l < labels; l++ {
					r = append(r, append(append([]int{}, r[at]...), l))
				}
			}
		}
		return r
	}
	redName := map[G.Reduction]string{G.ReductionSum: "sum", G.ReductionMean: "mean"}
	each := func(frames, labels int, batch []ctcSeq, dts []string, full bool) {
		for _, dt := range dts {
			for _, twoD := range []bool{false, true} {
				for _, red := range []G.Reduction{G.ReductionSum, G.ReductionMean} {
					dt, twoD, red := dt, twoD, red
					one := func(how string, kind, ctx int) {
						tag := how
						if how == "grad" && red == G.ReductionMean {
							// the mean's own factor is missing: known where it is not one
							for _, q := range batch {
								if len(batch) > 1 || len(q.word) > 1 {
									tag = "meangrad"
								}
							}
							// one case shows it
							if tag == "meangrad" && !(len(batch) == 1 && frames == 3 && batch[0].n == 3 && labels == 2 && dt == "f64" && !twoD && ctx == 0) {
								return
							}
						}
						c.Case(func() string {
							return fmt.Sprintf("%s|%s|T=%d C=%d %v|2d=%v|%s|%s|ctx%d", tag, dt, frames, labels, batch, twoD, redName[red], kindName[kind], ctx)
						}, func(t *T) {
							ctcCase(t, dt, frames, labels, 1, batch, twoD, red, how, kind, ctx)
						})
					}
					c.Group(func() {
						one("fwd", kTape, 0)
						if full {
							one("fwd", kLispFwd, 0)
							one("grad", kTapeGrad, 1)
							one("grad", kTapeGrad, 2)
						}
						one("grad", kTapeGrad, 0)
					})
				}
			}
		}
	}
	dts := []string{"f64", "f32"}
	maxT, maxL := 5, 4
	if c.Thorough {
		maxT, maxL = 7, 6
	}
	// one sequence
	for labels := 2; labels <= 3; labels++ {
		for frames := 1; frames <= maxT; frames++ {
			for _, w := range words(labels, maxL) {
				for n := 0; n <= frames; n++ {
					each(frames, labels, []ctcSeq{{n, w}}, dts, true)
				}
			}
		}
	}
	for frames := 1; frames <= 3; frames++ {
		for _, w := range words(5, 2) {
			for n := 1; n <= frames; n++ {
				each(frames, 5, []ctcSeq{{n, w}}, dts, false)
			}
		}
	}
	// two sequences: every pair
	two := []int{3, 4}
	if c.Thorough {
		two = []int{2, 3, 4, 5}
	}
	for _, frames := range two {
		for labels := 2; labels <= 3; labels++ {
			l := 3
			if labels == 3 {
				l = 2
			}
			var seqs []ctcSeq
			for n := 0; n <= frames; n++ {
				for _, w := range words(labels, l) {
					seqs = append(seqs, ctcSeq{n, w})
				}
			}
			for _, a := range seqs {
				for _, b := range seqs {
					each(frames, labels, []ctcSeq{a, b}, dts, false)
				}
			}
		}
	}
	// three sequences of three frames, two labels
	var seqs []ctcSeq
	for n := 1; n <= 3; n++ {
		for _, w := range words(2, 2) {
			seqs = append(seqs, ctcSeq{n, w})
		}
	}
	for _, a := range seqs {
		for _, b := range seqs {
			for _, d := range seqs {
				each(3, 2, []ctcSeq{a, b, d}, dts[:1], false)
			}
		}
	}
}
