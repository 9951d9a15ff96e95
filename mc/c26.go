package main

// C26: the batched linear-algebra queue executes every call once, in order.

import (
	"fmt"
	"runtime"

	"gonum.org/v1/gonum/blas"
	"gonum.org/v1/gonum/blas/gonum"

	"verif/mc/blasegen"
	"verif/mc/vs"
)

func init() {
	register(&Check{ID: "C26", Run: runC26, HangSec: 240,
		Rule: "A case is a history of calls and flushes by one or two clients, with or without a goroutine that flushes when work is announced. The library's own source is compiled onto a controlled runtime in which every channel operation, lock and access to shared memory is a scheduling decision, and every inequivalent schedule is executed; results after each flush are compared with an implementation that executes each call at once. States are joint histories of the goroutines, transitions are scheduling steps, traces are complete executions.",
		Assumptions: []string{"without a goroutine that flushes when work is announced, a client lets at most three calls (the capacity) wait",
			"functions that are not batched execute at once: a client flushes before using their operands",
			"between two statements that use a field of the library's structures a goroutine runs without interruption"}})
}

// bcall is one call on the buffers of a client: four 2x2 matrices, of which the
// vectors are the first rows.
type bcall struct {
	name string
	f    func(b blas.Float64, m [][]float64)
}

var bcalls = []bcall{
	{"C=AB", func(b blas.Float64, m [][]float64) {
		b.Dgemm(blas.NoTrans, blas.NoTrans, 2, 2, 2, 1, m[0], 2, m[1], 2, 0, m[2], 2)
	}},
	{"B=C'A+B", func(b blas.Float64, m [][]float64) {
		b.Dgemm(blas.Trans, blas.NoTrans, 2, 2, 2, 1, m[2], 2, m[0], 2, 1, m[1], 2)
	}},
	{"D=B'c", func(b blas.Float64, m [][]float64) {
		b.Dgemv(blas.Trans, 2, 2, 1, m[1], 2, m[2], 1, 0, m[3], 1)
	}},
	{"A=-Bd+A", func(b blas.Float64, m [][]float64) {
		b.Dgemv(blas.NoTrans, 2, 2, -1, m[1], 2, m[3], 1, 1, m[0], 1)
	}},
}

func bbufs(salt int) [][]float64 {
	s := float64(salt)
	return [][]float64{{1 + s, 2, -1, 3}, {2, -1 - s, 1, 1}, {3, 1, 1, -2}, {1, -1, 2, 2 + s}}
}

func same64(a, b [][]float64) string {
	for i := range a {
		for j := range a[i] {
			if a[i][j] != b[i][j] {
				return fmt.Sprintf("%c is %v, want %v", 'A'+i, a[i], b[i])
			}
		}
	}
	return ""
}

// A bclient executes its history: 'f' flushes, digits are calls.
func bclient(o *xvmOut, b blasegen.B, who string, hist string, m, want [][]float64) {
	for i, e := range hist {
		if e == 'f' {
			b.DoWork()
			if d := same64(m, want); d != "" {
				o.failf("%safter step %d of %s: %s", who, i+1, hist, d)
			}
			continue
		}
		c := bcalls[e-'0']
		c.f(b, m)
		c.f(gonum.Implementation{}, want)
	}
}

// bworker flushes whenever work is announced, until stop.
func bworker(b blasegen.B, stop, gone *vs.Chan[struct{}]) {
	vs.Go(func() {
		for {
			s, w := vs.RecvOf(stop), vs.RecvOf(b.WorkAvailable())
			if vs.Select(false, s, w) == 0 {
				break
			}
			b.DoWork()
		}
		gone.Send(struct{}{})
	})
}

func runC26(c *Ctx) {
	// arguments
	for _, tA := range []blas.Transpose{blas.NoTrans, blas.Trans, blas.ConjTrans} {
		for _, tB := range []blas.Transpose{blas.NoTrans, blas.Trans, blas.ConjTrans} {
			for m := 1; m <= 3; m++ {
				for n := 1; n <= 3; n++ {
					for k := 1; k <= 3; k++ {
						tA, tB, m, n, k := tA, tB, m, n, k
						for pad := 0; pad < 8; pad++ {
							pad := pad
							c.Case(func() string { return fmt.Sprintf("gemm|%c%c|%d,%d,%d|%03b", tA, tB, m, n, k, pad) }, func(t *T) {
								gemmCase(t, tA, tB, m, n, k, pad)
							})
						}
					}
				}
			}
		}
		for m := 1; m <= 4; m++ {
			for n := 1; n <= 4; n++ {
				for pad := 0; pad < 2; pad++ {
					for _, incX := range []int{1, 2, -1} {
						for _, incY := range []int{1, 3, -2} {
							tA, m, n, pad, incX, incY := tA, m, n, pad, incX, incY
							c.Case(func() string { return fmt.Sprintf("gemv|%c|%d,%d|%d|%d,%d", tA, m, n, pad, incX, incY) }, func(t *T) {
								gemvCase(t, tA, m, n, pad, incX, incY)
							})
						}
					}
				}
			}
		}
	}
	// histories of one client that flushes itself
	depth := 8
	if c.Thorough {
		depth = 10
	}
	var seqs func(h string, pending int)
	seqs = func(h string, pending int) {
		if c.Stop() {
			return
		}
		if len(h) > 0 && h[len(h)-1] == 'f' {
			h := h
			c.Case(func() string { return "alone|" + h }, func(t *T) {
				xvmExplore(t, false, func(o *xvmOut) {
					bclient(o, blasegen.New(), "", h, bbufs(0), bbufs(0))
				})
			})
		}
		if len(h) == depth {
			return
		}
		seqs(h+"f", 0)
		if pending < 3 {
			for i := range bcalls {
				seqs(h+string(rune('0'+i)), pending+1)
			}
		}
	}
	seqs("", 0)
	// calls whose operands nobody else keeps
	for n := 1; n <= 3; n++ {
		for when := 0; when < 1<<n; when++ {
			for k := 0; k < 8; k++ {
				n, when, k := n, when, k
				c.Case(func() string { return fmt.Sprintf("kept|%d|%b|%03b", n, when, k) }, func(t *T) { keptCase(t, n, when, k) })
			}
		}
	}
	// one client and a goroutine that flushes
	max := 4
	if c.Thorough {
		max = 5
	}
	for n := 1; n <= max; n++ {
		for w := 1; w <= 2; w++ {
			if w == 2 && n > max-1 {
				continue
			}
			for f := 0; f < 1<<n; f++ {
				n, w, f := n, w, f
				h := ""
				for i := 0; i < n; i++ {
					h += string(rune('0' + (i+n)%len(bcalls)))
					if f>>i&1 == 1 || i == n-1 {
						h += "f"
					}
				}
				if f>>(n-1) == 1 {
					h += "f"
				}
				c.Case(func() string { return fmt.Sprintf("worker%d|%s", w, h) }, func(t *T) {
					xvmExplore(t, false, func(o *xvmOut) {
						b := blasegen.New()
						stop, gone := vs.Make[struct{}](), vs.Make[struct{}]()
						for i := 0; i < w; i++ {
							bworker(b, stop, gone)
						}
						bclient(o, b, "", h, bbufs(0), bbufs(0))
						stop.Close()
						for i := 0; i < w; i++ {
							gone.Recv()
						}
					})
				})
			}
		}
	}
	// two clients
	hs := []string{"0f", "01f", "0f1f", "012f"}
	for i, h1 := range hs {
		for _, h2 := range hs[i:] {
			for w := 0; w <= 1; w++ {
				h1, h2, w := h1, h2, w
				if w == 1 && len(h1)+len(h2) > 5+b2i(c.Thorough) {
					continue
				}
				if w == 0 && longestRun(h1)+longestRun(h2) > 4 {
					continue // both can wait for the other to flush
				}
				c.Case(func() string { return fmt.Sprintf("two|%s|%s|worker%d", h1, h2, w) }, func(t *T) {
					xvmExplore(t, false, func(o *xvmOut) {
						b := blasegen.New()
						stop, gone := vs.Make[struct{}](), vs.Make[struct{}]()
						if w == 1 {
							bworker(b, stop, gone)
						}
						done := vs.Make[struct{}]()
						vs.Go(func() {
							bclient(o, b, "second client: ", h2, bbufs(1), bbufs(1))
							done.Send(struct{}{})
						})
						bclient(o, b, "", h1, bbufs(0), bbufs(0))
						done.Recv()
						stop.Close()
						if w == 1 {
							gone.Recv()
						}
					})
				})
			}
		}
	}
}

// longestRun is the largest number of calls without a flush.
func longestRun(h string) int {
	max, n := 0, 0
	for _, e := range h {
		n++
		if e == 'f' {
			n = 0
		}
		if n > max {
			max = n
		}
	}
	return max
}

func counting(n, salt int) []float64 {
	x := make([]float64, n)
	for i := range x {
		x[i] = float64((i*7+salt*5)%11 - 5)
	}
	return x
}

func gemmCase(t *T, tA, tB blas.Transpose, m, n, k, pad int) {
	dims := func(tr blas.Transpose, r, c, p int) (rows, ld int) {
		if tr != blas.NoTrans {
			r, c = c, r
		}
		return r, c + p
	}
	ra, lda := dims(tA, m, k, pad&1)
	rb, ldb := dims(tB, k, n, pad>>1&1)
	ldc := n + pad>>2
	for _, alpha := range []float64{1, -2, 0} {
		for _, beta := range []float64{0, 1, 3} {
			a, b := counting(ra*lda, 1), counting(rb*ldb, 2)
			got, want := counting(m*ldc, 3), counting(m*ldc, 3)
			gonum.Implementation{}.Dgemm(tA, tB, m, n, k, alpha, a, lda, b, ldb, beta, want, ldc)
			xvmExplore(t, false, func(o *xvmOut) {
				q := blasegen.New()
				q.Dgemm(tA, tB, m, n, k, alpha, a, lda, b, ldb, beta, got, ldc)
				q.DoWork()
			})
			if d := same64([][]float64{got}, [][]float64{want}); d != "" {
				t.Failf("alpha %v beta %v: %s", alpha, beta, d)
			}
			if d := same64([][]float64{a, b}, [][]float64{counting(ra*lda, 1), counting(rb*ldb, 2)}); d != "" {
				t.Failf("operand changed: %s", d)
			}
		}
	}
}

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

func gemvCase(t *T, tA blas.Transpose, m, n, pad, incX, incY int) {
	lda := n + pad
	nx, ny := n, m
	if tA != blas.NoTrans {
		nx, ny = m, n
	}
	for _, alpha := range []float64{1, -2, 0} {
		for _, beta := range []float64{0, 1, 3} {
			a, x := counting(m*lda, 1), counting((nx-1)*abs(incX)+1, 2)
			got, want := counting((ny-1)*abs(incY)+1, 3), counting((ny-1)*abs(incY)+1, 3)
			gonum.Implementation{}.Dgemv(tA, m, n, alpha, a, lda, x, incX, beta, want, incY)
			xvmExplore(t, false, func(o *xvmOut) {
				q := blasegen.New()
				q.Dgemv(tA, m, n, alpha, a, lda, x, incX, beta, got, incY)
				q.DoWork()
			})
			if d := same64([][]float64{got}, [][]float64{want}); d != "" {
				t.Failf("alpha %v beta %v: %s", alpha, beta, d)
			}
		}
	}
}

var sink [][]float64

// keptCase queues n calls whose operands only the queue refers to; the garbage
// collector runs after the calls in when.
func keptCase(t *T, n, when, kinds int) {
	var res, want [][]float64
	xvmExplore(t, false, func(o *xvmOut) {
		res, want = nil, nil
		q := blasegen.New()
		for i := 0; i < n; i++ {
			r, w := make([]float64, 64), make([]float64, 64)
			res, want = append(res, r), append(want, w)
			queueOne(q, kinds>>i&1, i, r)
			queueOne(gonum.Implementation{}, kinds>>i&1, i, w)
			if when>>i&1 == 1 {
				runtime.GC()
				runtime.GC()
				for j := 0; j < 64; j++ {
					x := make([]float64, 64)
					for k := range x {
						x[k] = 1e6
					}
					sink = append(sink, x)
				}
				sink = nil
			}
		}
		q.DoWork()
	})
	if d := same64(res, want); d != "" {
		t.Failf("%s", d)
	}
}

//go:noinline
func queueOne(b blas.Float64, kind, i int, r []float64) {
	a, x := counting(64, i), counting(64, i+1)
	if kind == 0 {
		b.Dgemm(blas.NoTrans, blas.NoTrans, 8, 8, 8, 1, a, 8, x, 8, 0, r, 8)
	} else {
		b.Dgemv(blas.NoTrans, 8, 8, 1, a, 8, x, 1, 0, r, 8)
	}
}
