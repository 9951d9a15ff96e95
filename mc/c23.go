package main

// C23: the concurrent machine stops cleanly on failure or cancellation.

import (
	"context"
	"errors"
	"fmt"
	"hash"
	"hash/fnv"
	"os"
	"strings"
	"time"

	G "gorgonia.org/gorgonia"
	xvm "gorgonia.org/gorgonia/x/vm"

	"verif/mc/vs"
	"verif/mc/vs/vcontext"
	"verif/mc/xvmgen"
)

func init() {
	register(&Check{ID: "C23", Run: runC23, Procs: 1, HangSec: 240,
		Rule:        "A case is an expression graph, the set of operations that fail in the first run, whether another goroutine cancels (at every moment a schedule allows) and how the run is traced. The machine's own source runs on a controlled runtime and every inequivalent schedule is executed. States are joint histories of the goroutines, transitions are scheduling steps, traces are complete executions.",
		Assumptions: []string{"goroutines of the concurrent machine share data only through channels, contexts and the sync package; a goroutine runs without interruption between two such operations"}})
}

// faultOp is an operation that may fail.
type faultOp struct {
	G.Op
	n    int
	hook func() error
}

func (o *faultOp) Do(vs ...G.Value) (G.Value, error) {
	if err := o.hook(); err != nil {
		return nil, err
	}
	return o.Op.Do(vs...)
}
func (o *faultOp) String() string        { return fmt.Sprintf("fault%d %v", o.n, o.Op) }
func (o *faultOp) WriteHash(h hash.Hash) { fmt.Fprintf(h, "fault%d", o.n); o.Op.WriteHash(h) }
func (o *faultOp) Hashcode() uint32 {
	h := fnv.New32a()
	o.WriteHash(h)
	return h.Sum32()
}

// buildFaulty builds p with every operation wrapped; hook is called before
// instruction i is executed.
func buildFaulty(p *Prog, g *G.ExprGraph, hook func(i int) error) ([]*G.Node, error) {
	q := &Prog{DT: p.DT, NIn: p.NIn, Const: p.Const, Vals: p.Vals[:p.NIn]}
	nodes, err := q.build(g)
	if err != nil {
		return nil, err
	}
	for i, in := range p.Instrs {
		i := i
		var args, scratch []*G.Node
		sg := G.NewGraph()
		for j, a := range in.Args {
			args = append(args, nodes[a])
			scratch = append(scratch, newInput(sg, fmt.Sprint("s", j), p.Vals[a]))
		}
		s, err := in.Op.Build(scratch)
		if err != nil {
			return nil, err
		}
		n, err := G.ApplyOp(&faultOp{s.Op(), i, func() error { return hook(i) }}, args...)
		if err != nil {
			return nil, err
		}
		nodes = append(nodes, n)
	}
	return nodes, nil
}

const (
	trNone    = iota // no tracing
	trSink           // every event is taken at once
	trReader         // a goroutine receives until the end
	trQuitter        // from here on: a goroutine receives trace-trQuitter events and gives up
)

type stopCase struct {
	fail   int // mask of failing instructions
	cancel int // 0 never, 1 at any time, 2 before the run
	trace  int
	again  bool // a second, healthy run follows
}

func (s stopCase) String() string {
	return fmt.Sprintf("fail=%b cancel=%d trace=%d again=%v", s.fail, s.cancel, s.trace, s.again)
}

func xvmStop(o *xvmOut, p *Prog, sc stopCase) {
	tol := tolFor(p.DT, p.scale())
	healthy := false
	ran := make([]int, len(p.Instrs))
	g := G.NewGraph()
	nodes, err := buildFaulty(p, g, func(i int) error {
		ran[i]++
		if !healthy && sc.fail>>i&1 == 1 {
			return errors.New("planned failure")
		}
		return nil
	})
	if err != nil {
		o.failf("build: %v", err)
		return
	}
	values := func(m xvmgen.M) {
		for i, n := range nodes {
			if d := diffValue(m.GetResult(n.ID()), p.Vals[i], tol); d != "" {
				o.failf("value %d: %s", i, d)
			}
		}
	}
	entered := map[int64][]string{}
	xvmgen.Enter = func(id int64, state string) { entered[id] = append(entered[id], state) }
	events := map[int64][]xvmgen.Ev{}
	m := xvmgen.New(g)
	ctx := vcontext.Background()
	var cancel func()
	if sc.cancel != 0 {
		c, f := vcontext.WithCancel(ctx)
		ctx, cancel = c, func() { f() }
	}
	run := ctx
	note := func(e xvmgen.Ev) { events[e.ID] = append(events[e.ID], e) }
	readerDone := vs.NewEvent()
	switch sc.trace {
	case trSink:
		run, _ = xvmgen.Tracing(ctx, note)
	case trNone:
	default:
		c, recv := xvmgen.Tracing(ctx, nil)
		run = c
		vs.Go(func() {
			for k := 0; sc.trace == trReader || k < sc.trace-trQuitter; k++ {
				e, ok := recv()
				if !ok {
					break
				}
				note(e)
			}
			vs.Atomic(readerDone.Mark, func() []*vs.Event { return []*vs.Event{readerDone} })
		})
	}
	switch sc.cancel {
	case 1:
		vs.Go(cancel)
	case 2:
		cancel()
	}
	err = m.Run(run)
	if sc.trace != trNone {
		xvmgen.StopTracing(run)
	}
	if sc.trace >= trReader {
		readerDone.C.Recv()
	}
	failed := false
	for i, n := range ran {
		if n > 1 {
			o.failf("instruction %d was executed %d times", i, n)
		}
		failed = failed || n > 0 && sc.fail>>i&1 == 1
	}
	switch {
	case err == nil:
		if failed {
			o.failf("an operation failed and the run reports success")
		}
		if sc.fail != 0 && sc.cancel == 0 && sc.trace < trQuitter {
			o.failf("success although an operation must fail")
		}
		values(m)
	case failed:
		if !strings.Contains(err.Error(), "planned failure") {
			o.failf("an operation failed and the run reports %q", err)
		}
	case sc.cancel != 0:
		if !strings.Contains(err.Error(), context_canceled) {
			o.failf("cancelled, reported as %q", err)
		}
	default:
		o.failf("no failure and no cancellation, but the run reports %q", err)
	}
	if sc.trace == trSink || sc.trace == trReader {
		for id := range events {
			known := false
			for _, n := range nodes {
				known = known || n.ID() == id
			}
			if !known {
				o.failf("event of an unknown node %d", id)
			}
		}
		for i, n := range nodes {
			var want []string
			for _, s := range entered[n.ID()] {
				want = append(want, s+" start", s+" end")
			}
			var got []string
			for _, e := range events[n.ID()] {
				w := " start"
				if e.End {
					w = " end"
				}
				got = append(got, e.State[strings.LastIndexByte(e.State, '.')+1:]+w)
			}
			if sc.cancel == 0 && sc.fail == 0 {
				if len(got) == 0 || len(got)%2 != 0 {
					o.failf("value %d: events %v", i, got)
				}
				for k := 0; k+1 < len(got); k += 2 {
					if strings.TrimSuffix(got[k], " start") != strings.TrimSuffix(got[k+1], " end") {
						o.failf("value %d: events %v", i, got)
					}
				}
				if xvmgen.Logs && fmt.Sprint(want) != fmt.Sprint(got) {
					o.failf("value %d went through %v, events %v", i, entered[n.ID()], got)
				}
			} else if xvmgen.Logs {
				// events may be lost when a run is broken off, never reordered
				k := 0
				for _, w := range want {
					if k < len(got) && got[k] == w {
						k++
					}
				}
				if k < len(got) {
					o.failf("value %d went through %v, events %v", i, entered[n.ID()], got)
				}
			}
		}
	}
	if sc.again && o.bad == "" {
		healthy = true
		if err := m.Run(vcontext.Background()); err != nil {
			o.failf("second run: %v", err)
		}
		values(m)
	}
	m.Close()
}

// xvmNativeStop runs the machine as it is under the one schedule that happens.
func xvmNativeStop(t *T, p *Prog, sc stopCase) {
	g := G.NewGraph()
	nodes, err := buildFaulty(p, g, func(i int) error {
		if sc.fail>>i&1 == 1 {
			return errors.New("planned failure")
		}
		return nil
	})
	if err != nil {
		t.Failf("build: %v", err)
	}
	m := xvm.NewMachine(g)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	switch sc.cancel {
	case 1:
		go cancel()
	case 2:
		cancel()
	}
	done := make(chan error, 1)
	go func() { done <- m.Run(ctx) }()
	select {
	case err = <-done:
	case <-time.After(60 * time.Second):
		t.Failf("the native run does not return")
	}
	m.Close()
	t.Count("native", 1)
	switch {
	case err != nil && sc.cancel == 0 && sc.fail == 0:
		t.Failf("native run: %v", err)
	case err == nil && sc.fail != 0 && sc.cancel == 0:
		t.Failf("native run: no failure reported")
	case err == nil && sc.fail == 0:
		for i, n := range nodes {
			if d := diffValue(m.GetResult(n.ID()), p.Vals[i], tolFor(p.DT, p.scale())); d != "" {
				t.Failf("native run: value %d: %s", i, d)
			}
		}
	}
}

const context_canceled = "context canceled"

func runC23(c *Ctx) {
	sub, neg := bops("Sub")[0], uops("Neg")[0]
	vec := func(i int) *RT { return genRT("f64", 1, i, 2) }
	run := func(p *Prog, sc stopCase) {
		p = p.clone()
		c.Case(func() string { return fmt.Sprintf("%s|%s", p, sc) }, func(t *T) {
			e := xvmExplore(t, false, func(o *xvmOut) { xvmStop(o, p, sc) })
			if xvmDebug {
				fmt.Println(p, sc, e.Execs, e.Pruned, e.Steps)
			}
			if sc.trace == trNone && !sc.again {
				xvmNativeStop(t, p, sc)
			}
		})
	}
	each := func(n, nin int, f func(p *Prog)) {
		var ins []*RT
		for i := 0; i < nin; i++ {
			ins = append(ins, vec(i))
		}
		enumProgs(c, "f64", ins, nil, []*Op{sub, neg}, n, EnumOpts{NoDup: true}, func(p *Prog) {
			if allReached(p) {
				f(p)
			}
		})
	}
	for n := 1; n <= 2; n++ {
		for nin := 1; nin <= 2; nin++ {
			size := n + nin
			if size > 3 && !c.Thorough {
				continue
			}
			each(n, nin, func(p *Prog) {
				for fail := 0; fail < 1<<n; fail++ {
					run(p, stopCase{fail, 0, trNone, false})
					if size <= 2 || size <= 3 && (fail == 0 || c.Thorough) {
						run(p, stopCase{fail, 0, trSink, false})
					}
					if size <= 2 {
						run(p, stopCase{fail, 0, trReader, false})
					}
					if fail != 0 && size <= 3 {
						run(p, stopCase{fail, 0, trNone, true})
					}
					if size > 3 && fail != 0 {
						continue
					}
					for cancel := 1; cancel <= 2; cancel++ {
						run(p, stopCase{fail, cancel, trNone, false})
						if size <= 2 {
							run(p, stopCase{fail, cancel, trNone, true})
						}
						if size > 3 || fail != 0 || size > 2 && !c.Thorough {
							continue
						}
						run(p, stopCase{fail, cancel, trQuitter, false})
						if size <= 2 {
							run(p, stopCase{fail, cancel, trQuitter + 1, false})
							if c.Thorough {
								run(p, stopCase{fail, cancel, trQuitter + 2, false})
							}
						}
					}
				}
			})
		}
	}
}

var xvmDebug = os.Getenv("XV") != ""
