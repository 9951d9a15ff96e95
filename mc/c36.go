package main

// C36: a trace dump holds every finished step once.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/x/dataviz"
	xvm "gorgonia.org/gorgonia/x/vm"
)

func init() {
	register(&Check{ID: "C36", Run: runC36, Procs: 1,
		Rule: "A case is a sequence of trace events (node, state, finished or not, times) given to DumpTrace, or the events of a traced run of a program on the concurrent machine. The document is decoded and its steps, with group, label, node and times, must be exactly the finished events. states: distinct documents; transitions: events; traces: documents compared."})
}

type dumpStep struct{ group, label, val, start, end string }

// decodeDump reads a document back; the order of groups is free, within a
// group steps stay in the order of the events.
func decodeDump(b []byte) (map[string][]dumpStep, error) {
	var doc []struct {
		Group string `json:"group"`
		Data  []struct {
			Label string `json:"label"`
			Data  []struct {
				TimeRange []time.Time `json:"timeRange"`
				Val       interface{} `json:"val"`
			} `json:"data"`
		} `json:"data"`
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	if err := dec.Decode(&doc); err != nil {
		return nil, err
	}
	r := map[string][]dumpStep{}
	for _, g := range doc {
		if _, ok := r[g.Group]; ok {
			return nil, fmt.Errorf("group %q occurs twice", g.Group)
		}
		for _, d := range g.Data {
			for _, l := range d.Data {
				if len(l.TimeRange) != 2 {
					return nil, fmt.Errorf("a time range of %d times", len(l.TimeRange))
				}
				r[g.Group] = append(r[g.Group], dumpStep{g.Group, d.Label, fmt.Sprint(l.Val), l.TimeRange[0].UTC().Format(time.RFC3339Nano), l.TimeRange[1].UTC().Format(time.RFC3339Nano)})
			}
		}
	}
	return r, nil
}

func dumpCase(t *T, g *G.ExprGraph, evs []xvm.Trace) {
	in := append([]xvm.Trace{}, evs...)
	var buf bytes.Buffer
	if err := dataviz.DumpTrace(in, g, &buf); err != nil {
		t.Failf("DumpTrace: %v", err)
	}
	for i := range in {
		if in[i] != evs[i] {
			t.Failf("event %d was changed", i)
		}
	}
	got, err := decodeDump(buf.Bytes())
	if err != nil {
		t.Failf("the document cannot be read back: %v", err)
	}
	names := map[int64]string{}
	for _, n := range g.AllNodes() {
		names[n.ID()] = n.Name()
	}
	want := map[string][]dumpStep{}
	for _, e := range evs {
		if e.End.IsZero() {
			continue
		}
		want[e.StateFunction] = append(want[e.StateFunction], dumpStep{e.StateFunction, names[e.ID], fmt.Sprint(e.ID), e.Start.UTC().Format(time.RFC3339Nano), e.End.UTC().Format(time.RFC3339Nano)})
	}
	// steps of one label may be listed together
	for _, m := range []map[string][]dumpStep{got, want} {
		for _, l := range m {
			sort.SliceStable(l, func(i, j int) bool { return l[i].label < l[j].label })
		}
	}
	if a, b := fmt.Sprint(got), fmt.Sprint(want); a != b {
		t.Failf("the document holds %s, want %s", a, b)
	}
	t.State(strings.ReplaceAll(fmt.Sprint(want), "2020", ""))
	t.Trans(len(evs))
	t.Trace(1)
}

func runC36(c *Ctx) {
	g := G.NewGraph()
	x := newBoundInput(g, "x", genRT("f64", 0, 1, 2))
	y := newBoundInput(g, "y \"quoted\" <&> ü", genRT("f64", 0, 2, 2))
	n, err := G.Add(x, y)
	if err != nil {
		panic(err)
	}
	nodes := []*G.Node{x, y, n}
	base := time.Date(2020, 1, 2, 3, 4, 5, 6789, time.UTC)
	max := 4
	if c.Thorough {
		max = 5
	}
	// an event: node (3), state (2), unfinished, finished, finished at once
	for _, seq := range sequences(18, max, false) {
		seq := seq
		c.Case(func() string { return fmt.Sprintf("events|%v", seq) }, func(t *T) {
			var evs []xvm.Trace
			for i, k := range seq {
				e := xvm.Trace{ID: nodes[k%3].ID(), StateFunction: []string{"state.one", "state.two"}[k/3%2], Start: base.Add(time.Duration(i) * time.Second)}
				switch k / 6 {
				case 1:
					e.End = e.Start.Add(time.Duration(k) * time.Millisecond)
				case 2:
					e.End = e.Start
				}
				evs = append(evs, e)
			}
			dumpCase(t, g, evs)
		})
	}
	// the events of real runs
	var ins []*RT
	for i := 0; i < 2; i++ {
		ins = append(ins, genRT("f64", 0, i, 2, 2))
	}
	enumProgs(c, "f64", ins, nil, coreAlpha(), 1, EnumOpts{Skip: skipLogSoftmax}, func(p *Prog) {
		c.Case(func() string { return "run|" + p.String() }, func(t *T) {
			g := G.NewGraph()
			if _, err := p.build(g); err != nil {
				t.Failf("build: %v", err)
			}
			ctx, tc := xvm.WithTracing(context.Background())
			var evs []xvm.Trace
			got := make(chan bool)
			go func() {
				for e := range tc {
					evs = append(evs, e)
				}
				close(got)
			}()
			m := xvm.NewMachine(g)
			if err := m.Run(ctx); err != nil {
				t.Failf("run: %v", err)
			}
			xvm.CloseTracing(ctx)
			<-got
			m.Close()
			if len(evs) == 0 {
				t.Failf("nothing was traced")
			}
			for i := range evs {
				evs[i].Start = evs[i].Start.Round(0) // without the monotonic clock
				if !evs[i].End.IsZero() {
					evs[i].End = evs[i].End.Round(0)
				}
			}
			dumpCase(t, g, evs)
		})
	})
}
