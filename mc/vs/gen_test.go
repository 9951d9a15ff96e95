package vs

import (
	"fmt"
	"sort"
	"strings"
	"testing"
)

// A program of the family: every goroutine executes a list of operations on
// two channels and an event.
type world struct {
	c, d *Chan[int]
	ev   *Event
	lock *Lock
	wg   *Counter
	log  [4][]string
}

var alphabet = []struct {
	name string
	f    func(w *world, me int) string
}{
	{"c<", func(w *world, me int) string { w.c.Send(me); return "" }},
	{"<c", func(w *world, me int) string { v, ok := w.c.Recv2(); return fmt.Sprint(v, ok) }},
	{"d<", func(w *world, me int) string { w.d.Send(me + 10); return "" }},
	{"<d", func(w *world, me int) string { v, ok := w.d.Recv2(); return fmt.Sprint(v, ok) }},
	{"close d", func(w *world, me int) string { w.d.Close(); return "" }},
	{"cancel", func(w *world, me int) string {
		Atomic(w.ev.Mark, func() []*Event { return []*Event{w.ev} })
		return ""
	}},
	{"<c|done", func(w *world, me int) string {
		x, y := RecvOf(w.c), RecvOf(w.ev.C)
		return fmt.Sprint(Select(false, x, y), x.V)
	}},
	{"c<|done", func(w *world, me int) string {
		x, y := SendOf(w.c, me), RecvOf(w.ev.C)
		return fmt.Sprint(Select(false, x, y))
	}},
	{"<c|<d", func(w *world, me int) string {
		x, y := RecvOf(w.c), RecvOf(w.d)
		return fmt.Sprint(Select(false, x, y), x.V, y.V)
	}},
	{"c<|<d", func(w *world, me int) string {
		x, y := SendOf(w.c, me), RecvOf(w.d)
		return fmt.Sprint(Select(false, x, y), y.V)
	}},
	{"<c|default", func(w *world, me int) string {
		x := RecvOf(w.c)
		return fmt.Sprint(Select(true, x), x.V)
	}},
	{"lock", func(w *world, me int) string {
		w.lock.Acquire(true)
		w.lock.Release(true)
		return ""
	}},
}

// Outcomes explores one program of the family and returns its outcomes.
func famOutcomes(naive bool, capC int, ths [][]int) (map[string]bool, *Explorer) {
	e := &Explorer{Naive: naive, MaxSteps: 200}
	var w *world
	out := map[string]bool{}
	e.Explore(func() {
		w = &world{c: Make[int](capC), d: Make[int](), ev: NewEvent(), lock: &Lock{}}
		for i := range ths {
			i := i
			body := func() {
				for _, a := range ths[i] {
					w.log[i] = append(w.log[i], alphabet[a].f(w, i))
				}
			}
			if i == len(ths)-1 {
				body()
			} else {
				Go(body)
			}
		}
	}, func(r *Result) bool {
		var ps []string
		for _, p := range r.Panics {
			ps = append(ps, strings.SplitN(p, "\n", 2)[0])
		}
		sort.Strings(ps)
		out[fmt.Sprint(w.log, r.Finished, len(r.Blocked), ps)] = true
		return true
	})
	return out, e
}

func TestFamily(t *testing.T) {
	lens := [][]int{{1, 1, 2}, {1, 1, 1, 1}}
	if !testing.Short() {
		lens = append(lens, []int{1, 2, 2})
	}
	n, en, er, pr := 0, 0, 0, 0
	for _, l := range lens {
		total := 0
		for _, x := range l {
			total += x
		}
		word := make([]int, total)
		var rec func(k int)
		rec = func(k int) {
			if k < total {
				for a := range alphabet {
					word[k] = a
					rec(k + 1)
				}
				return
			}
			var ths [][]int
			at := 0
			for _, x := range l {
				ths = append(ths, word[at:at+x])
				at += x
			}
			for capC := 0; capC <= 1; capC++ {
				full, fe := famOutcomes(true, capC, ths)
				red, re := famOutcomes(false, capC, ths)
				n++
				en, er, pr = en+fe.Execs, er+re.Execs, pr+re.Pruned
				if fmt.Sprint(full) != fmt.Sprint(red) {
					t.Errorf("cap %d %v: full %v reduced %v", capC, ths, full, red)
					if n > 5 {
						t.FailNow()
					}
				}
			}
		}
		rec(0)
	}
	t.Logf("%d programs, %d unreduced executions, %d reduced, %d redundant", n, en, er, pr)
}
