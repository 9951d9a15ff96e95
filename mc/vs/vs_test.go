package vs

import (
	"fmt"
	"sort"
	"strings"
	"testing"
)

// outcomes collects the set of outcomes a program can have.
func outcomes(naive bool, prog func(out *[]string)) (map[string]int, *Explorer) {
	e := &Explorer{Naive: naive, MaxExecs: 2000000, MaxSteps: 1000}
	res := map[string]int{}
	var out []string
	e.Explore(func() { out = nil; prog(&out) }, func(r *Result) bool {
		b := append([]string{}, r.Blocked...)
		sort.Strings(b)
		var ps []string
		for _, p := range r.Panics {
			ps = append(ps, strings.SplitN(p, "\n", 2)[0])
		}
		sort.Strings(ps)
		res[fmt.Sprint(out, r.Finished, len(b), ps)]++
		return true
	})
	return res, e
}

var progs = map[string]func(out *[]string){
	"two senders": func(out *[]string) {
		c := Make[int]()
		Go(func() { c.Send(1) })
		Go(func() { c.Send(2) })
		*out = append(*out, fmt.Sprint(c.Recv(), c.Recv()))
	},
	"buffered": func(out *[]string) {
		c := Make[int](1)
		Go(func() { c.Send(1); c.Send(3) })
		Go(func() { c.Send(2) })
		*out = append(*out, fmt.Sprint(c.Recv(), c.Recv(), c.Recv()))
	},
	"select": func(out *[]string) {
		a, b := Make[int](), Make[int]()
		d := Make[int](2)
		Go(func() { a.Send(1); d.Send(7) })
		Go(func() { b.Send(2); d.Send(8) })
		for i := 0; i < 2; i++ {
			x, y := RecvOf(a), RecvOf(b)
			switch Select(false, x, y) {
			case 0:
				*out = append(*out, fmt.Sprint("a", x.V))
			case 1:
				*out = append(*out, fmt.Sprint("b", y.V))
			}
		}
		*out = append(*out, fmt.Sprint(d.Recv()))
	},
	"default": func(out *[]string) {
		a := Make[int]()
		Go(func() { a.Send(1) })
		x := RecvOf(a)
		*out = append(*out, fmt.Sprint(Select(true, x)))
	},
	"close": func(out *[]string) {
		a := Make[int](1)
		b := Make[int]()
		Go(func() { a.Send(1); a.Close() })
		Go(func() {
			for {
				v, ok := a.Recv2()
				if !ok {
					break
				}
				b.Send(v)
			}
			b.Close()
		})
		x := RecvOf(b)
		y := RecvOf(a)
		*out = append(*out, fmt.Sprint(Select(false, x, y), x.OK, y.OK))
	},
	"send on closed": func(out *[]string) {
		a := Make[int](1)
		Go(func() { a.Send(1) })
		a.Close()
	},
	"defaults": func(out *[]string) {
		a, b := Make[int](), Make[int](1)
		Go(func() { x := SendOf(a, 3); y := SendOf(b, 4); Select(true, x, y) })
		Go(func() { x := RecvOf(b); *out = append(*out, fmt.Sprint("t", Select(true, x))) })
		x, y := RecvOf(a), RecvOf(b)
		*out = append(*out, fmt.Sprint("m", Select(false, x, y)))
		sort.Strings(*out)
	},
	"crossed": func(out *[]string) {
		a, b := Make[int](), Make[int]()
		for i := 0; i < 2; i++ {
			i := i
			Go(func() {
				x := RecvOf(a)
				switch Select(false, x, SendOf(b, i)) {
				case 0:
					*out = append(*out, fmt.Sprint(i, "got", x.V))
				}
			})
		}
		x := RecvOf(b)
		switch Select(false, SendOf(a, 9), x) {
		case 1:
			*out = append(*out, fmt.Sprint("main got ", x.V))
		}
		y := RecvOf(b)
		switch Select(false, SendOf(a, 8), y) {
		case 1:
			*out = append(*out, fmt.Sprint("main got ", y.V))
		}
		sort.Strings(*out)
	},
	"deadlock": func(out *[]string) {
		a, b := Make[int](), Make[int]()
		Go(func() { a.Send(1); b.Send(1) })
		Go(func() { b.Send(2); a.Send(2) })
		*out = append(*out, fmt.Sprint(a.Recv()))
		*out = append(*out, fmt.Sprint(b.Recv()))
	},
	"locks": func(out *[]string) {
		l := &Lock{}
		w := &Counter{}
		x := 0
		for i := 1; i <= 2; i++ {
			i := i
			w.Add(1)
			Go(func() {
				l.Acquire(true)
				x = x*10 + i
				l.Release(true)
				l.Acquire(true)
				x = x*10 + i
				l.Release(true)
				w.Add(-1)
			})
		}
		w.Wait()
		*out = append(*out, fmt.Sprint(x))
	},
	"readers": func(out *[]string) {
		l := &Lock{}
		w := &Counter{}
		x := 0
		for i := 1; i <= 3; i++ {
			i := i
			w.Add(1)
			Go(func() {
				l.Acquire(i == 1)
				if i == 1 {
					x = 1
				} else {
					*out = append(*out, fmt.Sprint(i, x))
				}
				l.Release(i == 1)
				w.Add(-1)
			})
		}
		w.Wait()
		sort.Strings(*out)
	},
}

func TestReduction(t *testing.T) {
	for name, p := range progs {
		full, en := outcomes(true, p)
		red, er := outcomes(false, p)
		if en.Truncated || er.Truncated {
			t.Errorf("%s: truncated", name)
		}
		for k := range full {
			if red[k] == 0 {
				t.Errorf("%s: the reduced exploration misses %s", name, k)
			}
		}
		for k := range red {
			if full[k] == 0 {
				t.Errorf("%s: the reduced exploration invents %s", name, k)
			}
		}
		t.Logf("%s: naive %d, reduced %d (+%d), %v", name, en.Execs, er.Execs, er.Pruned, red)
	}
}
