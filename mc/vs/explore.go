package vs

import "fmt"

// Key identifies a step: goroutine A takes alternative CA, together with
// goroutine B taking CB when a value is handed over directly.
type Key struct{ A, CA, B, CB int }

type cand struct {
	key  Key
	ts   [2]*thread
	acc  []access
	fire func()
}

type event struct {
	ts   [2]int // thread indices, -1: none
	n    int32  // number of the event in ts[0]
	key  Key
	clk  []int32
	acc  []access
	done bool // subtraction from a counter
}

type frame struct {
	enabled []Key
	accs    [][]access
	sleep   map[Key][]access
	tried   map[Key]bool
	cur     int
	all     bool
	need    map[int]bool // goroutines that have to be let run here
	needK   map[Key]bool // steps that have to be explored here
}

func (f *frame) needs(k Key) bool { return f.needK[k] || f.need[k.A] || k.B >= 0 && f.need[k.B] }

func (f *frame) has(k Key) bool {
	for _, e := range f.enabled {
		if e == k {
			return true
		}
	}
	return false
}

func (f *frame) canRun(id int) bool {
	for _, k := range f.enabled {
		if k.A == id || k.B == id {
			return true
		}
	}
	return false
}

// alternative reports whether k is another choice of a goroutine that has
// already been let run here.
func (f *frame) alternative(k Key) bool {
	for o := range f.tried {
		if dependent(o, nil, k, nil) {
			return true
		}
	}
	return false
}

// Explorer enumerates every inequivalent schedule of a concurrent program:
// dynamic partial order reduction with sleep sets, complete for programs that
// terminate and share data only through the operations of this package.
type Explorer struct {
	Naive    bool           // no reduction
	OnState  func(h uint64) // called with an identification of every state reached
	MaxSteps int
	MaxExecs int

	ids    map[tkey]int
	frames []*frame

	Execs, Pruned, Steps int
	Truncated            bool
}

// Result is the outcome of one execution.
type Result struct {
	Finished bool     // the main function returned
	Blocked  []string // goroutines that can never continue
	Panics   []string
	TooLong  bool
	Schedule []Key
}

func (t *thread) describe() string {
	op := t.op
	if op == nil {
		return fmt.Sprintf("g%d", t.id)
	}
	k := []string{"channel operation", "close", "cancel", "look", "add", "wait", "lock", "unlock", "yield"}[op.kind]
	if op.kind == kSelect {
		k = ""
		for _, c := range op.cases {
			d := "receive"
			if c.send {
				d = "send"
			}
			id := -1
			if c.ch != nil {
				id = c.ch.id
			}
			k += fmt.Sprintf(" %s#%d", d, id)
		}
	}
	return fmt.Sprintf("g%d at%s", t.id, " "+k)
}

// accessesOf lists what the pending operation of t could touch, as seen by the
// race detection.
func accessesOf(t *thread) []access {
	op := t.op
	switch op.kind {
	case kSelect:
		var a []access
		for _, c := range op.cases {
			if c.ch != nil {
				m := uint8(aWrite)
				if c.ch.event {
					m = aRead
				}
				if c.ch.sink != nil && c.send {
					m = aAdd
				}
				a = append(a, access{c.ch.id, m})
			}
		}
		return a
	}
	return execAccesses(t, -1)
}

// execAccesses lists what executing the pending operation of t (alternative i)
// touches.
func execAccesses(t *thread, i int) []access {
	op := t.op
	switch op.kind {
	case kSelect:
		var a []access
		for j, c := range op.cases {
			if c.ch == nil {
				continue
			}
			m := uint8(aRead)
			if j == i && !(c.ch.closed && !c.send && c.ch.n == 0) {
				m = aWrite
				if c.ch.sink != nil && c.send {
					m = aAdd
				}
			}
			a = append(a, access{c.ch.id, m})
		}
		return a
	case kCancel:
		var a []access
		for _, o := range op.objs() {
			m := uint8(aWrite)
			if o.closed {
				m = aRead
			}
			a = append(a, access{o.id, m})
		}
		return a
	case kRead, kWait:
		return []access{{op.obj.id, aRead}}
	case kAdd:
		return []access{{op.obj.id, aAdd}}
	case kClose, kLock, kUnlock:
		return []access{{op.obj.id, aWrite}}
	}
	return nil
}

// enabled lists the steps that are possible; only restricts it to one.
func (s *Sched) enabled(only *Key) []cand {
	var out []cand
	for _, t := range s.threads {
		t := t
		if t.done || t.op == nil {
			continue
		}
		if only != nil && t.id != only.A && t.id != only.B {
			continue
		}
		op := t.op
		switch op.kind {
		case kSelect:
			ready := false
			for i := range op.cases {
				i := i
				c := &op.cases[i]
				if c.ch == nil {
					continue
				}
				one := func(f func()) {
					ready = true
					out = append(out, cand{Key{t.id, i, -1, 0}, [2]*thread{t}, execAccesses(t, i), func() { op.chosen = i; f() }})
				}
				if c.send {
					switch {
					case c.ch.closed:
						one(func() { op.run = func() {} })
					case c.ch.sink != nil:
						one(func() { c.ch.sink(c.val()) })
					case c.ch.n < c.ch.capn:
						one(c.put)
					}
					continue
				}
				switch {
				case c.ch.n > 0:
					one(c.take)
				case c.ch.closed:
					one(c.take)
				case c.ch.capn == 0:
					for _, u := range s.threads {
						u := u
						if u == t || u.done || u.op == nil || u.op.kind != kSelect || only != nil && u.id != only.A {
							continue
						}
						for j := range u.op.cases {
							j := j
							d := &u.op.cases[j]
							if d.ch != c.ch || !d.send {
								continue
							}
							uop := u.op
							acc := append(append([]access{}, execAccesses(t, i)...), execAccesses(u, j)...)
							out = append(out, cand{Key{u.id, j, t.id, i}, [2]*thread{u, t}, acc, func() {
								op.chosen, uop.chosen = i, j
								c.fill(d.val(), true)
							}})
						}
					}
				}
			}
			// a partner at an unbuffered channel may not have arrived yet
			if op.def && !ready {
				out = append(out, cand{Key{t.id, -1, -1, 0}, [2]*thread{t}, execAccesses(t, -1), func() { op.chosen = -1 }})
			}
		default:
			if op.wait != nil && !op.wait() {
				continue
			}
			out = append(out, cand{Key{t.id, 0, -1, 0}, [2]*thread{t}, execAccesses(t, -1), func() {
				if op.run != nil {
					op.run()
				}
			}})
		}
	}
	return out
}

func dependent(k1 Key, a1 []access, k2 Key, a2 []access) bool {
	if k1.A == k2.A || k1.A == k2.B || k1.B >= 0 && (k1.B == k2.A || k1.B == k2.B) {
		return true
	}
	for _, x := range a1 {
		for _, y := range a2 {
			if x.obj == y.obj && conflict(x.mode, y.mode) {
				return true
			}
		}
	}
	return false
}

type objClock struct{ w, r, a []int32 }

func join(a, b []int32) []int32 {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, v := range b {
		if v > a[i] {
			a[i] = v
		}
	}
	return a
}

// Explore runs main under every inequivalent schedule; visit is called after
// each complete execution and stops the exploration by returning false.
func (x *Explorer) Explore(main func(), visit func(r *Result) bool) {
	if x.MaxSteps == 0 {
		x.MaxSteps = 20000
	}
	x.ids = map[tkey]int{}
	x.frames = nil
	for {
		if x.MaxExecs > 0 && x.Execs >= x.MaxExecs {
			x.Truncated = true
			return
		}
		if r := x.once(main); r != nil {
			x.Execs++
			if !visit(r) {
				return
			}
		} else {
			x.Pruned++
		}
		// next branch
		for len(x.frames) > 0 {
			f := x.frames[len(x.frames)-1]
			k := f.enabled[f.cur]
			f.tried[k] = true
			if !x.Naive {
				f.sleep[k] = f.accs[f.cur]
			}
			next := -1
			for i, e := range f.enabled {
				if _, asleep := f.sleep[e]; f.tried[e] || asleep {
					continue
				}
				if f.all || x.Naive || f.needs(e) || f.alternative(e) {
					next = i
					break
				}
			}
			if next >= 0 {
				f.cur = next
				break
			}
			x.frames = x.frames[:len(x.frames)-1]
		}
		if len(x.frames) == 0 {
			return
		}
	}
}

func (x *Explorer) once(main func()) (res *Result) {
	s := &Sched{x: x, parked: make(chan struct{})}
	cur = s
	s.cur = &thread{id: -1}
	mt := &thread{id: s.intern(-1, 0), resume: make(chan struct{})}
	s.start(mt, main)
	s.run(mt)
	defer s.kill()
	res = &Result{}
	var trace []event
	var state uint64 = 14695981039346656037
	clocks := map[int]*objClock{}
	before := func(e *event, clk []int32) bool { return e.ts[0] < len(clk) && clk[e.ts[0]] >= e.n }
	// race looks for earlier steps that could have come after t's operation
	// and has the other order explored (source sets)
	race := func(t *thread, now *Key) {
		acc := accessesOf(t)
		for i := range trace {
			e, f := &trace[i], x.frames[i]
			if f.all || e.ts[0] == t.idx || e.ts[1] == t.idx {
				continue
			}
			if before(e, t.clock) {
				continue // happened before t got here
			}
			if e.done && t.op.kind == kWait {
				continue // never possible at the same time
			}
			hit := false
			for _, a := range acc {
				for _, b := range e.acc {
					if a.obj == b.obj && conflict(a.mode, b.mode) {
						hit = true
					}
				}
			}
			if !hit {
				continue
			}
			// the steps since then that do not depend on e; one of those with
			// no predecessor among them has to be explored in place of e
			var v []*event
			var first []Key
			pending := true // t has been waiting since then
			covered := false
			for j := i + 1; j < len(trace); j++ {
				d := &trace[j]
				if before(e, d.clk) {
					continue
				}
				initial := true
				for _, k := range v {
					if before(k, d.clk) {
						initial = false
						break
					}
				}
				v = append(v, d)
				if before(d, t.clock) {
					pending = false
				}
				if initial {
					first = append(first, d.key)
					covered = covered || f.tried[d.key] || f.needK[d.key]
				}
			}
			if pending && f.canRun(t.id) {
				f.need[t.id] = true
				if now != nil && f.has(*now) {
					continue
				}
			}
			if covered {
				continue
			}
			found := false
			for _, k := range first {
				if f.has(k) {
					f.needK[k], found = true, true
					break
				}
			}
			if !found {
				f.all = true
			}
		}
	}
	known := len(x.frames) - 1 // the steps before are those of the last execution
	for depth := 0; ; depth++ {
		var only *Key
		if depth < len(x.frames) {
			only = &x.frames[depth].enabled[x.frames[depth].cur]
		}
		cs := s.enabled(only)
		if len(cs) == 0 {
			break
		}
		if depth >= x.MaxSteps {
			res.TooLong = true
			break
		}
		var f *frame
		if depth < len(x.frames) {
			f = x.frames[depth]
		} else {
			f = &frame{sleep: map[Key][]access{}, tried: map[Key]bool{}, need: map[int]bool{}, needK: map[Key]bool{}, cur: -1}
			if !x.Naive && depth > 0 {
				p := x.frames[depth-1]
				pk, pa := p.enabled[p.cur], p.accs[p.cur]
				for k, a := range p.sleep {
					if !dependent(k, a, pk, pa) {
						f.sleep[k] = a
					}
				}
			}
			for _, c := range cs {
				f.enabled = append(f.enabled, c.key)
				f.accs = append(f.accs, c.acc)
				if _, asleep := f.sleep[c.key]; !asleep && f.cur < 0 {
					f.cur = len(f.enabled) - 1
				}
			}
			if f.cur < 0 {
				// every continuation is explored elsewhere; races found so far count
				for _, t := range s.threads {
					if !t.done && t.op != nil {
						race(t, nil)
					}
				}
				return nil
			}
			x.frames = append(x.frames, f)
		}
		key := f.enabled[f.cur]
		var c *cand
		for i := range cs {
			if cs[i].key == key {
				c = &cs[i]
			}
		}
		if c == nil {
			panic(fmt.Sprintf("replay diverged at step %d: %v", depth, key))
		}
		x.Steps++
		res.Schedule = append(res.Schedule, key)
		e := event{ts: [2]int{c.ts[0].idx, -1}, acc: c.acc}
		for _, t := range c.ts {
			if t != nil && depth >= known {
				race(t, &key)
			}
		}
		if op := c.ts[0].op; op.kind == kAdd && op.delta < 0 {
			e.done = true
		}
		// clocks
		var clk []int32
		for _, t := range c.ts {
			if t != nil {
				clk = join(clk, t.clock)
			}
		}
		for _, a := range c.acc {
			oc := clocks[a.obj]
			if oc == nil {
				continue
			}
			clk = join(clk, oc.w)
			if a.mode != aRead {
				clk = join(clk, oc.r)
			}
			if a.mode != aAdd {
				clk = join(clk, oc.a)
			}
		}
		for i, t := range c.ts {
			if t != nil {
				t.n++
				for len(clk) <= t.idx {
					clk = append(clk, 0)
				}
				clk[t.idx] = t.n
				if i == 0 {
					e.n = t.n
				} else {
					e.ts[1] = t.idx
				}
			}
		}
		for _, t := range c.ts {
			if t != nil {
				t.clock = append([]int32{}, clk...)
			}
		}
		for _, a := range c.acc {
			oc := clocks[a.obj]
			if oc == nil {
				oc = &objClock{}
				clocks[a.obj] = oc
			}
			switch a.mode {
			case aWrite:
				oc.w = join(oc.w, clk)
			case aRead:
				oc.r = join(oc.r, clk)
			case aAdd:
				oc.a = join(oc.a, clk)
			}
		}
		e.key, e.clk = key, clk
		trace = append(trace, e)
		if x.OnState != nil {
			// a state is what every goroutine has done so far
			for _, t := range c.ts {
				if t != nil {
					state ^= t.hist
					for _, v := range []int{t.id + 1, key.A, key.CA, key.B, key.CB} {
						t.hist = (t.hist ^ uint64(v+3)) * 1099511628211
					}
					t.hist ^= t.hist >> 29
					state ^= t.hist
				}
			}
			x.OnState(state)
		}
		c.fire()
		for _, t := range c.ts {
			if t != nil {
				s.run(t)
			}
		}
	}
	for _, t := range s.threads {
		if !t.done && t.op != nil {
			race(t, nil)
			res.Blocked = append(res.Blocked, t.describe())
		}
	}
	res.Finished = mt.done
	res.Panics = s.panics
	return res
}
