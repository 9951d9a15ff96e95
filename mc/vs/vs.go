// Package vs is a controlled runtime for concurrent Go code: goroutines,
// channels, select, contexts and wait groups whose every scheduling decision is
// made by the explorer (see explore.go). Code is brought onto it by rewriting
// its source (see ../gen).
package vs

import (
	"fmt"
	"runtime"
)

// access modes of an operation on a shared object
const (
	aRead  = 1 // looks at the object
	aWrite = 2 // changes it
	aAdd   = 3 // changes it, commuting with other additions
)

func conflict(a, b uint8) bool {
	if a == aRead && b == aRead {
		return false
	}
	return !(a == aAdd && b == aAdd)
}

type access struct {
	obj  int
	mode uint8
}

// object is the identity of something shared.
type object struct {
	id     int
	closed bool
	event  bool                // only ever closed, never sent on
	sink   func(v interface{}) // takes everything sent at once
	capn   int
	n      int // buffered elements
}

type opKind uint8

const (
	kSelect opKind = iota
	kClose
	kCancel
	kRead
	kAdd
	kWait
	kLock
	kUnlock
	kYield
)

type selCase struct {
	send bool
	ch   *object // nil: never ready
	take func()  // receive from the buffer or from a closed channel
	put  func()  // send into the buffer
	fill func(v interface{}, ok bool)
	val  func() interface{}
}

type pendingOp struct {
	kind   opKind
	cases  []selCase
	def    bool
	obj    *object
	objs   func() []*object // kCancel
	delta  int
	wait   func() bool // kWait, kLock: enabled
	run    func()      // effect, executed by the scheduler
	chosen int
}

type thread struct {
	id     int
	idx    int // in this execution
	seq    int // objects and threads made so far
	resume chan struct{}
	op     *pendingOp
	done   bool
	clock  []int32
	n      int32 // events so far
	hist   uint64
}

// Sched is one controlled execution.
type Sched struct {
	x       *Explorer
	threads []*thread
	cur     *thread
	parked  chan struct{}
	newborn []*thread
	abort   bool
	panics  []string
}

var cur *Sched

type tkey struct{ parent, seq int }

func (s *Sched) intern(parent, seq int) int {
	k := tkey{parent, seq}
	id, ok := s.x.ids[k]
	if !ok {
		id = len(s.x.ids)
		s.x.ids[k] = id
	}
	return id
}

func (s *Sched) newID() int {
	if s == nil || s.cur == nil {
		return -2 // outside every execution
	}
	t := s.cur
	t.seq++
	return s.intern(t.id, t.seq)
}

// Go starts a goroutine.
func Go(f func()) {
	s := cur
	if s.abort {
		return
	}
	t := &thread{id: s.newID(), resume: make(chan struct{})}
	t.clock = append([]int32{}, s.cur.clock...)
	s.start(t, f)
	s.newborn = append(s.newborn, t)
}

func (s *Sched) start(t *thread, f func()) {
	t.idx = len(s.threads)
	s.threads = append(s.threads, t)
	go func() {
		defer func() {
			if r := recover(); r != nil && !s.abort {
				buf := make([]byte, 4096)
				buf = buf[:runtime.Stack(buf, false)]
				s.panics = append(s.panics, fmt.Sprintf("%v\n%s", r, buf))
			}
			t.done = true
			s.parked <- struct{}{}
		}()
		<-t.resume
		if s.abort {
			return
		}
		f()
	}()
}

// do parks the running goroutine at an operation until it has been executed.
func do(op *pendingOp) {
	s := cur
	if s.abort {
		runtime.Goexit()
	}
	t := s.cur
	t.op = op
	s.parked <- struct{}{}
	<-t.resume
	if s.abort {
		runtime.Goexit()
	}
}

// run lets t execute until it parks or ends.
func (s *Sched) run(t *thread) {
	s.cur = t
	t.op = nil
	t.resume <- struct{}{}
	<-s.parked
	for len(s.newborn) > 0 {
		nt := s.newborn[0]
		s.newborn = s.newborn[1:]
		s.cur = nt
		nt.resume <- struct{}{}
		<-s.parked
	}
}

// kill ends every goroutine of the execution.
func (s *Sched) kill() {
	s.abort = true
	for _, t := range s.threads {
		if !t.done {
			t.resume <- struct{}{}
			<-s.parked
		}
	}
}

// ---- channels ----

// Chan is a channel.
type Chan[T any] struct {
	o   *object
	buf []T
}

// Make makes a channel with the given capacity.
func Make[T any](n ...int) *Chan[T] {
	c := &Chan[T]{o: &object{id: cur.newID()}}
	if len(n) > 0 {
		c.o.capn = n[0]
	}
	return c
}

func (c *Chan[T]) obj() *object {
	if c == nil {
		return nil
	}
	return c.o
}

// RCase is a receive alternative.
type RCase[T any] struct {
	c  *Chan[T]
	V  T
	OK bool
}

// SCase is a send alternative.
type SCase[T any] struct {
	c *Chan[T]
	v T
}

// Recv makes a receive alternative.
func RecvOf[T any](c *Chan[T]) *RCase[T] { return &RCase[T]{c: c} }

// SendOf makes a send alternative.
func SendOf[T any](c *Chan[T], v T) *SCase[T] { return &SCase[T]{c, v} }

// Case is an alternative of a select.
type Case interface{ sel() selCase }

func (r *RCase[T]) sel() selCase {
	return selCase{ch: r.c.obj(),
		fill: func(v interface{}, ok bool) {
			r.OK = ok
			if ok {
				r.V, _ = v.(T)
			}
		},
		take: func() {
			if len(r.c.buf) > 0 {
				r.V, r.OK = r.c.buf[0], true
				r.c.buf = r.c.buf[1:]
				r.c.o.n--
				return
			}
			var z T
			r.V, r.OK = z, false
		}}
}

func (r *SCase[T]) sel() selCase {
	return selCase{send: true, ch: r.c.obj(), val: func() interface{} { return r.v },
		put: func() {
			r.c.buf = append(r.c.buf, r.v)
			r.c.o.n++
		}}
}

// Select waits for one of the alternatives and returns its index, or -1 for
// the default.
func Select(def bool, cs ...Case) int {
	if cur.abort {
		runtime.Goexit()
	}
	op := &pendingOp{kind: kSelect, def: def}
	for _, c := range cs {
		op.cases = append(op.cases, c.sel())
	}
	do(op)
	if op.chosen >= 0 {
		if c := op.cases[op.chosen]; c.send && c.ch.closed && op.run != nil {
			panic("send on closed channel")
		}
	}
	return op.chosen
}

// Send sends v.
func (c *Chan[T]) Send(v T) { Select(false, SendOf(c, v)) }

// Recv receives.
func (c *Chan[T]) Recv() T {
	r := RecvOf(c)
	Select(false, r)
	return r.V
}

// Recv2 receives and reports whether the channel is open.
func (c *Chan[T]) Recv2() (T, bool) {
	r := RecvOf(c)
	Select(false, r)
	return r.V, r.OK
}

// Sink makes the channel accept every value at once, giving it to f, which
// must not depend on the order of values from different goroutines.
func (c *Chan[T]) Sink(f func(v T)) {
	c.o.sink = func(v interface{}) { f(v.(T)) }
}

// Close closes the channel.
func (c *Chan[T]) Close() {
	if cur.abort {
		return
	}
	var bad bool
	do(&pendingOp{kind: kClose, obj: c.o, run: func() {
		bad = c.o.closed
		c.o.closed = true
	}})
	if bad {
		panic("close of closed channel")
	}
}

// Len is the number of buffered elements.
func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	do(&pendingOp{kind: kRead, obj: c.o})
	return len(c.buf)
}

// Cap is the capacity.
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.o.capn
}

// ---- building blocks for contexts and locks ----

// Event is something that happens once and is announced by closing a channel.
type Event struct{ C *Chan[struct{}] }

// NewEvent makes an event.
func NewEvent() *Event {
	e := &Event{Make[struct{}]()}
	e.C.o.event = true
	return e
}

// Peek is a scheduling point at which the event is looked at.
func (e *Event) Peek() {
	if cur.abort {
		return
	}
	do(&pendingOp{kind: kRead, obj: e.C.o})
}

// Happened reports whether the event has happened.
func (e *Event) Happened() bool { return e.C.o.closed }

// Mark makes the event happen without a scheduling point (inside Atomic).
func (e *Event) Mark() { e.C.o.closed = true }

// Atomic executes run as one operation that changes the given events.
func Atomic(run func(), es func() []*Event) {
	if cur.abort {
		return
	}
	do(&pendingOp{kind: kCancel, run: run, objs: func() []*object {
		var os []*object
		for _, e := range es() {
			os = append(os, e.C.o)
		}
		return os
	}})
}

// Counter is the core of a wait group.
type Counter struct {
	o *object
	n int
}

func (c *Counter) init() {
	if c.o == nil {
		c.o = &object{id: cur.newID()}
	}
}

// Add adds.
func (c *Counter) Add(d int) {
	if cur.abort {
		return
	}
	c.init()
	do(&pendingOp{kind: kAdd, obj: c.o, delta: d, run: func() { c.n += d }})
	if c.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Wait waits for zero.
func (c *Counter) Wait() {
	if cur.abort {
		runtime.Goexit()
	}
	c.init()
	do(&pendingOp{kind: kWait, obj: c.o, wait: func() bool { return c.n == 0 }})
}

// Lock is a readers-writer lock.
type Lock struct {
	o       *object
	writer  bool
	readers int
}

func (l *Lock) init() {
	if l.o == nil {
		l.o = &object{id: cur.newID()}
	}
}

// Acquire locks.
func (l *Lock) Acquire(write bool) {
	if cur.abort {
		return
	}
	l.init()
	do(&pendingOp{kind: kLock, obj: l.o, wait: func() bool { return !l.writer && (!write || l.readers == 0) }, run: func() {
		if write {
			l.writer = true
		} else {
			l.readers++
		}
	}})
}

// Release unlocks.
func (l *Lock) Release(write bool) {
	if cur.abort {
		return
	}
	l.init()
	bad := false
	do(&pendingOp{kind: kUnlock, obj: l.o, run: func() {
		if write {
			bad = !l.writer
			l.writer = false
		} else {
			bad = l.readers == 0
			l.readers--
		}
	}})
	if bad {
		panic("sync: unlock of unlocked mutex")
	}
}

// memory stands for everything goroutines share without synchronisation.
var memory = &object{id: -1}

// Touch is an access to shared memory.
func Touch() {
	if cur == nil || cur.abort {
		return
	}
	do(&pendingOp{kind: kLock, obj: memory})
}

// Yield is a scheduling point.
func Yield() {
	if cur.abort {
		return
	}
	do(&pendingOp{kind: kYield})
}
