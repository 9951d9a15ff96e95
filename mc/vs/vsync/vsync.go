// Package vsync stands in for sync in code that runs on the controlled runtime.
package vsync

import "verif/mc/vs"

// WaitGroup stands in for sync.WaitGroup.
type WaitGroup struct{ c vs.Counter }

func (w *WaitGroup) Add(n int) { w.c.Add(n) }
func (w *WaitGroup) Done()     { w.c.Add(-1) }
func (w *WaitGroup) Wait()     { w.c.Wait() }

// Locker stands in for sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex stands in for sync.Mutex.
type Mutex struct{ l vs.Lock }

func (m *Mutex) Lock()   { m.l.Acquire(true) }
func (m *Mutex) Unlock() { m.l.Release(true) }

// RWMutex stands in for sync.RWMutex.
type RWMutex struct{ l vs.Lock }

func (m *RWMutex) Lock()    { m.l.Acquire(true) }
func (m *RWMutex) Unlock()  { m.l.Release(true) }
func (m *RWMutex) RLock()   { m.l.Acquire(false) }
func (m *RWMutex) RUnlock() { m.l.Release(false) }

// Once stands in for sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Pool stands in for sync.Pool.
type Pool struct {
	New func() interface{}
	s   []interface{}
}

func (p *Pool) Get() interface{} {
	if n := len(p.s); n > 0 {
		x := p.s[n-1]
		p.s = p.s[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x interface{}) { p.s = append(p.s, x) }

// Map stands in for sync.Map.
type Map struct {
	m Mutex
	d map[interface{}]interface{}
}

func (p *Map) Load(k interface{}) (interface{}, bool) {
	p.m.Lock()
	defer p.m.Unlock()
	v, ok := p.d[k]
	return v, ok
}
func (p *Map) Store(k, v interface{}) {
	p.m.Lock()
	defer p.m.Unlock()
	if p.d == nil {
		p.d = map[interface{}]interface{}{}
	}
	p.d[k] = v
}
func (p *Map) Delete(k interface{}) {
	p.m.Lock()
	defer p.m.Unlock()
	delete(p.d, k)
}
func (p *Map) Range(f func(k, v interface{}) bool) {
	p.m.Lock()
	ks, vs := []interface{}{}, []interface{}{}
	for k, v := range p.d {
		ks, vs = append(ks, k), append(vs, v)
	}
	p.m.Unlock()
	for i := range ks {
		if !f(ks[i], vs[i]) {
			return
		}
	}
}
