// Package ssync stands in for package sync inside the simulation.
package ssync

import (
	"simrt/sim"
	"sync"
)

type Locker = sync.Locker

func fatal(s string) { panic("fatal error: " + s) }

func remove(q *[]*sim.Task, t *sim.Task) {
	for i, x := range *q {
		if x == t {
			*q = append((*q)[:i:i], (*q)[i+1:]...)
			return
		}
	}
}

// Mutex: barging mutex; who gets it next is the scheduler's choice.
type Mutex struct {
	locked bool
	q      []*sim.Task
}

func (m *Mutex) Lock() {
	sim.Yield("lock")
	for m.locked {
		t := sim.Cur()
		m.q = append(m.q, t)
		sim.Park("mutex lock")
		remove(&m.q, t)
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	sim.Yield("trylock")
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if sim.Dead() {
		m.locked = false
		return
	}
	if !m.locked {
		fatal("sync: unlock of unlocked mutex")
	}
	m.locked = false
	if len(m.q) > 0 {
		i := sim.Choose(len(m.q))
		sim.Wake(m.q[i])
	}
	sim.Yield("unlock")
}

// RWMutex: a pending writer blocks new readers, as in package sync.
type RWMutex struct {
	w       Mutex
	pending bool
	active  bool
	readers int
	wt      *sim.Task
	rq      []*sim.Task
}

func (m *RWMutex) Lock() {
	m.w.Lock()
	m.pending = true
	for m.readers > 0 {
		m.wt = sim.Cur()
		sim.Park("rwmutex lock")
	}
	m.wt = nil
	m.active = true
}

func (m *RWMutex) TryLock() bool {
	if !m.w.TryLock() {
		return false
	}
	if m.readers > 0 {
		m.w.Unlock()
		return false
	}
	m.pending, m.active = true, true
	return true
}

func (m *RWMutex) Unlock() {
	if sim.Dead() {
		m.active, m.pending = false, false
		m.w.locked = false
		return
	}
	if !m.active {
		fatal("sync: Unlock of unlocked RWMutex")
	}
	m.active, m.pending = false, false
	q := m.rq
	m.rq = nil
	for _, t := range q {
		m.readers++
		sim.Wake(t)
	}
	m.w.Unlock()
}

func (m *RWMutex) RLock() {
	sim.Yield("rlock")
	if m.pending {
		m.rq = append(m.rq, sim.Cur())
		sim.Park("rwmutex rlock")
		return // granted by the writer's Unlock
	}
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	sim.Yield("tryrlock")
	if m.pending {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if sim.Dead() {
		m.readers--
		return
	}
	if m.readers <= 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 && m.wt != nil {
		sim.Wake(m.wt)
	}
	sim.Yield("runlock")
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup as in package sync.
type WaitGroup struct {
	n int
	q []*sim.Task
}

func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 && !sim.Dead() {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		q := w.q
		w.q = nil
		for _, t := range q {
			sim.Wake(t)
		}
	}
	sim.Yield("wg")
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	sim.Yield("wgwait")
	if w.n == 0 {
		return
	}
	w.q = append(w.q, sim.Cur())
	sim.Park("waitgroup")
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sim.Go(func() {
		defer w.Done()
		f()
	})
}

// Once as in package sync.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	sim.Yield("once")
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// Cond as in package sync (FIFO, as documented by the runtime's notify list).
type Cond struct {
	L Locker
	q []*sim.Task
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	t := sim.Cur()
	c.q = append(c.q, t)
	c.L.Unlock()
	for in(c.q, t) {
		sim.Park("cond wait")
	}
	c.L.Lock()
}

func in(q []*sim.Task, t *sim.Task) bool {
	for _, x := range q {
		if x == t {
			return true
		}
	}
	return false
}

func (c *Cond) Signal() {
	if len(c.q) > 0 {
		t := c.q[0]
		c.q = c.q[1:]
		sim.Wake(t)
	}
	sim.Yield("signal")
}

func (c *Cond) Broadcast() {
	q := c.q
	c.q = nil
	for _, t := range q {
		sim.Wake(t)
	}
	sim.Yield("broadcast")
}

// Pool hands out what was put into it, most recent first, or makes a new one;
// which one is the scheduler's choice.
type Pool struct {
	New   func() any
	items []any
	epoch uint64
}

func (p *Pool) Get() any {
	sim.Yield("pool")
	if p.epoch != sim.Epoch() {
		p.items, p.epoch = nil, sim.Epoch()
	}
	if n := len(p.items); n > 0 && sim.Choose(4) < 3 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	sim.Yield("pool")
	if p.epoch != sim.Epoch() {
		p.items, p.epoch = nil, sim.Epoch()
	}
	p.items = append(p.items, x)
}

// Map as in package sync, iterating in insertion order.
type Map struct {
	m    map[any]*ment
	list []*ment
	del  int
}

type ment struct {
	k, v any
	gone bool
}

func (m *Map) get(k any) *ment {
	if m.m == nil {
		m.m = map[any]*ment{}
	}
	return m.m[k]
}

func (m *Map) set(k, v any) {
	e := &ment{k: k, v: v}
	m.m[k] = e
	m.list = append(m.list, e)
}

func (m *Map) rm(e *ment) {
	e.gone = true
	delete(m.m, e.k)
	m.del++
	if m.del > 32 && m.del > len(m.list)/2 {
		var l []*ment
		for _, x := range m.list {
			if !x.gone {
				l = append(l, x)
			}
		}
		m.list, m.del = l, 0
	}
}

func (m *Map) Load(k any) (any, bool) {
	sim.Yield("map")
	if e := m.get(k); e != nil {
		return e.v, true
	}
	return nil, false
}

func (m *Map) Store(k, v any) { m.Swap(k, v) }

func (m *Map) Swap(k, v any) (any, bool) {
	sim.Yield("map")
	if e := m.get(k); e != nil {
		o := e.v
		e.v = v
		return o, true
	}
	m.set(k, v)
	return nil, false
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	sim.Yield("map")
	if e := m.get(k); e != nil {
		return e.v, true
	}
	m.set(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	sim.Yield("map")
	if e := m.get(k); e != nil {
		m.rm(e)
		return e.v, true
	}
	return nil, false
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) CompareAndSwap(k, o, n any) bool {
	sim.Yield("map")
	if e := m.get(k); e != nil && e.v == o {
		e.v = n
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, o any) bool {
	sim.Yield("map")
	if e := m.get(k); e != nil && e.v == o {
		m.rm(e)
		return true
	}
	return false
}

func (m *Map) Range(f func(k, v any) bool) {
	sim.Yield("map")
	l := append([]*ment(nil), m.list...)
	for _, e := range l {
		if e.gone {
			continue
		}
		if !f(e.k, e.v) {
			return
		}
	}
}

func (m *Map) Clear() {
	sim.Yield("map")
	for _, e := range m.list {
		e.gone = true
	}
	m.m, m.list, m.del = nil, nil, 0
}
