// Package simsync replaces package sync in instrumented code.
package simsync

import (
	"sync"
	"verifsim/sim"
)

type Locker = sync.Locker

type waitq struct{ q []*sim.Waiter }

func (q *waitq) wait(why string) {
	x := sim.NewWaiter()
	q.q = append(q.q, x)
	x.Wait(why)
}

func (q *waitq) wakeAll() {
	ws := q.q
	q.q = nil
	for _, x := range ws {
		x.Wake()
	}
}

func (q *waitq) wakeOne() {
	if len(q.q) > 0 {
		x := q.q[0]
		q.q = q.q[1:]
		x.Wake()
	}
}

// Mutex replaces sync.Mutex.
type Mutex struct {
	m      sync.Mutex
	locked bool
	q      waitq
	vc     sim.VC
}

func (m *Mutex) Lock() {
	if sim.W == nil {
		m.m.Lock()
		return
	}
	if sim.Exiting() {
		return
	}
	sim.SYcur()
	for m.locked {
		m.q.wait("mutex lock")
		if sim.Exiting() {
			return
		}
	}
	m.locked = true
	m.vc.Acquire()
}

func (m *Mutex) TryLock() bool {
	if sim.W == nil {
		return m.m.TryLock()
	}
	sim.SYcur()
	if m.locked {
		sim.W.Polled()
		return false
	}
	m.locked = true
	m.vc.Acquire()
	return true
}

func (m *Mutex) Unlock() {
	if sim.W == nil {
		m.m.Unlock()
		return
	}
	if sim.Exiting() {
		return
	}
	if !m.locked {
		sim.Fatal("sync: unlock of unlocked mutex")
	}
	m.vc.Release()
	m.locked = false
	m.q.wakeAll()
	sim.SYcur()
}

// RWMutex replaces sync.RWMutex. As in the real one, a waiting writer keeps
// new readers out.
type RWMutex struct {
	m       sync.RWMutex
	readers int
	writer  bool
	pending int
	q       waitq
	wvc     sim.VC // released by writers
	rvc     sim.VC // released by readers
}

func (m *RWMutex) Lock() {
	if sim.W == nil {
		m.m.Lock()
		return
	}
	if sim.Exiting() {
		return
	}
	sim.SYcur()
	m.pending++
	for m.writer || m.readers > 0 {
		m.q.wait("rwmutex lock")
		if sim.Exiting() {
			return
		}
	}
	m.pending--
	m.writer = true
	m.wvc.Acquire()
	m.rvc.Acquire()
}

func (m *RWMutex) TryLock() bool {
	if sim.W == nil {
		return m.m.TryLock()
	}
	sim.SYcur()
	if m.writer || m.readers > 0 {
		sim.W.Polled()
		return false
	}
	m.writer = true
	m.wvc.Acquire()
	m.rvc.Acquire()
	return true
}

func (m *RWMutex) Unlock() {
	if sim.W == nil {
		m.m.Unlock()
		return
	}
	if sim.Exiting() {
		return
	}
	if !m.writer {
		sim.Fatal("sync: Unlock of unlocked RWMutex")
	}
	m.wvc.Release()
	m.writer = false
	m.q.wakeAll()
	sim.SYcur()
}

func (m *RWMutex) RLock() {
	if sim.W == nil {
		m.m.RLock()
		return
	}
	if sim.Exiting() {
		return
	}
	sim.SYcur()
	for m.writer || m.pending > 0 {
		m.q.wait("rwmutex rlock")
		if sim.Exiting() {
			return
		}
	}
	m.readers++
	m.wvc.Acquire()
}

func (m *RWMutex) TryRLock() bool {
	if sim.W == nil {
		return m.m.TryRLock()
	}
	sim.SYcur()
	if m.writer || m.pending > 0 {
		sim.W.Polled()
		return false
	}
	m.readers++
	m.wvc.Acquire()
	return true
}

func (m *RWMutex) RUnlock() {
	if sim.W == nil {
		m.m.RUnlock()
		return
	}
	if sim.Exiting() {
		return
	}
	if m.readers <= 0 {
		sim.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.rvc.Release()
	m.readers--
	if m.readers == 0 {
		m.q.wakeAll()
	}
	sim.SYcur()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	g  sync.WaitGroup
	n  int
	q  waitq
	vc sim.VC
}

func (g *WaitGroup) Add(d int) {
	if sim.W == nil {
		g.g.Add(d)
		return
	}
	if sim.Exiting() {
		return
	}
	sim.SYcur()
	g.vc.Release()
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		g.q.wakeAll()
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	if sim.W == nil {
		g.g.Wait()
		return
	}
	if sim.Exiting() {
		return
	}
	sim.SYcur()
	for g.n > 0 {
		g.q.wait("waitgroup")
		if sim.Exiting() {
			return
		}
	}
	g.vc.Acquire()
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	sim.Go(func() {
		defer g.Done()
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
	vc   sim.VC
}

func (o *Once) Do(f func()) {
	sim.SYcur()
	if o.done && sim.W != nil {
		o.vc.Acquire()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.done = true
			o.vc.Release()
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	return func() T {
		o.Do(func() { r = f() })
		return r
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var r1 T1
	var r2 T2
	return func() (T1, T2) {
		o.Do(func() { r1, r2 = f() })
		return r1, r2
	}
}

// Cond replaces sync.Cond.
type Cond struct {
	L Locker
	q waitq
	c *sync.Cond
}

func NewCond(l Locker) *Cond {
	c := &Cond{L: l}
	if sim.W == nil {
		c.c = sync.NewCond(l)
	}
	return c
}

func (c *Cond) Wait() {
	if c.c != nil {
		c.c.Wait()
		return
	}
	if sim.Exiting() {
		return
	}
	x := sim.NewWaiter()
	c.q.q = append(c.q.q, x)
	c.L.Unlock()
	x.Wait("cond wait")
	c.L.Lock()
}

func (c *Cond) Signal() {
	if c.c != nil {
		c.c.Signal()
		return
	}
	sim.SYcur()
	c.q.wakeOne()
}

func (c *Cond) Broadcast() {
	if c.c != nil {
		c.c.Broadcast()
		return
	}
	sim.SYcur()
	c.q.wakeAll()
}

// Map replaces sync.Map.
type Map struct {
	mu Mutex
	m  map[any]any
}

func (m *Map) Load(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v any) { m.Swap(k, v) }

func (m *Map) Swap(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.m == nil {
		m.m = make(map[any]any)
	}
	p, ok := m.m[k]
	m.m[sim.NK(k)] = v
	return p, ok
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if p, ok := m.m[k]; ok {
		return p, true
	}
	if m.m == nil {
		m.m = make(map[any]any)
	}
	m.m[sim.NK(k)] = v
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if p, ok := m.m[k]; ok && p == old {
		m.m[k] = new
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if p, ok := m.m[k]; ok && p == old {
		delete(m.m, k)
		return true
	}
	return false
}

func (m *Map) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.m = nil
}

func (m *Map) Range(f func(k, v any) bool) {
	m.mu.Lock()
	keys := sim.Keys(m.m, 0)
	m.mu.Unlock()
	for _, k := range keys {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}

// Pool replaces sync.Pool; a Get may or may not return a pooled value.
type Pool struct {
	New   func() any
	items []any
	p     sync.Mutex
}

func (p *Pool) Get() any {
	sim.SYcur()
	p.p.Lock()
	if n := len(p.items); n > 0 && (sim.W == nil || !sim.W.Env.P(1, 4)) {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.p.Unlock()
		sim.AtomicSyncObj(p)
		return x
	}
	p.p.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	sim.SYcur()
	sim.AtomicSyncObj(p)
	p.p.Lock()
	defer p.p.Unlock()
	p.items = append(p.items, x)
}
