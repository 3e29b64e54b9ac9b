// Package simsync stands in for the standard sync package: same API and
// semantics, with blocking and wake-up decided by the simulator.
package simsync

import (
	"simrt"
	gosync "sync"
)

type Locker = gosync.Locker

// Mutex is a mutual exclusion lock.
type Mutex struct {
	held bool
	vc   simrt.VC
}

func (m *Mutex) Lock() {
	if simrt.Aborting() {
		return
	}
	simrt.YI(0)
	simrt.Wait(func() bool { return !m.held }, "a mutex")
	m.held = true
	m.vc.Acquire()
	simrt.YI(0)
}

func (m *Mutex) TryLock() bool {
	simrt.YI(0)
	if m.held {
		return false
	}
	m.held = true
	m.vc.Acquire()
	return true
}

func (m *Mutex) Unlock() {
	if simrt.Aborting() {
		return
	}
	simrt.YI(0)
	if !m.held {
		simrt.Fatal("sync: unlock of unlocked mutex")
	}
	m.vc.Release()
	m.held = false
	simrt.YI(0)
}

// RWMutex is a reader/writer lock; like the real one, a waiting writer blocks
// new readers, and an unlocking writer lets the readers already waiting in.
type RWMutex struct {
	writer  bool
	readers int
	pending int
	waiting []*bool
	wvc     simrt.VC
	rvc     simrt.VC
}

func (m *RWMutex) Lock() {
	if simrt.Aborting() {
		return
	}
	simrt.YI(0)
	if m.writer || m.readers > 0 {
		m.pending++
		simrt.Wait(func() bool { return !m.writer && m.readers == 0 }, "the write lock")
		m.pending--
	}
	m.writer = true
	m.wvc.Acquire()
	m.rvc.Acquire()
	simrt.YI(0)
}

func (m *RWMutex) TryLock() bool {
	simrt.YI(0)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	m.wvc.Acquire()
	m.rvc.Acquire()
	return true
}

func (m *RWMutex) Unlock() {
	if simrt.Aborting() {
		return
	}
	simrt.YI(0)
	if !m.writer {
		simrt.Fatal("sync: Unlock of unlocked RWMutex")
	}
	m.wvc.Release()
	m.writer = false
	for _, g := range m.waiting {
		*g = true
		m.readers++
	}
	m.waiting = nil
	simrt.YI(0)
}

func (m *RWMutex) RLock() {
	if simrt.Aborting() {
		return
	}
	simrt.YI(0)
	if m.writer || m.pending > 0 {
		granted := new(bool)
		m.waiting = append(m.waiting, granted)
		simrt.Wait(func() bool { return *granted || (!m.writer && m.pending == 0) }, "the read lock")
		if !*granted {
			m.readers++
			for i, g := range m.waiting {
				if g == granted {
					m.waiting = append(m.waiting[:i:i], m.waiting[i+1:]...)
					break
				}
			}
		}
	} else {
		m.readers++
	}
	m.wvc.Acquire()
	simrt.YI(0)
}

func (m *RWMutex) TryRLock() bool {
	simrt.YI(0)
	if m.writer || m.pending > 0 {
		return false
	}
	m.readers++
	m.wvc.Acquire()
	return true
}

func (m *RWMutex) RUnlock() {
	if simrt.Aborting() {
		return
	}
	simrt.YI(0)
	if m.readers <= 0 {
		simrt.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.rvc.Release()
	m.readers--
	simrt.YI(0)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker over the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once runs a function once.
type Once struct {
	m    Mutex
	done bool
	vc   simrt.VC
}

func (o *Once) Do(f func()) {
	simrt.YI(0)
	if o.done {
		o.vc.Acquire()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.vc.Release(); o.done = true }()
		f()
	}
}

// OnceFunc makes a function that calls f once; if f panics, every call panics.
func OnceFunc(f func()) func() {
	var o Once
	var p any
	ok := false
	return func() {
		o.Do(func() {
			defer func() {
				if p = recover(); !ok {
					panic(p)
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var v T
	o := OnceFunc(func() { v = f() })
	return func() T { o(); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var a A
	var b B
	o := OnceFunc(func() { a, b = f() })
	return func() (A, B) { o(); return a, b }
}

// WaitGroup waits for a counter to reach zero.
type WaitGroup struct {
	n  int
	vc simrt.VC
}

func (w *WaitGroup) Add(d int) {
	simrt.YI(0)
	if d < 0 {
		w.vc.Release()
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }

// Go starts f in a goroutine of the group.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}
func (w *WaitGroup) Wait() {
	simrt.YI(0)
	simrt.Wait(func() bool { return w.n == 0 }, "a wait group")
	w.vc.Acquire()
}

// Cond is a condition variable.
type Cond struct {
	L  Locker
	q  []*bool
	vc simrt.VC
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	g := new(bool)
	c.q = append(c.q, g)
	c.L.Unlock()
	simrt.Wait(func() bool { return *g }, "a condition")
	c.vc.Acquire()
	c.L.Lock()
}
func (c *Cond) Signal() {
	simrt.YI(0)
	c.vc.Release()
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
}
func (c *Cond) Broadcast() {
	simrt.YI(0)
	c.vc.Release()
	for _, g := range c.q {
		*g = true
	}
	c.q = nil
}

// Pool is a free list. Items may be dropped at any time, as the real one does at a
// garbage collection: two pools in three keep them, which exercises reuse the
// most, the third loses one in four.
type Pool struct {
	New  func() any
	q    []any
	vc   simrt.VC
	rng  *simrt.Rng
	lose bool
}

func (p *Pool) Get() any {
	simrt.YI(0)
	if n := len(p.q); n > 0 {
		p.vc.Acquire()
		v := p.q[n-1]
		p.q = p.q[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	simrt.YI(0)
	p.vc.Release()
	if p.rng == nil {
		r := simrt.Entropy()
		p.rng = &r
		p.lose = r.U64()%3 == 0
	}
	if p.lose && p.rng.U64()%4 == 0 {
		return
	}
	p.q = append(p.q, v)
}

// Map is a concurrent map with deterministic iteration order.
type Map struct {
	keys []any
	m    map[any]any
	vc   simrt.VC
}

func (m *Map) sync() { simrt.YI(0); m.vc.Acquire(); m.vc.Release() }
func (m *Map) Load(k any) (any, bool) {
	m.sync()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v any) { m.Swap(k, v) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.sync()
	if m.m == nil {
		m.m = map[any]any{}
	}
	old, ok := m.m[k]
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return old, ok
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.sync()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.keys = append(m.keys, k)
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.sync()
	v, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.sync()
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.sync()
	if v, ok := m.m[k]; ok && v == o {
		m.LoadAndDelete(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.sync()
	for _, k := range append([]any(nil), m.keys...) {
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}
func (m *Map) Clear() { m.sync(); m.keys, m.m = nil, nil }
