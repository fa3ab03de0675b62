// Package simsync is package sync under the simulated scheduler.
package simsync

import (
	"sync"

	"recengine/internal/zzsim/rt"
)

// Outside a run (package initialisation) there is one goroutine, so the locks
// need no scheduling.

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is sync.Mutex.
type Mutex struct {
	held bool
	q    rt.WaitQ
	vc   rt.VC
}

// Lock is (*sync.Mutex).Lock.
func (m *Mutex) Lock() {
	rt.Yield(21)
	for m.held {
		if rt.S == nil {
			panic("simsync: deadlock outside a run")
		}
		m.q.Wait("mutex")
	}
	m.held = true
	rt.Acquire(m.vc)
}

// TryLock is (*sync.Mutex).TryLock.
func (m *Mutex) TryLock() bool {
	rt.Yield(21)
	if m.held {
		return false
	}
	m.held = true
	rt.Acquire(m.vc)
	return true
}

// Unlock is (*sync.Mutex).Unlock.
func (m *Mutex) Unlock() {
	if !m.held {
		if rt.Killed() {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	rt.Release(&m.vc)
	m.q.WakeAll()
	rt.Yield(22)
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	writer  bool
	readers int
	pending int
	q       rt.WaitQ
	wvc     rt.VC // of the writers
	rvc     rt.VC // of the readers
}

// Lock is (*sync.RWMutex).Lock.
func (m *RWMutex) Lock() {
	rt.Yield(23)
	m.pending++
	for m.writer || m.readers > 0 {
		if rt.S == nil {
			panic("simsync: deadlock outside a run")
		}
		m.q.Wait("rwmutex.Lock")
	}
	m.pending--
	m.writer = true
	rt.Acquire(m.wvc)
	rt.Acquire(m.rvc)
}

// TryLock is (*sync.RWMutex).TryLock.
func (m *RWMutex) TryLock() bool {
	rt.Yield(23)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	rt.Acquire(m.wvc)
	rt.Acquire(m.rvc)
	return true
}

// Unlock is (*sync.RWMutex).Unlock.
func (m *RWMutex) Unlock() {
	if !m.writer {
		if rt.Killed() {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	rt.Release(&m.wvc)
	m.q.WakeAll()
	rt.Yield(24)
}

// RLock is (*sync.RWMutex).RLock; a waiting writer blocks new readers.
func (m *RWMutex) RLock() {
	rt.Yield(25)
	for m.writer || m.pending > 0 {
		if rt.S == nil {
			panic("simsync: deadlock outside a run")
		}
		m.q.Wait("rwmutex.RLock")
	}
	m.readers++
	rt.Acquire(m.wvc)
}

// TryRLock is (*sync.RWMutex).TryRLock.
func (m *RWMutex) TryRLock() bool {
	rt.Yield(25)
	if m.writer || m.pending > 0 {
		return false
	}
	m.readers++
	rt.Acquire(m.wvc)
	return true
}

// RUnlock is (*sync.RWMutex).RUnlock.
func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		if rt.Killed() {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	rt.Release(&m.rvc)
	m.q.WakeAll()
	rt.Yield(26)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is (*sync.RWMutex).RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	n  int
	q  rt.WaitQ
	vc rt.VC
}

// Add is (*sync.WaitGroup).Add.
func (w *WaitGroup) Add(d int) {
	rt.Yield(27)
	w.n += d
	if d < 0 {
		rt.Release(&w.vc)
	}
	if w.n < 0 {
		if rt.Killed() {
			return
		}
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.WakeAll()
	}
}

// Done is (*sync.WaitGroup).Done.
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait is (*sync.WaitGroup).Wait.
func (w *WaitGroup) Wait() {
	rt.Yield(28)
	for w.n > 0 {
		w.q.Wait("waitgroup")
	}
	rt.Acquire(w.vc)
}

// Go is (*sync.WaitGroup).Go.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() { defer w.Done(); f() })
}

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
	vc   rt.VC
}

// Do is (*sync.Once).Do.
func (o *Once) Do(f func()) {
	if o.done {
		rt.Acquire(o.vc)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true; rt.Release(&o.vc) }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Cond is sync.Cond.
type Cond struct {
	L  Locker
	q  rt.WaitQ
	vc rt.VC
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait is (*sync.Cond).Wait.
func (c *Cond) Wait() {
	// No scheduling point between joining the queue and releasing the lock.
	if rt.Killed() {
		c.q.Wait("cond")
	}
	c.q.WaitUnlocked("cond", c.L.Unlock)
	rt.Acquire(c.vc)
	c.L.Lock()
}

// Signal is (*sync.Cond).Signal.
func (c *Cond) Signal() { rt.Yield(29); rt.Release(&c.vc); c.q.WakeOne() }

// Broadcast is (*sync.Cond).Broadcast.
func (c *Cond) Broadcast() { rt.Yield(29); rt.Release(&c.vc); c.q.WakeAll() }

// Pool is sync.Pool. Which object Get returns is up to the simulator: the one
// put last, the one put first, or a new one.
type Pool struct {
	New   func() any
	items []any
	vc    rt.VC
}

// Get is (*sync.Pool).Get.
func (p *Pool) Get() any {
	rt.Yield(30)
	if n := len(p.items); n > 0 {
		rt.Acquire(p.vc)
		switch rt.Random() % 4 {
		case 0:
		case 1:
			x := p.items[0]
			p.items = append([]any(nil), p.items[1:]...)
			return x
		default:
			x := p.items[n-1]
			p.items = p.items[:n-1]
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put is (*sync.Pool).Put.
func (p *Pool) Put(x any) {
	rt.Yield(30)
	if x != nil {
		rt.Release(&p.vc)
		p.items = append(p.items, x)
	}
}

// Map is sync.Map.
type Map struct {
	m    map[any]any
	keys []any
	vc   rt.VC
}

// Load is (*sync.Map).Load.
func (m *Map) Load(key any) (any, bool) {
	rt.Yield(31)
	rt.Acquire(m.vc)
	v, ok := m.m[key]
	return v, ok
}

// Store is (*sync.Map).Store.
func (m *Map) Store(key, value any) { m.Swap(key, value) }

// Swap is (*sync.Map).Swap.
func (m *Map) Swap(key, value any) (any, bool) {
	rt.Yield(31)
	return m.set(key, value)
}

func (m *Map) set(key, value any) (any, bool) {
	rt.Acquire(m.vc)
	rt.Release(&m.vc)
	if m.m == nil {
		m.m = map[any]any{}
	}
	old, ok := m.m[key]
	if !ok {
		m.keys = append(m.keys, key)
	}
	m.m[key] = value
	return old, ok
}

// LoadOrStore is (*sync.Map).LoadOrStore.
func (m *Map) LoadOrStore(key, value any) (any, bool) {
	rt.Yield(31)
	if v, ok := m.m[key]; ok {
		rt.Acquire(m.vc)
		return v, true
	}
	m.set(key, value)
	return value, false
}

// LoadAndDelete is (*sync.Map).LoadAndDelete.
func (m *Map) LoadAndDelete(key any) (any, bool) {
	rt.Yield(31)
	return m.del(key)
}

func (m *Map) del(key any) (any, bool) {
	rt.Acquire(m.vc)
	rt.Release(&m.vc)
	v, ok := m.m[key]
	if ok {
		delete(m.m, key)
		for i, k := range m.keys {
			if k == key {
				m.keys = append(append([]any(nil), m.keys[:i]...), m.keys[i+1:]...)
				break
			}
		}
	}
	return v, ok
}

// Delete is (*sync.Map).Delete.
func (m *Map) Delete(key any) { m.LoadAndDelete(key) }

// CompareAndSwap is (*sync.Map).CompareAndSwap.
func (m *Map) CompareAndSwap(key, old, new any) bool {
	rt.Yield(31)
	rt.Acquire(m.vc)
	if v, ok := m.m[key]; !ok || v != old {
		return false
	}
	m.set(key, new)
	return true
}

// CompareAndDelete is (*sync.Map).CompareAndDelete.
func (m *Map) CompareAndDelete(key, old any) bool {
	rt.Yield(31)
	rt.Acquire(m.vc)
	if v, ok := m.m[key]; !ok || v != old {
		return false
	}
	m.del(key)
	return true
}

// Range is (*sync.Map).Range.
func (m *Map) Range(f func(key, value any) bool) {
	for _, k := range append([]any(nil), m.keys...) {
		rt.Yield(31)
		rt.Acquire(m.vc)
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}

// Clear is (*sync.Map).Clear.
func (m *Map) Clear() {
	rt.Yield(31)
	rt.Release(&m.vc)
	m.m, m.keys = nil, nil
}
