// Package ssync is the simulator's stand-in for package sync: the same API,
// blocking goes through the simulated scheduler, and the race detector is told
// exactly the happens-before edges the real primitives establish.
package ssync

import (
	"runtime"
	"unsafe"

	"verif.local/sim/simrt"
)

// This package must not mention package sync: instantiating sync.Map's generic
// internals here, without race instrumentation, would replace the instrumented
// copies in the whole binary.

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

func acquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func release(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func releaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// Mutex is a mutual exclusion lock.
type Mutex struct {
	locked bool
}

// Lock locks m.
func (m *Mutex) Lock() {
	simrt.Y(1)
	for m.locked {
		simrt.Block(unsafe.Pointer(m))
	}
	m.locked = true
	acquire(unsafe.Pointer(m))
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	simrt.Y(1)
	if m.locked {
		return false
	}
	m.locked = true
	acquire(unsafe.Pointer(m))
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	release(unsafe.Pointer(m))
	m.locked = false
	simrt.Wake(unsafe.Pointer(m))
	simrt.Y(2)
}

// RWMutex is a reader/writer lock; a waiting writer holds off new readers.
type RWMutex struct {
	writer  bool
	readers int32
	waiting int32
	rs      byte
	ws      byte
}

// RLock locks rw for reading.
func (rw *RWMutex) RLock() {
	simrt.Y(3)
	for rw.writer || rw.waiting > 0 {
		simrt.Block(unsafe.Pointer(rw))
	}
	rw.readers++
	acquire(unsafe.Pointer(&rw.rs))
}

// TryRLock tries to lock rw for reading.
func (rw *RWMutex) TryRLock() bool {
	simrt.Y(3)
	if rw.writer || rw.waiting > 0 {
		return false
	}
	rw.readers++
	acquire(unsafe.Pointer(&rw.rs))
	return true
}

// RUnlock undoes RLock.
func (rw *RWMutex) RUnlock() {
	if rw.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	releaseMerge(unsafe.Pointer(&rw.ws))
	rw.readers--
	simrt.Wake(unsafe.Pointer(rw))
	simrt.Y(4)
}

// Lock locks rw for writing.
func (rw *RWMutex) Lock() {
	simrt.Y(5)
	rw.waiting++
	for rw.writer || rw.readers > 0 {
		simrt.Block(unsafe.Pointer(rw))
	}
	rw.waiting--
	rw.writer = true
	acquire(unsafe.Pointer(&rw.rs))
	acquire(unsafe.Pointer(&rw.ws))
}

// TryLock tries to lock rw for writing.
func (rw *RWMutex) TryLock() bool {
	simrt.Y(5)
	if rw.writer || rw.readers > 0 {
		return false
	}
	rw.writer = true
	acquire(unsafe.Pointer(&rw.rs))
	acquire(unsafe.Pointer(&rw.ws))
	return true
}

// Unlock unlocks rw for writing.
func (rw *RWMutex) Unlock() {
	if !rw.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	release(unsafe.Pointer(&rw.rs))
	rw.writer = false
	simrt.Wake(unsafe.Pointer(rw))
	simrt.Y(6)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for reading.
func (rw *RWMutex) RLocker() Locker { return (*rlocker)(rw) }

// Once runs a function once.
type Once struct {
	done bool
	m    Mutex
	d    byte
}

// Do runs f if it is the first call.
func (o *Once) Do(f func()) {
	simrt.Y(7)
	if o.done {
		acquire(unsafe.Pointer(&o.d))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done {
		return
	}
	defer func() {
		release(unsafe.Pointer(&o.d))
		o.done = true
	}()
	f()
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// WaitGroup waits for tasks.
type WaitGroup struct {
	n int
	d byte
}

// Add adds delta.
func (wg *WaitGroup) Add(delta int) {
	simrt.Y(8)
	if delta < 0 {
		releaseMerge(unsafe.Pointer(&wg.d))
	}
	wg.n += delta
	if wg.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if wg.n == 0 {
		simrt.Wake(unsafe.Pointer(wg))
	}
}

// Done decrements.
func (wg *WaitGroup) Done() { wg.Add(-1) }

// Wait blocks until zero.
func (wg *WaitGroup) Wait() {
	simrt.Y(9)
	for wg.n > 0 {
		simrt.Block(unsafe.Pointer(wg))
	}
	acquire(unsafe.Pointer(&wg.d))
}

// Go runs f in a new task.
func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	simrt.Go(func() {
		defer wg.Done()
		f()
	})
}

// Cond is a condition variable.
type Cond struct {
	L       Locker
	waiters []*byte
}

// NewCond returns a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits.
func (c *Cond) Wait() {
	k := new(byte)
	c.waiters = append(c.waiters, k)
	c.L.Unlock()
	for *k == 0 {
		simrt.Block(unsafe.Pointer(k))
	}
	c.L.Lock()
}

// Signal wakes one.
func (c *Cond) Signal() {
	simrt.Y(10)
	if len(c.waiters) > 0 {
		k := c.waiters[0]
		c.waiters = c.waiters[1:]
		*k = 1
		simrt.Wake(unsafe.Pointer(k))
	}
}

// Broadcast wakes all.
func (c *Cond) Broadcast() {
	simrt.Y(10)
	for _, k := range c.waiters {
		*k = 1
		simrt.Wake(unsafe.Pointer(k))
	}
	c.waiters = nil
}

// Pool is a deterministic free list: last in, first out, items may be dropped
// by the simulator (as the garbage collector may).
type Pool struct {
	New   func() any
	items []any
}

type eface struct{ t, p unsafe.Pointer }

func poolAddr(p *Pool) unsafe.Pointer { return unsafe.Pointer(p) }

// Get takes an item.
func (p *Pool) Get() any {
	simrt.Y(11)
	if n := len(p.items); n > 0 && simrt.Choose("pool-drop", 1, 100) == 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		acquire((*eface)(unsafe.Pointer(&x)).p)
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an item.
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	simrt.Y(12)
	releaseMerge((*eface)(unsafe.Pointer(&x)).p)
	p.items = append(p.items, x)
}

var _ = poolAddr

type mapEntry struct {
	k, v any
	dead bool
}

// Map is sync.Map: never blocks; one scheduling point per operation.
type Map struct {
	es []*mapEntry
}

func (m *Map) find(k any) *mapEntry {
	for _, e := range m.es {
		if !e.dead && e.k == k {
			acquire(unsafe.Pointer(e))
			return e
		}
	}
	return nil
}

func (m *Map) put(k, v any) {
	e := &mapEntry{k: k, v: v}
	releaseMerge(unsafe.Pointer(e))
	m.es = append(m.es, e)
}

func (m *Map) set(e *mapEntry, v any) {
	releaseMerge(unsafe.Pointer(e))
	e.v = v
}

func (m *Map) kill(e *mapEntry) {
	e.dead = true
	out := make([]*mapEntry, 0, len(m.es))
	for _, x := range m.es {
		if x != e {
			out = append(out, x)
		}
	}
	m.es = out
}

// Load is sync.Map.Load.
func (m *Map) Load(key any) (any, bool) {
	simrt.Y(13)
	if e := m.find(key); e != nil {
		return e.v, true
	}
	return nil, false
}

// Store is sync.Map.Store.
func (m *Map) Store(key, value any) { m.Swap(key, value) }

// Swap is sync.Map.Swap.
func (m *Map) Swap(key, value any) (any, bool) {
	simrt.Y(13)
	if e := m.find(key); e != nil {
		old := e.v
		m.set(e, value)
		return old, true
	}
	m.put(key, value)
	return nil, false
}

// LoadOrStore is sync.Map.LoadOrStore.
func (m *Map) LoadOrStore(key, value any) (any, bool) {
	simrt.Y(13)
	if e := m.find(key); e != nil {
		return e.v, true
	}
	m.put(key, value)
	return value, false
}

// LoadAndDelete is sync.Map.LoadAndDelete.
func (m *Map) LoadAndDelete(key any) (any, bool) {
	simrt.Y(13)
	if e := m.find(key); e != nil {
		m.kill(e)
		return e.v, true
	}
	return nil, false
}

// Delete is sync.Map.Delete.
func (m *Map) Delete(key any) { m.LoadAndDelete(key) }

// CompareAndSwap is sync.Map.CompareAndSwap.
func (m *Map) CompareAndSwap(key, old, new any) bool {
	simrt.Y(13)
	if e := m.find(key); e != nil && e.v == old {
		m.set(e, new)
		return true
	}
	return false
}

// CompareAndDelete is sync.Map.CompareAndDelete.
func (m *Map) CompareAndDelete(key, old any) bool {
	simrt.Y(13)
	if e := m.find(key); e != nil && e.v == old {
		m.kill(e)
		return true
	}
	return false
}

// Range is sync.Map.Range.
func (m *Map) Range(f func(key, value any) bool) {
	for _, e := range append([]*mapEntry(nil), m.es...) {
		simrt.Y(13)
		if e.dead {
			continue
		}
		acquire(unsafe.Pointer(e))
		if !f(e.k, e.v) {
			return
		}
	}
}

// Clear is sync.Map.Clear.
func (m *Map) Clear() {
	simrt.Y(13)
	for _, e := range m.es {
		e.dead = true
	}
	m.es = nil
}
