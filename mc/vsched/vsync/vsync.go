// Package vsync mirrors the parts of sync the checked code may use, under the controlled scheduler.
package vsync

import (
	"sync"

	"verif.local/mc/vsched"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is a mutual exclusion lock.
type Mutex struct{ held bool }

// Lock locks.
func (m *Mutex) Lock() {
	vsched.Op(func() bool { return !m.held }, "lock")
	m.held = true
}

// TryLock tries to lock.
func (m *Mutex) TryLock() bool {
	vsched.Point()
	if m.held {
		return false
	}
	m.held = true
	return true
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	vsched.Op(nil, "unlocked")
}

// RWMutex is a reader/writer lock with the writer preference of the original.
type RWMutex struct {
	writer, pending bool
	readers         int
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	vsched.Op(func() bool { return !m.writer && !m.pending }, "lock")
	if m.readers == 0 {
		m.writer = true
		return
	}
	m.pending = true
	vsched.Op(func() bool { return m.readers == 0 }, "lock, waiting for readers")
	m.pending, m.writer = false, true
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	vsched.Point()
	if m.writer || m.pending || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

// Unlock unlocks a writer.
func (m *RWMutex) Unlock() {
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	vsched.Op(nil, "unlocked")
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	vsched.Op(func() bool { return !m.writer && !m.pending }, "rlock")
	m.readers++
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	vsched.Point()
	if m.writer || m.pending {
		return false
	}
	m.readers++
	return true
}

// RUnlock unlocks a reader.
func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	vsched.Op(nil, "runlocked")
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns the reader side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup waits for goroutines.
type WaitGroup struct{ n int }

// Add adds.
func (w *WaitGroup) Add(d int) {
	vsched.Op(nil, "wg add")
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits for zero.
func (w *WaitGroup) Wait() { vsched.Op(func() bool { return w.n == 0 }, "wg wait") }

// Go runs f in a goroutine of the group.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() { defer w.Done(); f() })
}

// Once runs a function once.
type Once struct {
	m    Mutex
	done bool
}

// Do runs f the first time.
func (o *Once) Do(f func()) {
	vsched.Point()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc (without panic propagation).
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Cond is a condition variable.
type Cond struct {
	L    Locker
	q    []*bool
	keep struct{}
}

// NewCond makes a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
func (c *Cond) Wait() {
	b := new(bool)
	c.q = append(c.q, b)
	c.L.Unlock()
	vsched.Op(func() bool { return *b }, "cond wait")
	c.L.Lock()
}

// Signal wakes one.
func (c *Cond) Signal() {
	vsched.Point()
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
}

// Broadcast wakes all.
func (c *Cond) Broadcast() {
	vsched.Point()
	for _, b := range c.q {
		*b = true
	}
	c.q = nil
}

// Map is a concurrent map.
type Map struct{ m map[any]any }

func (m *Map) init() {
	vsched.Point()
	if m.m == nil {
		m.m = map[any]any{}
	}
}

// Load loads.
func (m *Map) Load(k any) (any, bool) { m.init(); v, ok := m.m[k]; return v, ok }

// Store stores.
func (m *Map) Store(k, v any) { m.init(); m.m[k] = v }

// LoadOrStore loads or stores.
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.init()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.m[k] = v
	return v, false
}

// LoadAndDelete loads and deletes.
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.init()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}

// Delete deletes.
func (m *Map) Delete(k any) { m.init(); delete(m.m, k) }

// Pool is a pool that never keeps anything.
type Pool struct{ New func() any }

// Get makes a new value.
func (p *Pool) Get() any {
	if p.New == nil {
		return nil
	}
	return p.New()
}

// Put drops the value.
func (p *Pool) Put(any) {}
