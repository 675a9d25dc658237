// Package sync replaces sync under the controlled scheduler.
package sync

import (
	"sync"

	"vsched"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is sync.Mutex.
type Mutex struct {
	m    sync.Mutex
	held bool
}

// Lock locks.
func (m *Mutex) Lock() {
	if !vsched.Active() {
		m.m.Lock()
		m.held = true
		return
	}
	vsched.Point()
	vsched.Block("Mutex.Lock", func() bool { return !m.held })
	m.held = true
}

// TryLock tries to lock.
func (m *Mutex) TryLock() bool {
	if !vsched.Active() {
		if m.m.TryLock() {
			m.held = true
			return true
		}
		return false
	}
	vsched.Point()
	if m.held {
		return false
	}
	m.held = true
	return true
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	if !vsched.Active() {
		m.held = false
		m.m.Unlock()
		return
	}
	if vsched.Dead() {
		m.held = false
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	vsched.Point()
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	m sync.RWMutex
	w bool
	r int
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	if !vsched.Active() {
		m.m.Lock()
		return
	}
	vsched.Point()
	vsched.Block("RWMutex.Lock", func() bool { return !m.w && m.r == 0 })
	m.w = true
}

// Unlock unlocks.
func (m *RWMutex) Unlock() {
	if !vsched.Active() {
		m.m.Unlock()
		return
	}
	m.w = false
	if !vsched.Dead() {
		vsched.Point()
	}
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	if !vsched.Active() {
		m.m.RLock()
		return
	}
	vsched.Point()
	vsched.Block("RWMutex.RLock", func() bool { return !m.w })
	m.r++
}

// RUnlock unlocks.
func (m *RWMutex) RUnlock() {
	if !vsched.Active() {
		m.m.RUnlock()
		return
	}
	m.r--
	if !vsched.Dead() {
		vsched.Point()
	}
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	if !vsched.Active() {
		return m.m.TryLock()
	}
	vsched.Point()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	if !vsched.Active() {
		return m.m.TryRLock()
	}
	vsched.Point()
	if m.w {
		return false
	}
	m.r++
	return true
}

// RLocker is a locker for reading.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f once.
func (o *Once) Do(f func()) {
	vsched.Point()
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			// f may have been cut together with the execution
			if !vsched.Dead() {
				o.done = true
			}
		}()
		f()
	}
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	m sync.WaitGroup
	n int
}

// Add adds.
func (w *WaitGroup) Add(n int) {
	if !vsched.Active() {
		w.m.Add(n)
		return
	}
	w.n += n
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if !vsched.Dead() {
		vsched.Point()
	}
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits.
func (w *WaitGroup) Wait() {
	if !vsched.Active() {
		w.m.Wait()
		return
	}
	vsched.Point()
	vsched.Block("WaitGroup.Wait", func() bool { return w.n == 0 })
}

// Go calls f in a goroutine.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() {
		defer w.Done()
		f()
	})
}

// Cond is sync.Cond.
type Cond struct {
	L    Locker
	list []*bool
	m    sync.Mutex
	c    *sync.Cond
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) real() *sync.Cond {
	c.m.Lock()
	defer c.m.Unlock()
	if c.c == nil {
		c.c = sync.NewCond(c.L)
	}
	return c.c
}

// Wait waits for Signal or Broadcast.
func (c *Cond) Wait() {
	if !vsched.Active() {
		c.real().Wait()
		return
	}
	vsched.Point()
	woken := new(bool)
	c.list = append(c.list, woken)
	c.L.Unlock()
	vsched.Block("Cond.Wait", func() bool { return *woken })
	c.L.Lock()
}

func (c *Cond) wake(n int) {
	vsched.Point()
	for ; n > 0 && len(c.list) > 0; n-- {
		*c.list[0] = true
		c.list = c.list[1:]
	}
}

// Signal wakes one waiting goroutine.
func (c *Cond) Signal() {
	if !vsched.Active() {
		c.real().Signal()
		return
	}
	if !vsched.Dead() {
		c.wake(1)
	}
}

// Broadcast wakes all waiting goroutines.
func (c *Cond) Broadcast() {
	if !vsched.Active() {
		c.real().Broadcast()
		return
	}
	if !vsched.Dead() {
		c.wake(len(c.list))
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

// Pool is sync.Pool.
type Pool struct {
	New  func() interface{}
	list []interface{}
	m    sync.Mutex
}

// Get gets an item.
func (p *Pool) Get() interface{} {
	vsched.Point()
	if !vsched.Active() {
		p.m.Lock()
		defer p.m.Unlock()
	}
	if n := len(p.list); n > 0 {
		v := p.list[n-1]
		p.list = p.list[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put puts an item.
func (p *Pool) Put(v interface{}) {
	if v == nil {
		return
	}
	vsched.Point()
	if !vsched.Active() {
		p.m.Lock()
		defer p.m.Unlock()
	}
	p.list = append(p.list, v)
}

// Map is sync.Map, a part of it.
type Map struct {
	mu Mutex
	m  map[interface{}]interface{}
}

// Load loads.
func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	return v, ok
}

// Store stores.
func (m *Map) Store(k, v interface{}) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	m.m[k] = v
}

// LoadOrStore loads or stores.
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	m.m[k] = v
	return v, false
}

// Delete deletes.
func (m *Map) Delete(k interface{}) {
	m.mu.Lock()
	defer m.mu.Unlock()
	delete(m.m, k)
}

// LoadAndDelete deletes and gives what was stored.
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}

// Swap stores and gives what was stored before.
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	o, ok := m.m[k]
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	m.m[k] = v
	return o, ok
}

// CompareAndSwap replaces a value.
func (m *Map) CompareAndSwap(k, old, v interface{}) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if o, ok := m.m[k]; !ok || o != old {
		return false
	}
	m.m[k] = v
	return true
}

// Range calls f for all items, in the order they have at the start.
func (m *Map) Range(f func(k, v interface{}) bool) {
	type item struct{ k, v interface{} }
	m.mu.Lock()
	var l []item
	for k, v := range m.m {
		l = append(l, item{k, v})
	}
	m.mu.Unlock()
	for _, x := range l {
		if !f(x.k, x.v) {
			break
		}
	}
}

// Clear deletes everything.
func (m *Map) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.m = nil
}
