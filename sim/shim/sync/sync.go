//go:build go1.22

// Package sync replaces the standard package inside the simulation.
package sync

import (
	rsync "sync"
	"unsafe"

	"github.com/bobg/fab/zsim"
)

type Locker = rsync.Locker

type Mutex struct {
	locked bool
}

type mutexFree struct{ m *Mutex }

//go:norace
func (w mutexFree) Ready() bool { return !w.m.locked }

//go:norace
func (m *Mutex) Lock() {
	if !zsim.Active() {
		m.locked = true
		return
	}
	if zsim.Dead() {
		return
	}
	zsim.Yield(50)
	if zsim.Dead() {
		return
	}
	for m.locked {
		zsim.Block(mutexFree{m}, -1)
	}
	m.locked = true
	zsim.Acquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	if zsim.Dead() {
		return false
	}
	zsim.Yield(51)
	if m.locked {
		return false
	}
	m.locked = true
	zsim.Acquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if zsim.Exiting() {
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	zsim.Release(unsafe.Pointer(m))
	m.locked = false
	zsim.Yield(52)
}

type RWMutex struct {
	w       bool
	readers int
	pending int
	relR    byte
}

type rwFree struct{ m *RWMutex }

//go:norace
func (w rwFree) Ready() bool { return !w.m.w && w.m.readers == 0 }

type rFree struct{ m *RWMutex }

//go:norace
func (w rFree) Ready() bool { return !w.m.w && w.m.pending == 0 }

//go:norace
func (m *RWMutex) Lock() {
	if zsim.Dead() {
		return
	}
	zsim.Yield(53)
	if zsim.Dead() {
		return
	}
	m.pending++
	for m.w || m.readers > 0 {
		zsim.Block(rwFree{m}, -1)
	}
	m.pending--
	m.w = true
	zsim.Acquire(unsafe.Pointer(m))
	zsim.Acquire(unsafe.Pointer(&m.relR))
}

//go:norace
func (m *RWMutex) Unlock() {
	if zsim.Exiting() {
		return
	}
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	zsim.Release(unsafe.Pointer(m))
	m.w = false
	zsim.Yield(54)
}

//go:norace
func (m *RWMutex) RLock() {
	if zsim.Dead() {
		return
	}
	zsim.Yield(55)
	if zsim.Dead() {
		return
	}
	for m.w || m.pending > 0 {
		zsim.Block(rFree{m}, -1)
	}
	m.readers++
	zsim.Acquire(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) RUnlock() {
	if zsim.Exiting() {
		return
	}
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	zsim.Release(unsafe.Pointer(&m.relR))
	m.readers--
	zsim.Yield(56)
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if zsim.Dead() || m.w || m.readers > 0 {
		return false
	}
	m.w = true
	zsim.Acquire(unsafe.Pointer(m))
	zsim.Acquire(unsafe.Pointer(&m.relR))
	return true
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if zsim.Dead() || m.w {
		return false
	}
	m.readers++
	zsim.Acquire(unsafe.Pointer(m))
	return true
}

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

type WaitGroup struct {
	n int
}

type wgZero struct{ w *WaitGroup }

//go:norace
func (w wgZero) Ready() bool { return w.w.n <= 0 }

//go:norace
func (w *WaitGroup) Add(d int) {
	if zsim.Exiting() {
		return
	}
	zsim.Release(unsafe.Pointer(w))
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	zsim.Yield(57)
}

//go:norace
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	if zsim.Dead() {
		return
	}
	zsim.Yield(58)
	if zsim.Dead() {
		return
	}
	for w.n > 0 {
		zsim.Block(wgZero{w}, -1)
	}
	zsim.Acquire(unsafe.Pointer(w))
}

// Go is present in newer versions of the standard package.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	zsim.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	done bool
	m    Mutex
}

//go:norace
func (o *Once) isDone() bool {
	if o.done {
		zsim.Acquire(unsafe.Pointer(o))
	}
	return o.done
}

//go:norace
func (o *Once) setDone() {
	zsim.Release(unsafe.Pointer(o))
	o.done = true
}

func (o *Once) Do(f func()) {
	if zsim.Dead() {
		return
	}
	zsim.Yield(59)
	if o.isDone() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

type Cond struct {
	L       Locker
	waiters []*condWaiter
}

type condWaiter struct {
	woken bool
	task  *zsim.Task
}

//go:norace
func (w *condWaiter) Ready() bool { return w.woken }

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if zsim.Dead() {
		return
	}
	w := &condWaiter{task: zsim.Cur()}
	zsim.CoreEnter()
	c.waiters = append(c.waiters, w)
	zsim.CoreExit()
	c.L.Unlock()
	for !w.isWoken() {
		zsim.Block(w, -1)
	}
	c.L.Lock()
}

//go:norace
func (w *condWaiter) isWoken() bool { return w.woken }

//go:norace
func (w *condWaiter) wakeUp() { w.woken = true }

func (c *Cond) Signal() {
	if zsim.Exiting() {
		return
	}
	zsim.Yield(60)
	zsim.CoreEnter()
	if len(c.waiters) > 0 {
		c.waiters[0].wakeUp()
		c.waiters = c.waiters[1:]
	}
	zsim.CoreExit()
}

func (c *Cond) Broadcast() {
	if zsim.Exiting() {
		return
	}
	zsim.Yield(61)
	zsim.CoreEnter()
	for _, w := range c.waiters {
		w.wakeUp()
	}
	c.waiters = nil
	zsim.CoreExit()
}

// Map is a plain locked map.
type Map struct {
	mu Mutex
	m  map[any]any
	k  []any
}

func (m *Map) Load(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.k = append(m.k, k)
	}
	m.m[k] = v
}
func (m *Map) del(k any) {
	delete(m.m, k)
	for i, x := range m.k {
		if x == k {
			m.k = append(m.k[:i:i], m.k[i+1:]...)
			return
		}
	}
}
func (m *Map) Store(k, v any) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.set(k, v)
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	x, ok := m.m[k]
	m.set(k, v)
	return x, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if x, ok := m.m[k]; ok && x == o {
		m.set(k, n)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if x, ok := m.m[k]; ok && x == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.m, m.k = nil, nil
}
func (m *Map) Range(f func(k, v any) bool) {
	m.mu.Lock()
	ks := append([]any(nil), m.k...)
	m.mu.Unlock()
	for _, k := range ks {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}

// Pool never reuses across tasks in a surprising way: a simple stack.
type Pool struct {
	New func() any
	mu  Mutex
	s   []any
}

func (p *Pool) Get() any {
	p.mu.Lock()
	if n := len(p.s); n > 0 && zsim.Env(2) == 0 {
		x := p.s[n-1]
		p.s = p.s[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	p.mu.Lock()
	p.s = append(p.s, x)
	p.mu.Unlock()
}
