// Package msync stands in for package sync in the instrumented copy of the
// code under test: same API, but every acquiring operation is a scheduling
// point of the controlled scheduler and blocking is modelled exactly
// (including Go's rule that a waiting writer blocks new readers).
package msync

import (
	"sync"
	"unsafe"

	"github.com/justyntemme/vst3go/verifmc/sched"
)

type Locker = sync.Locker

// Mutex models sync.Mutex.
type Mutex struct {
	locked bool
	ra     byte
}

type mwait struct{ m *Mutex }

//go:noinline
func (w mwait) Ready() bool { return !w.m.locked }

//go:noinline
func (m *Mutex) Lock() {
	sched.Block(mwait{m}, "Mutex.Lock")
	m.locked = true
	sched.Acquire(unsafe.Pointer(&m.ra))
}

//go:noinline
func (m *Mutex) TryLock() bool {
	sched.Point("Mutex.TryLock")
	if m.locked {
		return false
	}
	m.locked = true
	sched.Acquire(unsafe.Pointer(&m.ra))
	return true
}

//go:noinline
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	sched.Release(unsafe.Pointer(&m.ra))
	m.locked = false
}

// RWMutex models sync.RWMutex.
type RWMutex struct {
	writer   bool
	readers  int
	wpending int
	rw, rr   byte
}

type rwait struct{ m *RWMutex }

//go:noinline
func (w rwait) Ready() bool { return !w.m.writer && w.m.wpending == 0 }

type wwait struct{ m *RWMutex }

//go:noinline
func (w wwait) Ready() bool { return !w.m.writer && w.m.readers == 0 }

//go:noinline
func (m *RWMutex) RLock() {
	sched.Block(rwait{m}, "RWMutex.RLock")
	m.readers++
	sched.Acquire(unsafe.Pointer(&m.rw))
}

//go:noinline
func (m *RWMutex) TryRLock() bool {
	sched.Point("RWMutex.TryRLock")
	if m.writer || m.wpending > 0 {
		return false
	}
	m.readers++
	sched.Acquire(unsafe.Pointer(&m.rw))
	return true
}

//go:noinline
func (m *RWMutex) RUnlock() {
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	sched.ReleaseMerge(unsafe.Pointer(&m.rr))
	m.readers--
}

//go:noinline
func (m *RWMutex) Lock() {
	sched.Point("RWMutex.Lock")
	if m.writer || m.readers > 0 {
		m.wpending++
		sched.Block(wwait{m}, "RWMutex.Lock(wait)")
		m.wpending--
	}
	m.writer = true
	sched.Acquire(unsafe.Pointer(&m.rw))
	sched.Acquire(unsafe.Pointer(&m.rr))
}

//go:noinline
func (m *RWMutex) TryLock() bool {
	sched.Point("RWMutex.TryLock")
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	sched.Acquire(unsafe.Pointer(&m.rw))
	sched.Acquire(unsafe.Pointer(&m.rr))
	return true
}

//go:noinline
func (m *RWMutex) Unlock() {
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	sched.Release(unsafe.Pointer(&m.rw))
	m.writer = false
}

type rlocker RWMutex

//go:noinline
func (r *rlocker) Lock() { (*RWMutex)(r).RLock() }

//go:noinline
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

//go:noinline
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once models sync.Once.
type Once struct {
	m    Mutex
	done bool
}

//go:noinline
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

//go:noinline
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// WaitGroup models sync.WaitGroup.
type WaitGroup struct {
	n  int
	ra byte
}

type wgwait struct{ w *WaitGroup }

//go:noinline
func (w wgwait) Ready() bool { return w.w.n == 0 }

//go:noinline
func (w *WaitGroup) Add(d int) {
	sched.Point("WaitGroup.Add")
	sched.ReleaseMerge(unsafe.Pointer(&w.ra))
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

//go:noinline
func (w *WaitGroup) Done() { w.Add(-1) }

//go:noinline
func (w *WaitGroup) Wait() {
	sched.Block(wgwait{w}, "WaitGroup.Wait")
	sched.Acquire(unsafe.Pointer(&w.ra))
}

// Pool models sync.Pool: Get may return any pooled item or miss (the runtime
// may drop items at any time), explored as an environment choice.
type Pool struct {
	New   func() any
	items []any
	m     Mutex
}

//go:noinline
func (p *Pool) Get() any {
	p.m.Lock()
	if n := len(p.items); n > 0 {
		c := sched.Choose(n+1, "Pool.Get")
		if c < n {
			i := n - 1 - c
			x := p.items[i]
			p.items = append(append([]any(nil), p.items[:i]...), p.items[i+1:]...)
			p.m.Unlock()
			return x
		}
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:noinline
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.items = append(p.items, x)
	p.m.Unlock()
}

// Map models sync.Map.
type Map struct {
	m  Mutex
	kv map[any]any
}

//go:noinline
func (m *Map) Load(k any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	v, ok := m.kv[k]
	return v, ok
}

//go:noinline
func (m *Map) Store(k, v any) {
	m.m.Lock()
	defer m.m.Unlock()
	if m.kv == nil {
		m.kv = map[any]any{}
	}
	m.kv[k] = v
}

//go:noinline
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if o, ok := m.kv[k]; ok {
		return o, true
	}
	if m.kv == nil {
		m.kv = map[any]any{}
	}
	m.kv[k] = v
	return v, false
}

//go:noinline
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	v, ok := m.kv[k]
	delete(m.kv, k)
	return v, ok
}

//go:noinline
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

//go:noinline
func (m *Map) Swap(k, v any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if m.kv == nil {
		m.kv = map[any]any{}
	}
	o, ok := m.kv[k]
	m.kv[k] = v
	return o, ok
}

//go:noinline
func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if o, ok := m.kv[k]; ok && o == old {
		m.kv[k] = new
		return true
	}
	return false
}

//go:noinline
func (m *Map) Range(f func(k, v any) bool) {
	m.m.Lock()
	cp := map[any]any{}
	for k, v := range m.kv {
		cp[k] = v
	}
	m.m.Unlock()
	for k, v := range cp {
		if !f(k, v) {
			return
		}
	}
}

// Cond models sync.Cond.
type Cond struct {
	L     Locker
	queue []*condw
}
type condw struct{ ok bool }

//go:noinline
func (c *condw) Ready() bool { return c.ok }

//go:noinline
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:noinline
func (c *Cond) Wait() {
	w := &condw{}
	c.queue = append(c.queue, w)
	c.L.Unlock()
	sched.Block(w, "Cond.Wait")
	c.L.Lock()
}

//go:noinline
func (c *Cond) Signal() {
	sched.Point("Cond.Signal")
	if len(c.queue) > 0 {
		c.queue[0].ok = true
		c.queue = c.queue[1:]
	}
}

//go:noinline
func (c *Cond) Broadcast() {
	sched.Point("Cond.Broadcast")
	for _, w := range c.queue {
		w.ok = true
	}
	c.queue = nil
}
