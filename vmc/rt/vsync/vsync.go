// Package vsync stands in for package sync.
package vsync

import (
	"sync"
	"unsafe"

	rt "github.com/livekit/media-sdk/vmcrt"
)

type Locker = sync.Locker

type Mutex struct {
	st   rt.MutexState
	real sync.Mutex
}

func (m *Mutex) Lock() {
	if !m.st.Lock() {
		m.real.Lock()
	}
}
func (m *Mutex) Unlock() {
	if !m.st.Unlock() {
		m.real.Unlock()
	}
}
func (m *Mutex) TryLock() bool {
	if ok, managed := m.st.TryLock(); managed {
		return ok
	}
	return m.real.TryLock()
}

type RWMutex struct {
	st   rt.RWState
	real sync.RWMutex
}

func (m *RWMutex) Lock() {
	if !m.st.Lock() {
		m.real.Lock()
	}
}
func (m *RWMutex) Unlock() {
	if !m.st.Unlock() {
		m.real.Unlock()
	}
}
func (m *RWMutex) RLock() {
	if !m.st.RLock() {
		m.real.RLock()
	}
}
func (m *RWMutex) RUnlock() {
	if !m.st.RUnlock() {
		m.real.RUnlock()
	}
}
func (m *RWMutex) TryLock() bool {
	if ok, managed := m.st.Try(true); managed {
		return ok
	}
	return m.real.TryLock()
}
func (m *RWMutex) TryRLock() bool {
	if ok, managed := m.st.Try(false); managed {
		return ok
	}
	return m.real.TryRLock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	st   rt.OnceState
	real sync.Once
}

func (o *Once) Do(f func()) {
	if o.st.Do(f) {
		return
	}
	if o.st.Done {
		return
	}
	o.real.Do(func() {
		f()
		o.st.Done = true
	})
}

type WaitGroup struct {
	st   rt.WGState
	real sync.WaitGroup
}

func (w *WaitGroup) Add(d int) {
	if !w.st.Add(d) {
		w.real.Add(d)
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if !w.st.Wait() {
		w.real.Wait()
	}
}

// Go exists since Go 1.25.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

type Cond struct {
	L    Locker
	st   rt.CondState
	real *sync.Cond
	rmu  sync.Mutex
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) r() *sync.Cond {
	c.rmu.Lock()
	defer c.rmu.Unlock()
	if c.real == nil {
		c.real = sync.NewCond(c.L)
	}
	return c.real
}

func (c *Cond) Wait() {
	if !c.st.Wait(c.L.Unlock, c.L.Lock) {
		c.r().Wait()
	}
}
func (c *Cond) Signal() {
	if !c.st.Wake(false) {
		c.r().Signal()
	}
}
func (c *Cond) Broadcast() {
	if !c.st.Wake(true) {
		c.r().Broadcast()
	}
}

// Pool is a deterministic LIFO free list.
type Pool struct {
	New   func() any
	items []any
	ep    unsafe.Pointer
	mu    sync.Mutex
}

func (p *Pool) Get() any {
	if !rt.Active() {
		p.mu.Lock()
		defer p.mu.Unlock()
	} else {
		rt.AtomicPoint(unsafe.Pointer(p), true)
	}
	if e := rt.EpochID(); e != p.ep {
		p.ep, p.items = e, nil
	}
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		rt.AcquireObj(unsafe.Pointer(p))
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	if !rt.Active() {
		p.mu.Lock()
		defer p.mu.Unlock()
	} else {
		rt.AtomicPoint(unsafe.Pointer(p), true)
	}
	if e := rt.EpochID(); e != p.ep {
		p.ep, p.items = e, nil
	}
	rt.ReleaseObj(unsafe.Pointer(p))
	p.items = append(p.items, v)
}

// Map is sync.Map with a scheduling point before every operation.
type Map struct{ m sync.Map }

func (m *Map) pt(w bool)                        { rt.AtomicPoint(unsafe.Pointer(m), w) }
func (m *Map) Load(k any) (any, bool)           { m.pt(false); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { m.pt(true); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { m.pt(true); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { m.pt(true); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { m.pt(true); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { m.pt(true); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { m.pt(true); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { m.pt(true); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { m.pt(false); m.m.Range(f) }
func (m *Map) Clear()                           { m.pt(true); m.m.Clear() }

func OnceFunc(f func()) func() {
	var once Once
	return func() { once.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var once Once
	var v T
	return func() T {
		once.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var once Once
	var a T1
	var b T2
	return func() (T1, T2) {
		once.Do(func() { a, b = f() })
		return a, b
	}
}
