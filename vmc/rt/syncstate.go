package vmcrt

import (
	"runtime"
	"unsafe"
)

// MutexState is the model of a mutex.
type MutexState struct {
	ep    *exec
	owner *thread
	ra    uint64
}

func (m *MutexState) fix(e *exec) {
	if m.ep != e {
		m.ep, m.owner = e, nil
	}
}

// Lock acquires m; it reports false if no execution is active.
func (m *MutexState) Lock() bool {
	e := active
	if e == nil {
		return false
	}
	if e.aborting {
		return true
	}
	m.fix(e)
	e.point(op{kind: opLock, mu: m})
	m.owner = e.cur
	raceAcquire(&m.ra)
	return true
}

// TryLock tries to acquire m.
func (m *MutexState) TryLock() (ok, managed bool) {
	e := active
	if e == nil {
		return false, false
	}
	if e.aborting {
		return true, true
	}
	m.fix(e)
	e.point(op{kind: opAcc, obj: unsafe.Pointer(m), write: true, what: "trylock"})
	if m.owner != nil {
		return false, true
	}
	m.owner = e.cur
	raceAcquire(&m.ra)
	return true, true
}

// Unlock releases m.
func (m *MutexState) Unlock() bool {
	e := active
	if e == nil {
		return false
	}
	if e.aborting {
		return true
	}
	m.fix(e)
	if m.owner == nil {
		Fail("unlock", "sync: unlock of unlocked mutex")
	}
	m.owner = nil
	raceRelease(&m.ra)
	return true
}

// RWState is the model of a RWMutex; a waiting writer blocks new readers.
type RWState struct {
	ep   *exec
	w    *thread
	r    int
	wait int
	raW  uint64
	raR  uint64
}

func (m *RWState) fix(e *exec) {
	if m.ep != e {
		*m = RWState{ep: e}
	}
}

func (m *RWState) Lock() bool {
	e := active
	if e == nil {
		return false
	}
	if e.aborting {
		return true
	}
	m.fix(e)
	e.point(op{kind: opAcc, obj: unsafe.Pointer(m), write: true, what: "rw.Lock"})
	if m.w != nil || m.r > 0 {
		m.wait++
		e.point(op{kind: opWLock, rw: m})
		m.wait--
	}
	m.w = e.cur
	raceAcquire(&m.raW)
	raceAcquire(&m.raR)
	return true
}

func (m *RWState) Unlock() bool {
	e := active
	if e == nil {
		return false
	}
	if e.aborting {
		return true
	}
	m.fix(e)
	if m.w == nil {
		Fail("unlock", "sync: Unlock of unlocked RWMutex")
	}
	m.w = nil
	raceRelease(&m.raW)
	return true
}

func (m *RWState) RLock() bool {
	e := active
	if e == nil {
		return false
	}
	if e.aborting {
		return true
	}
	m.fix(e)
	e.point(op{kind: opAwait, obj: unsafe.Pointer(m), write: true, what: "rlock", cond: func() bool { return m.w == nil && m.wait == 0 }})
	m.r++
	raceAcquire(&m.raW)
	return true
}

func (m *RWState) RUnlock() bool {
	e := active
	if e == nil {
		return false
	}
	if e.aborting {
		return true
	}
	m.fix(e)
	if m.r == 0 {
		Fail("unlock", "sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	raceReleaseMerge(&m.raR)
	return true
}

func (m *RWState) Try(write bool) (ok, managed bool) {
	e := active
	if e == nil {
		return false, false
	}
	if e.aborting {
		return true, true
	}
	m.fix(e)
	e.point(op{kind: opAcc, obj: unsafe.Pointer(m), write: true, what: "rw.Try"})
	if m.w != nil || (write && m.r > 0) || (!write && m.wait > 0) {
		return false, true
	}
	raceAcquire(&m.raW)
	if write {
		m.w = e.cur
		raceAcquire(&m.raR)
	} else {
		m.r++
	}
	return true, true
}

// OnceState is the model of sync.Once.
type OnceState struct {
	Done bool
	ep   *exec
	run  *thread
	ra   uint64
}

// Do runs f once; managed is false outside executions.
func (o *OnceState) Do(f func()) (managed bool) {
	e := active
	if e == nil {
		return false
	}
	if e.aborting {
		runtime.Goexit()
	}
	if o.ep != e {
		o.ep, o.run = e, nil
	}
	e.point(op{kind: opAwait, obj: unsafe.Pointer(o), write: true, what: "once.Do", cond: func() bool { return o.run == nil }})
	raceAcquire(&o.ra)
	if o.Done {
		return true
	}
	o.run = e.cur
	defer func() {
		o.run = nil
		if !e.aborting {
			o.Done = true
			raceReleaseMerge(&o.ra)
		}
	}()
	f()
	return true
}

// WGState is the model of sync.WaitGroup.
type WGState struct {
	ep *exec
	n  int
	ra uint64
}

func (w *WGState) Add(d int) bool {
	e := active
	if e == nil {
		return false
	}
	if e.aborting {
		return true
	}
	if w.ep != e {
		w.ep, w.n = e, 0
	}
	e.point(op{kind: opAcc, obj: unsafe.Pointer(w), write: true, what: "wg.Add"})
	raceReleaseMerge(&w.ra)
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	return true
}

func (w *WGState) Wait() bool {
	e := active
	if e == nil {
		return false
	}
	if e.aborting {
		runtime.Goexit()
	}
	if w.ep != e {
		w.ep, w.n = e, 0
	}
	e.point(op{kind: opAwait, obj: unsafe.Pointer(w), write: true, what: "wg.Wait", cond: func() bool { return w.n == 0 }})
	raceAcquire(&w.ra)
	return true
}

// CondState is the model of sync.Cond.
type CondState struct {
	ep *exec
	q  []*condWaiter
}

type condWaiter struct{ ready bool }

func (c *CondState) fix(e *exec) {
	if c.ep != e {
		c.ep, c.q = e, nil
	}
}

func (c *CondState) Wait(unlock, lock func()) bool {
	e := active
	if e == nil {
		return false
	}
	if e.aborting {
		runtime.Goexit()
	}
	c.fix(e)
	w := &condWaiter{}
	c.q = append(c.q, w)
	unlock()
	e.point(op{kind: opAwait, obj: unsafe.Pointer(c), write: true, what: "cond.Wait", cond: func() bool { return w.ready }})
	lock()
	return true
}

func (c *CondState) Wake(all bool) bool {
	e := active
	if e == nil {
		return false
	}
	if e.aborting {
		return true
	}
	c.fix(e)
	e.point(op{kind: opAcc, obj: unsafe.Pointer(c), write: true, what: "cond.Signal"})
	for len(c.q) > 0 {
		c.q[0].ready = true
		c.q = c.q[1:]
		if !all {
			break
		}
	}
	return true
}

// AtomicPoint precedes every atomic operation.
func AtomicPoint(p unsafe.Pointer, write bool) {
	e := active
	if e == nil || e.aborting {
		return
	}
	e.point(op{kind: opAcc, obj: p, write: write, what: "atomic"})
}

// Epoch identifies the current execution (nil outside).
func EpochID() unsafe.Pointer { return unsafe.Pointer(active) }

// Rand is a deterministic per-execution sequence.
func Rand() uint64 {
	e := active
	e.rnd += 0x9e3779b97f4a7c15
	z := e.rnd
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// RandN explores small ranges and falls back to the fixed sequence for large ones.
func RandN(n uint64) uint64 {
	if n > 0 && n <= 8 {
		return uint64(active.choose(int(n), "rand"))
	}
	return Rand() % n
}

// AcquireObj and ReleaseObj tell the race detector about an edge through p.
func AcquireObj(p unsafe.Pointer) { raceAcquire((*uint64)(p)) }
func ReleaseObj(p unsafe.Pointer) { raceReleaseMerge((*uint64)(p)) }
