package vmcrt

import (
	"iter"
	"reflect"
	"runtime"
	"unsafe"
)

const chanTab = 1024

// closedBefore holds the channels closed outside an execution, such as in a package's init.
var closedBefore = map[unsafe.Pointer]any{}

func (e *exec) lookupChan(key unsafe.Pointer, capacity int) *chanState {
	h := int((uintptr(key) >> 4) * 2654435761 % chanTab)
	for {
		c := e.chans[h]
		if c == nil {
			if len(e.chanKeys) > chanTab*3/4 {
				panic("vmcrt: too many channels in one execution")
			}
			c = &chanState{key: key, cap: capacity}
			if len(closedBefore) > 0 {
				_, c.closed = closedBefore[key]
			}
			e.chans[h] = c
			e.chanKeys = append(e.chanKeys, h)
			return c
		}
		if c.key == key {
			return c
		}
		h = (h + 1) % chanTab
	}
}

func chanPtr[T any](c <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

func anyPtr(c any) unsafe.Pointer { return (*[2]unsafe.Pointer)(unsafe.Pointer(&c))[1] }

func (c *chanState) canSend() bool { return c.closed || len(c.recvq) > 0 || len(c.buf) < c.cap }
func (c *chanState) canRecv() bool { return len(c.buf) > 0 || len(c.sendq) > 0 || c.closed }

func removeThread(q []*thread, t *thread) []*thread {
	k := 0
	for _, x := range q {
		if x != t {
			q[k] = x
			k++
		}
	}
	return q[:k]
}

// unpark completes the pending channel operation of a parked thread.
func (e *exec) unpark(t *thread, idx int, val any, ok, closedSend bool) {
	for _, w := range t.wcases {
		if w.c == nil {
			continue
		}
		if w.send {
			w.c.sendq = removeThread(w.c.sendq, t)
		} else {
			w.c.recvq = removeThread(w.c.recvq, t)
		}
	}
	t.selIdx, t.val, t.ok, t.pclosed = idx, val, ok, closedSend
	t.wcases = nil
	t.parked = false
	t.op = op{}
}

func findCase(t *thread, c *chanState, send bool) int {
	for i, w := range t.wcases {
		if w.c == c && w.send == send {
			return i
		}
	}
	return -1
}

func (e *exec) doSend(c *chanState, val any) {
	if c.closed {
		panic("send on closed channel")
	}
	if len(c.recvq) > 0 {
		r := c.recvq[0]
		e.unpark(r, findCase(r, c, false), val, true, false)
		return
	}
	c.buf = append(c.buf, val)
}

func (e *exec) doRecv(c *chanState) (any, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf[0] = nil
		c.buf = c.buf[1:]
		if len(c.sendq) > 0 {
			s := c.sendq[0]
			i := findCase(s, c, true)
			c.buf = append(c.buf, s.wcases[i].val)
			e.unpark(s, i, nil, true, false)
		}
		return v, true
	}
	if len(c.sendq) > 0 {
		s := c.sendq[0]
		i := findCase(s, c, true)
		v := s.wcases[i].val
		e.unpark(s, i, nil, true, false)
		return v, true
	}
	return nil, false
}

// selectOp performs a channel operation; it returns -1 for the default case.
func (e *exec) selectOp(cases []selCase, nb bool) (int, any, bool) {
	if e.aborting {
		runtime.Goexit()
	}
	t := e.cur
	e.point(op{kind: opChan, cases: cases, nb: nb})
	var ready [32]int
	n := 0
	for i := range cases {
		c := cases[i].c
		if c == nil {
			continue
		}
		if cases[i].send && c.canSend() || !cases[i].send && c.canRecv() {
			ready[n] = i
			n++
		}
	}
	if n > 0 {
		i := ready[0]
		if n > 1 {
			i = ready[e.choose(n, "select case")]
		}
		c := cases[i].c
		if cases[i].send {
			raceReleaseMerge(&c.rs)
			raceAcquire(&c.rr)
			e.doSend(c, cases[i].val)
			return i, nil, true
		}
		raceReleaseMerge(&c.rr)
		v, ok := e.doRecv(c)
		raceAcquire(&c.rs)
		return i, v, ok
	}
	if nb {
		return -1, nil, false
	}
	for i := range cases {
		c := cases[i].c
		if c == nil {
			continue
		}
		if cases[i].send {
			raceReleaseMerge(&c.rs)
			c.sendq = append(c.sendq, t)
		} else {
			raceReleaseMerge(&c.rr)
			c.recvq = append(c.recvq, t)
		}
	}
	t.wcases = cases
	e.park()
	i := t.selIdx
	v, ok := t.val, t.ok
	t.val = nil
	c := cases[i].c
	if cases[i].send {
		raceAcquire(&c.rr)
		if t.pclosed {
			panic("send on closed channel")
		}
	} else {
		raceAcquire(&c.rs)
	}
	return i, v, ok
}

func cast[T any](v any) T {
	r, _ := v.(T)
	return r
}

func mkCase(p unsafe.Pointer, capacity int, send bool, v any) selCase {
	if p == nil {
		return selCase{nilc: true, send: send}
	}
	return selCase{send: send, c: active.lookupChan(p, capacity), val: v}
}

// Recv is <-c.
func Recv[T any](c <-chan T) T {
	if active == nil {
		return <-c
	}
	v, _ := recvAny(chanPtr(c), cap(c))
	return cast[T](v)
}

// Recv2 is v, ok := <-c.
func Recv2[T any](c <-chan T) (T, bool) {
	if active == nil {
		v, ok := <-c
		return v, ok
	}
	v, ok := recvAny(chanPtr(c), cap(c))
	return cast[T](v), ok
}

func recvAny(p unsafe.Pointer, capacity int) (any, bool) {
	_, v, ok := active.selectOp([]selCase{mkCase(p, capacity, false, nil)}, false)
	return v, ok
}

func sendAny(p unsafe.Pointer, capacity int, v any) {
	active.selectOp([]selCase{mkCase(p, capacity, true, v)}, false)
}

// SendTo(c)(v) is c <- v.
func SendTo[T any](c chan<- T) func(T) {
	return func(v T) {
		if active == nil {
			c <- v
			return
		}
		sendAny(*(*unsafe.Pointer)(unsafe.Pointer(&c)), cap(c), v)
	}
}

// Close is close(c).
func Close(c any) {
	e := active
	if e == nil {
		reflect.ValueOf(c).Close()
		closedBefore[anyPtr(c)] = c
		return
	}
	if e.aborting {
		return
	}
	p := anyPtr(c)
	if p == nil {
		panic("close of nil channel")
	}
	s := e.lookupChan(p, reflect.ValueOf(c).Cap())
	e.point(op{kind: opAcc, obj: unsafe.Pointer(s), write: true, what: "close"})
	if s.closed {
		panic("close of closed channel")
	}
	raceReleaseMerge(&s.rs)
	s.closed = true
	for len(s.recvq) > 0 {
		r := s.recvq[0]
		e.unpark(r, findCase(r, s, false), nil, false, false)
	}
	for len(s.sendq) > 0 {
		w := s.sendq[0]
		e.unpark(w, findCase(w, s, true), nil, false, true)
	}
}

// Len is len(c).
func Len(c any) int {
	e := active
	if e == nil {
		return reflect.ValueOf(c).Len()
	}
	p := anyPtr(c)
	if p == nil {
		return 0
	}
	s := e.lookupChan(p, reflect.ValueOf(c).Cap())
	if !e.aborting {
		e.point(op{kind: opAcc, obj: unsafe.Pointer(s), write: false, what: "len"})
	}
	return len(s.buf)
}

// RangeChan is range c.
func RangeChan[T any](c <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(c)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Case is one case of a rewritten select.
type Case interface{ scase() *SCase }

// SCase is the untyped part of a select case.
type SCase struct {
	ptr  unsafe.Pointer
	cap  int
	send bool
	val  any
	real reflect.SelectCase
	set  func(v any, ok bool, rv reflect.Value)
}

// RC is a receive case; V and OK hold the result.
type RC[T any] struct {
	s  SCase
	V  T
	OK bool
}

func (r *RC[T]) scase() *SCase { return &r.s }

// RecvCase builds case <-c.
func RecvCase[T any](c <-chan T) *RC[T] {
	r := &RC[T]{s: SCase{ptr: chanPtr(c), cap: cap(c)}}
	if active == nil {
		r.s.real = reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c)}
	}
	r.s.set = func(v any, ok bool, rv reflect.Value) {
		if rv.IsValid() {
			r.V, _ = rv.Interface().(T)
		} else {
			r.V = cast[T](v)
		}
		r.OK = ok
	}
	return r
}

// SC is a send case.
type SC struct{ s SCase }

func (r *SC) scase() *SCase { return &r.s }

// SendCase(c)(v) builds case c <- v.
func SendCase[T any](c chan<- T) func(T) *SC {
	return func(v T) *SC {
		r := &SC{s: SCase{ptr: *(*unsafe.Pointer)(unsafe.Pointer(&c)), cap: cap(c), send: true, val: v}}
		if active == nil {
			r.s.real = reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c), Send: reflect.ValueOf(&v).Elem()}
		}
		return r
	}
}

// Select runs a select statement and returns the index of the chosen case, -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	e := active
	if e == nil {
		rc := make([]reflect.SelectCase, 0, len(cases)+1)
		for _, c := range cases {
			rc = append(rc, c.scase().real)
		}
		if hasDefault {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if i == len(cases) {
			return -1
		}
		if s := cases[i].scase(); !s.send {
			s.set(nil, ok, v)
		}
		return i
	}
	sc := make([]selCase, len(cases))
	for i, c := range cases {
		s := c.scase()
		sc[i] = mkCase(s.ptr, s.cap, s.send, s.val)
	}
	i, v, ok := e.selectOp(sc, hasDefault)
	if i >= 0 && !sc[i].send {
		cases[i].scase().set(v, ok, reflect.Value{})
	}
	return i
}

// BlockForever is select {}.
func BlockForever() string {
	e := active
	if e == nil {
		select {}
	}
	e.selectOp([]selCase{{nilc: true}}, false)
	return "unreachable"
}
