// Package vmcrt is the runtime of the checker: a cooperative scheduler that owns every
// scheduling decision, timer and modelled choice of the code under test, and a depth-first
// explorer that enumerates all of them.
//
// The code under test is a rewritten copy of the real sources: every go statement, channel
// operation, select, sync/atomic primitive and clock call goes through this package. When no
// execution is active the shims fall through to the real primitives.
//
// This package (and the shim packages below it) is compiled without race instrumentation even
// in -race builds, so that the hand-off between threads creates no happens-before edge; the
// edges the real primitives would create are added back explicitly (see race_on.go).
package vmcrt

import (
	"fmt"
	"runtime"
	"strings"
	"unsafe"
)

const (
	maxThreads = 64
	maxFP      = 12
)

type acc struct {
	p unsafe.Pointer
	w bool
}

type opKind uint8

const (
	opLocal  opKind = iota // thread start / resume: touches nothing shared
	opAcc                  // generic access (atomics, harness resources)
	opLock                 // mutex lock: enabled iff free
	opRLock                // rwmutex read lock
	opWLock                // rwmutex write lock
	opChan                 // channel operation / select
	opAwait                // enabled iff cond()
	opSettle               // enabled only if nothing else is
)

var opNames = [...]string{"run", "access", "lock", "rlock", "wlock", "chan", "await", "settle"}

type op struct {
	kind  opKind
	obj   unsafe.Pointer
	write bool
	mu    *MutexState
	rw    *RWState
	cases []selCase
	nb    bool // non-blocking select (has default)
	what  string
	cond  func() bool
}

type thread struct {
	id     int
	name   string
	op     op
	parked bool
	done   bool
	dead   bool // goroutine has exited
	strt   bool
	fn     func()

	wake chan struct{}
	tok  uint32

	// result of a parked channel operation
	wcases  []selCase
	selIdx  int
	val     any
	ok      bool
	pclosed bool

	nap *TimerState // reused by Sleep in long executions

	blockedAt string
}

type selCase struct {
	send bool
	nilc bool
	c    *chanState
	val  any
}

// chanState is the model of one channel. The element values live here, not in the real channel.
type chanState struct {
	key     unsafe.Pointer
	cap     int
	buf     []any
	closed  bool
	recvq   []*thread
	sendq   []*thread
	timer   *TimerState
	rs, rr  uint64 // race addresses (send side, receive side)
	realRef any
}

// Node is one recorded decision.
type node struct {
	sched   bool
	alts    []int
	cur     int
	sleep   []int
	costs   []int
	hash    uint64
	preempt int
}

type exec struct {
	ex       *Explorer
	threads  []*thread
	cur      *thread
	root     *thread
	aborting bool
	ended    bool
	endWhy   endKind
	viol     string
	violKey  string

	depth      int // index of the next decision
	steps      int
	preempt    int
	freeSwitch bool
	sleep      []int

	now     int64 // virtual nanoseconds
	rnd     uint64
	timers  []*TimerState
	nextTID int

	chans    [chanTab]*chanState
	chanKeys []int

	events  []any
	outcome []string

	trace   []string
	tracing bool

	endSig  chan struct{}
	endTok  uint32
	exitTok uint32

	panics []string
}

type endKind int

const (
	endRunning endKind = iota
	endDone
	endPruned
	endViolation
	endBound
	endDiverged
	endHorizon
)

var active *exec

// Active reports whether the caller runs under the controlled scheduler.
func Active() bool { return active != nil }

func (e *exec) tracef(format string, a ...any) {
	if e.tracing {
		e.trace = append(e.trace, fmt.Sprintf(format, a...))
	}
}

// ---------- footprints and enabledness ----------

type fpset struct {
	n   int
	a   [maxFP]acc
	all bool // overflow: depends on everything
}

func (f *fpset) add(p unsafe.Pointer, w bool) {
	for i := 0; i < f.n; i++ {
		if f.a[i].p == p {
			f.a[i].w = f.a[i].w || w
			return
		}
	}
	if f.n == maxFP {
		f.all = true
		return
	}
	f.a[f.n] = acc{p, w}
	f.n++
}

func (f *fpset) empty() bool { return f.n == 0 && !f.all }

func (f *fpset) dependent(g *fpset) bool {
	if f.all || g.all {
		return !f.empty() && !g.empty()
	}
	for i := 0; i < f.n; i++ {
		for j := 0; j < g.n; j++ {
			if f.a[i].p == g.a[j].p && (f.a[i].w || g.a[j].w) {
				return true
			}
		}
	}
	return false
}

func (e *exec) enabled(t *thread) bool {
	if t.done || t.parked {
		return false
	}
	switch t.op.kind {
	case opLock:
		return t.op.mu.owner == nil
	case opRLock:
		return t.op.rw.w == nil
	case opWLock:
		return t.op.rw.w == nil && t.op.rw.r == 0
	case opAwait:
		return t.op.cond()
	case opSettle:
		return false // handled when nothing else is enabled
	}
	return true
}

func (e *exec) footprint(t *thread, f *fpset) {
	f.n, f.all = 0, false
	o := &t.op
	switch o.kind {
	case opLocal, opSettle:
	case opAcc, opAwait:
		if o.obj != nil {
			f.add(o.obj, o.write)
		}
	case opLock:
		f.add(unsafe.Pointer(o.mu), true)
	case opRLock:
		f.add(unsafe.Pointer(o.rw), true)
	case opWLock:
		f.add(unsafe.Pointer(o.rw), true)
	case opChan:
		for i := range o.cases {
			c := o.cases[i].c
			if c == nil {
				continue
			}
			f.add(unsafe.Pointer(c), true)
			// Completing against a parked select takes that thread off its other channels too.
			var q []*thread
			if o.cases[i].send {
				q = c.recvq
			} else {
				q = c.sendq
			}
			if len(q) > 0 {
				for j := range q[0].wcases {
					if oc := q[0].wcases[j].c; oc != nil {
						f.add(unsafe.Pointer(oc), true)
					}
				}
			}
		}
	}
}

// timer pseudo-threads have ids maxThreads + timer sequence number.
func (e *exec) timerFP(tm *TimerState, f *fpset) {
	f.n, f.all = 0, false
	f.add(unsafe.Pointer(tm), true)
	if tm.c != nil {
		f.add(unsafe.Pointer(tm.c), true)
		if len(tm.c.recvq) > 0 {
			q := tm.c.recvq[0]
			for j := range q.wcases {
				if oc := q.wcases[j].c; oc != nil {
					f.add(unsafe.Pointer(oc), true)
				}
			}
		}
	}
}

func (e *exec) fpOf(id int, f *fpset) {
	if id >= maxThreads {
		e.timerFP(e.timers[id-maxThreads], f)
		return
	}
	e.footprint(e.threads[id], f)
}

func contains(s []int, v int) bool {
	for _, x := range s {
		if x == v {
			return true
		}
	}
	return false
}

// ---------- scheduling ----------

// point announces the next operation of the current thread and gives the scheduler a chance to
// run others first. When it returns the operation is enabled and may be performed.
func (e *exec) point(o op) {
	t := e.cur
	if e.aborting {
		return
	}
	t.op = o
	e.schedule(t)
	t.op = op{}
}

// park blocks the current thread until another one completes its channel operation.
func (e *exec) park() {
	t := e.cur
	t.parked = true
	e.schedule(t)
}

func (e *exec) schedule(self *thread) {
	for {
		if e.aborting {
			e.exitIfAborting()
			return
		}
		id, ok := e.pick(self)
		if !ok {
			// execution is over
			e.finish()
			if self.done {
				return
			}
			e.waitTurn(self)
			e.exitIfAborting()
			return
		}
		if id >= maxThreads {
			e.fireTimer(e.timers[id-maxThreads])
			continue
		}
		t := e.threads[id]
		if t == self {
			return
		}
		e.cur = t
		e.resume(t)
		if self.done {
			return
		}
		e.waitTurn(self)
		e.exitIfAborting()
		return
	}
}

func (e *exec) exitIfAborting() {
	if e.aborting {
		runtime.Goexit()
	}
}

func (e *exec) resume(t *thread) {
	if !t.strt {
		t.strt = true
		e.startThread(t)
		return
	}
	signalThread(t)
}

func (e *exec) waitTurn(t *thread) { waitThread(t) }

// finish marks the end of the execution and wakes the explorer.
func (e *exec) finish() {
	e.ended = true
	signalEnd(e)
}

func (e *exec) stop(why endKind) {
	if e.endWhy == endRunning {
		e.endWhy = why
	}
}

// fail records a violation and ends the execution.
func (e *exec) fail(key, msg string) {
	if e.viol == "" {
		e.viol = msg
		e.violKey = key
	}
	e.stop(endViolation)
}

// pick chooses the next thread or timer to run. ok is false if the execution is over.
func (e *exec) pick(self *thread) (int, bool) {
	for {
		if e.endWhy != endRunning {
			return 0, false
		}
		e.steps++
		if e.steps > e.ex.maxSteps {
			e.onStepLimit()
			return 0, false
		}
		if e.root.done {
			e.stop(endDone)
			return 0, false
		}
		var f fpset
		var enb [maxThreads * 2]int
		n := 0
		if self != nil && !self.done && e.enabled(self) {
			enb[n] = self.id
			n++
			e.footprint(self, &f)
			if f.empty() {
				return self.id, true
			}
		}
		for _, t := range e.threads {
			if t == self || !e.enabled(t) {
				continue
			}
			e.footprint(t, &f)
			if f.empty() {
				e.freeSwitch = true
				return t.id, true
			}
			enb[n] = t.id
			n++
		}
		for _, tm := range e.timers {
			if tm.active && tm.due && n < len(enb) {
				enb[n] = maxThreads + tm.seq
				n++
			}
		}
		if n == 0 {
			// quiescent: a settling root first, then time
			var st *thread
			for _, t := range e.threads {
				if !t.done && !t.parked && t.op.kind == opSettle {
					st = t
					break
				}
			}
			if st != nil {
				return st.id, true
			}
			if e.advance() {
				continue
			}
			e.onDeadlock()
			return 0, false
		}
		id, ok := e.decide(enb[:n], self)
		return id, ok
	}
}

func (e *exec) onStepLimit() {
	if e.ex.cfg.StepLimitOK {
		e.stop(endHorizon)
		return
	}
	e.fail("steps", fmt.Sprintf("no termination after %d scheduling steps; threads: %s", e.ex.maxSteps, e.threadDump()))
}

func (e *exec) onDeadlock() {
	e.fail("deadlock", "deadlock: the scenario cannot make progress; threads: "+e.threadDump())
}

func (e *exec) threadDump() string {
	var sb strings.Builder
	for _, t := range e.threads {
		if t.done {
			continue
		}
		fmt.Fprintf(&sb, "[%d %s: %s]", t.id, t.name, e.descOp(t))
	}
	return sb.String()
}

func (e *exec) descOp(t *thread) string {
	if t.parked {
		s := "parked on"
		for _, c := range t.wcases {
			if c.nilc {
				s += " nil-chan"
			} else if c.send {
				s += fmt.Sprintf(" send(c%d)", e.chanNo(c.c))
			} else {
				s += fmt.Sprintf(" recv(c%d)", e.chanNo(c.c))
			}
		}
		return s
	}
	o := &t.op
	s := opNames[o.kind]
	if o.what != "" {
		s += " " + o.what
	}
	if o.kind == opChan {
		for _, c := range o.cases {
			if c.nilc {
				s += " nil-chan"
			} else if c.send {
				s += fmt.Sprintf(" send(c%d)", e.chanNo(c.c))
			} else {
				s += fmt.Sprintf(" recv(c%d)", e.chanNo(c.c))
			}
		}
		if o.nb {
			s += " nonblocking"
		}
	}
	return s
}

func (e *exec) chanNo(c *chanState) int {
	for i, k := range e.chanKeys {
		if e.chans[k] == c {
			return i
		}
	}
	return -1
}

func (e *exec) idName(id int) string {
	if id >= maxThreads {
		return fmt.Sprintf("timer%d", id-maxThreads)
	}
	return fmt.Sprintf("%d:%s", id, e.threads[id].name)
}

func hashInts(h uint64, v []int) uint64 {
	for _, x := range v {
		h ^= uint64(x) + 0x9e3779b97f4a7c15
		h *= 1099511628211
	}
	return h
}

// decide resolves a scheduling decision among the enabled transitions.
func (e *exec) decide(enb []int, self *thread) (int, bool) {
	ex := e.ex
	bounded := ex.bound >= 0
	selfEnabled := self != nil && len(enb) > 0 && enb[0] == self.id && !e.freeSwitch
	e.freeSwitch = false
	var chosen int
	if len(enb) == 1 {
		chosen = enb[0]
		if !bounded && contains(e.sleep, chosen) {
			e.stop(endPruned)
			return 0, false
		}
		if e.depth > ex.fresh {
			ex.stats.Transitions++
		}
	} else {
		var nd *node
		if e.depth < len(ex.stack) {
			nd = ex.stack[e.depth]
			if !nd.sched || nd.hash != hashInts(14695981039346656037, enb) {
				e.stop(endDiverged)
				return 0, false
			}
		} else {
			nd = ex.newNode()
			nd.sched = true
			nd.hash = hashInts(14695981039346656037, enb)
			nd.preempt = e.preempt
			if bounded {
				for i, id := range enb {
					cost := 0
					if (selfEnabled || ex.cfg.Delay) && i > 0 {
						cost = 1
					}
					if e.preempt+cost <= ex.bound {
						nd.alts = append(nd.alts, id)
						nd.costs = append(nd.costs, cost)
					}
				}
			} else {
				nd.sleep = append(nd.sleep[:0], e.sleep...)
				for _, id := range enb {
					if ex.cfg.NoSleep || !contains(e.sleep, id) {
						nd.alts = append(nd.alts, id)
					}
				}
			}
			if r := ex.cfg.replay; r != nil {
				nd.alts, nd.costs, nd.sleep = nd.alts[:0], nd.costs[:0], nd.sleep[:0]
				if e.depth < len(r) && contains(enb, r[e.depth]) {
					nd.alts = append(nd.alts, r[e.depth])
				} else {
					nd.alts = append(nd.alts, enb[0])
				}
				nd.costs = append(nd.costs, 0)
			}
			if len(nd.alts) == 0 {
				ex.freeNode(nd)
				e.stop(endPruned)
				return 0, false
			}
			if ex.cfg.Random != nil && len(nd.alts) > 1 {
				ex.shuffle(nd)
			}
			ex.stack = append(ex.stack, nd)
			ex.stats.States++
		}
		if e.depth >= ex.fresh {
			ex.stats.Transitions++
		}
		e.depth++
		chosen = nd.alts[nd.cur]
		if bounded {
			e.preempt = nd.preempt + nd.costs[nd.cur]
		} else if !ex.cfg.NoSleep {
			e.sleep = append(e.sleep[:0], nd.sleep...)
			for i := 0; i < nd.cur; i++ {
				if !contains(e.sleep, nd.alts[i]) {
					e.sleep = append(e.sleep, nd.alts[i])
				}
			}
		}
	}
	if !bounded && len(e.sleep) > 0 {
		var fc, fs fpset
		e.fpOf(chosen, &fc)
		k := 0
		for _, s := range e.sleep {
			if s == chosen {
				continue
			}
			e.fpOf(s, &fs)
			if !fc.dependent(&fs) {
				e.sleep[k] = s
				k++
			}
		}
		e.sleep = e.sleep[:k]
	}
	if e.tracing {
		if chosen >= maxThreads {
			e.tracef("t=%dns fire %s", e.now, e.idName(chosen))
		} else {
			e.tracef("t=%dns %s %s", e.now, e.idName(chosen), e.descOp(e.threads[chosen]))
		}
	}
	return chosen, true
}

// choose resolves a data choice in 0..n-1.
func (e *exec) choose(n int, what string) int {
	if n <= 1 || e.aborting {
		return 0
	}
	if e.endWhy != endRunning {
		return 0
	}
	ex := e.ex
	var nd *node
	if e.depth < len(ex.stack) {
		nd = ex.stack[e.depth]
		if nd.sched || (len(nd.alts) != n && ex.cfg.replay == nil) {
			e.stop(endDiverged)
			e.yieldEnd()
			return 0
		}
	} else {
		nd = ex.newNode()
		for i := 0; i < n; i++ {
			nd.alts = append(nd.alts, i)
		}
		if r := ex.cfg.replay; r != nil {
			nd.alts = nd.alts[:0]
			if e.depth < len(r) && r[e.depth] < n {
				nd.alts = append(nd.alts, r[e.depth])
			} else {
				nd.alts = append(nd.alts, 0)
			}
		} else if ex.cfg.Random != nil {
			ex.shuffle(nd)
		}
		ex.stack = append(ex.stack, nd)
		ex.stats.States++
	}
	if e.depth >= ex.fresh {
		ex.stats.Transitions++
	}
	e.depth++
	v := nd.alts[nd.cur]
	e.tracef("t=%dns %s choose(%d) %s = %d", e.now, e.idName(e.cur.id), n, what, v)
	return v
}

// yieldEnd is called on a running thread when the execution must end right now.
func (e *exec) yieldEnd() {
	t := e.cur
	e.finish()
	e.waitTurn(t)
	e.exitIfAborting()
}

// ---------- threads ----------

func (e *exec) newThread(name string, fn func()) *thread {
	t := &thread{id: e.nextTID, name: name, fn: fn}
	e.nextTID++
	if t.id >= maxThreads {
		panic("vmcrt: too many threads in one execution")
	}
	t.wake = make(chan struct{}, 1)
	e.threads = append(e.threads, t)
	return t
}

// Go starts fn as a controlled thread (a plain goroutine if no execution is active).
func Go(fn func()) {
	e := active
	if e == nil {
		go fn()
		return
	}
	if e.aborting {
		return
	}
	name := "go"
	if _, file, line, ok := runtime.Caller(1); ok && e.tracing {
		if i := strings.LastIndexByte(file, '/'); i >= 0 {
			if j := strings.LastIndexByte(file[:i], '/'); j >= 0 {
				i = j
			}
			file = file[i+1:]
		}
		name = fmt.Sprintf("%s:%d", file, line)
	}
	spawn(e, name, fn)
}

func spawn(e *exec, name string, fn func()) *thread {
	t := e.newThread(name, fn)
	// The goroutine is created here, so that the race detector sees the real creation edge.
	t.strt = true
	go e.threadMain(t)
	return t
}

func (e *exec) startThread(t *thread) { panic("vmcrt: unstarted thread") }

func (e *exec) threadMain(t *thread) {
	waitThread(t)
	normal := false
	defer func() {
		if !normal {
			if r := recover(); r != nil {
				if !e.aborting {
					buf := make([]byte, 8192)
					buf = buf[:runtime.Stack(buf, false)]
					e.fail("panic", fmt.Sprintf("panic in thread %s: %v\n%s", t.name, r, buf))
				}
			}
		}
		e.threadExit(t)
	}()
	if !e.aborting {
		t.fn()
	}
	normal = true
}

func (e *exec) threadExit(t *thread) {
	raceExit(e)
	t.done = true
	if e.aborting {
		t.dead = true
		signalExit(e)
		return
	}
	t.dead = true
	e.schedule(t)
}

// ---------- API used by harness code ----------

// Choose returns every value in 0..n-1 across executions.
func Choose(n int, what string) int {
	e := active
	if e == nil {
		return 0
	}
	return e.choose(n, what)
}

// Fail reports a violation and ends this execution.
func Fail(key, msg string) {
	e := active
	if e == nil {
		panic("violation outside execution: " + msg)
	}
	if e.aborting {
		runtime.Goexit()
	}
	e.fail(key, msg)
	e.yieldEnd()
}

// Prune silently ends this execution (an assumption of the scenario does not hold).
func Prune() {
	e := active
	if e.aborting {
		runtime.Goexit()
	}
	e.stop(endBound)
	e.yieldEnd()
}

// Access is a scheduling point on a harness resource.
func Access(p unsafe.Pointer, write bool, what string) {
	e := active
	if e == nil || e.aborting {
		return
	}
	e.point(op{kind: opAcc, obj: p, write: write, what: what})
}

// Await blocks until cond holds; p is the resource cond depends on.
func Await(p unsafe.Pointer, what string, cond func() bool) {
	e := active
	if e == nil {
		panic("vmcrt.Await outside execution")
	}
	if e.aborting {
		runtime.Goexit()
	}
	e.point(op{kind: opAwait, obj: p, write: true, what: what, cond: cond})
}

// Settle returns once no other thread can run without the clock advancing.
func Settle() {
	e := active
	if e.aborting {
		runtime.Goexit()
	}
	e.point(op{kind: opSettle, what: "settle"})
	raceAcquireAll(e)
}

// Spawn starts a named harness thread; the returned function waits for it to end.
func Spawn(name string, fn func()) (join func()) {
	e := active
	t := spawn(e, name, fn)
	return func() {
		e := active
		if e.aborting {
			runtime.Goexit()
		}
		e.point(op{kind: opAwait, obj: unsafe.Pointer(t), write: false, what: "join " + name, cond: func() bool { return t.done }})
		raceAcquireAll(e)
	}
}

// Live lists the threads that have not finished, except the caller.
func Live() []string {
	e := active
	var out []string
	for _, t := range e.threads {
		if !t.done && t != e.cur {
			out = append(out, fmt.Sprintf("%d(%s: %s)", t.id, t.name, e.descOp(t)))
		}
	}
	return out
}

// LiveCount is the number of unfinished threads, except the caller.
func LiveCount() int {
	e := active
	n := 0
	for _, t := range e.threads {
		if !t.done && t != e.cur {
			n++
		}
	}
	return n
}

// Log appends v to the event log of the execution without creating any ordering between threads.
func Log(v any) {
	e := active
	if e == nil || e.aborting {
		return
	}
	raceLog(e)
	e.events = append(e.events, v)
	if e.tracing {
		e.tracef("t=%dns %s EVENT %v", e.now, e.idName(e.cur.id), v)
	}
}

// Events returns the event log.
func Events() []any {
	e := active
	raceReadLog(e)
	return e.events
}

// Note adds to the outcome signature of this execution (used to count distinct outcomes).
func Note(s string) {
	if e := active; e != nil {
		e.outcome = append(e.outcome, s)
	}
}

// Me identifies the current thread.
func Me() int { return active.cur.id }

// Atomic runs harness bookkeeping: no scheduling point, ordered with the other Atomic calls.
func Atomic(f func()) {
	raceAtomicIn()
	f()
	raceAtomicOut()
}
