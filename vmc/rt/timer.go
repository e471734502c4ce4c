package vmcrt

import (
	"time"
	"unsafe"
)

// Epoch is the virtual time origin.
var Epoch = time.Date(2030, 1, 2, 3, 4, 5, 0, time.UTC)

// TimerState is a virtual timer or ticker.
type TimerState struct {
	seq    int
	when   int64
	period int64
	active bool
	due    bool
	exact  bool // not subject to Config.Slop
	c      *chanState
	ch     chan time.Time
	f      func()
	ra     uint64
	ep     *exec
}

// Now is the virtual (or, outside an execution, the real) time.
func Now() time.Time {
	e := active
	if e == nil {
		return time.Now()
	}
	return Epoch.Add(time.Duration(e.now))
}

// advance moves the clock to the next timer.
func (e *exec) advance() bool {
	var best *TimerState
	for _, t := range e.timers {
		if t.active && (best == nil || t.when < best.when) {
			best = t
		}
	}
	if best == nil {
		return false
	}
	if best.when > e.ex.maxTime {
		if e.ex.cfg.HorizonOK {
			e.stop(endHorizon)
		} else {
			e.fail("horizon", "the scenario does not finish: virtual time ran past the horizon; threads: "+e.threadDump())
		}
		return true
	}
	if best.when > e.now {
		e.now = best.when
	}
	for _, t := range e.timers {
		if t.active && t.when <= e.now {
			t.due = true
		}
	}
	return true
}

func (e *exec) fireTimer(t *TimerState) {
	t.due = false
	if t.period > 0 {
		t.when += t.period
		if t.when <= e.now {
			t.when += (e.now - t.when) / t.period * t.period
			if t.when <= e.now {
				t.when += t.period
			}
		}
	} else {
		t.active = false
	}
	if t.f != nil {
		spawn(e, "afterfunc", t.f)
		return
	}
	if len(t.c.recvq) > 0 || len(t.c.buf) < 1 {
		e.doSend(t.c, Epoch.Add(time.Duration(e.now)))
	}
}

func (e *exec) arm(t *TimerState, d time.Duration) {
	t.active = true
	if d < 0 {
		d = 0
	}
	if d > 1<<60 {
		d = 1 << 60
	}
	t.when = e.now + int64(d)
	if t.period == 0 && !t.exact {
		t.when += int64(e.ex.cfg.Slop)
	}
	t.due = t.when <= e.now
}

// NewTimerState creates a timer; f is nil for channel timers.
func NewTimerState(d, period time.Duration, f func()) (*TimerState, <-chan time.Time) {
	e := active
	t := &TimerState{seq: len(e.timers), period: int64(period), f: f, ep: e}
	e.timers = append(e.timers, t)
	if f == nil {
		t.ch = make(chan time.Time, 1)
		t.c = e.lookupChan(*(*unsafe.Pointer)(unsafe.Pointer(&t.ch)), 1)
		t.c.timer = t
	}
	if !e.aborting {
		e.arm(t, d)
	}
	return t, t.ch
}

func (t *TimerState) obj() unsafe.Pointer {
	if t.c != nil {
		return unsafe.Pointer(t.c)
	}
	return unsafe.Pointer(t)
}

// StopTimer stops t; with Go 1.23 semantics no stale value stays in the channel.
func (t *TimerState) StopTimer() bool {
	e := active
	if e == nil || e.aborting || t.ep != e {
		return false
	}
	e.point(op{kind: opAcc, obj: t.obj(), write: true, what: "timer.Stop"})
	return t.stop()
}

func (t *TimerState) stop() bool {
	was := t.active
	t.active, t.due = false, false
	if t.c != nil && len(t.c.buf) > 0 {
		t.c.buf = nil
		if t.period == 0 {
			was = true
		}
	}
	return was
}

// ResetTimer rearms t.
func (t *TimerState) ResetTimer(d, period time.Duration) bool {
	e := active
	if e == nil || e.aborting || t.ep != e {
		return false
	}
	e.point(op{kind: opAcc, obj: t.obj(), write: true, what: "timer.Reset"})
	was := t.stop()
	t.period = int64(period)
	e.arm(t, d)
	return was
}

// Sleep blocks the thread for d of virtual time.
func Sleep(d time.Duration) {
	if active == nil {
		time.Sleep(d)
		return
	}
	if d <= 0 {
		return
	}
	e := active
	slop := e.ex.cfg.Slop
	e.ex.cfg.Slop = 0
	var c <-chan time.Time
	if t := e.cur.nap; t != nil && t.ep == e && !t.active && !e.aborting {
		e.arm(t, d)
		c = t.ch
	} else {
		t, c = NewTimerState(d, 0, nil)
		t.exact = true
		if len(e.timers) > 300 {
			// a long execution: this thread sleeps on this timer from now on
			e.cur.nap = t
		}
	}
	e.ex.cfg.Slop = slop
	Recv(c)
}
