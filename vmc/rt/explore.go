package vmcrt

import (
	"fmt"
	"math/rand"
	"strings"
	"time"
)

// Config bounds one exploration.
type Config struct {
	Slop        time.Duration // one-shot timers fire this much after their deadline
	Bound       int           // preemption bound; <0 explores everything (sleep-set reduced)
	Delay       bool          // Bound counts every deviation from the default schedule, not only preemptions
	MaxSteps    int           // scheduling steps per execution
	MaxTime     time.Duration // virtual-time horizon per execution
	MaxExecs    int           // 0: unlimited
	Deadline    time.Time     // stop (incomplete) after this
	StepLimitOK bool
	HorizonOK   bool
	NoSleep     bool                  // disable the reduction (self-test)
	Random      *rand.Rand            // shuffles the order in which alternatives are tried
	Known       func(key string) bool // violations with a known key do not stop the exploration
	Progress    func()
	replay      []int
}

// Stats counts what an exploration covered.
type Stats struct {
	Execs       int // complete executions of the real code
	Pruned      int // executions cut because an equivalent one was already explored
	Bounded     int // executions that ended at a horizon or assumption
	States      int // distinct decision points
	Transitions int // distinct transitions taken
	Steps       int // total scheduling steps executed
	MaxDepth    int
	Diverged    int
	Exhaustive  bool
	Outcomes    map[string]int
	KnownHits   map[string]string
}

// Violation describes a failing execution.
type Violation struct {
	Key       string
	Msg       string
	Schedule  []int
	Trace     []string
	Confirmed bool
}

// Explorer enumerates the executions of one scenario.
type Explorer struct {
	cfg      Config
	bound    int
	maxSteps int
	maxTime  int64
	stack    []*node
	fresh    int
	stats    Stats
	free     []*node
	body     func()
}

func (x *Explorer) newNode() *node {
	if n := len(x.free); n > 0 {
		nd := x.free[n-1]
		x.free = x.free[:n-1]
		*nd = node{alts: nd.alts[:0], sleep: nd.sleep[:0], costs: nd.costs[:0]}
		return nd
	}
	return &node{}
}

func (x *Explorer) freeNode(n *node) { x.free = append(x.free, n) }

func (x *Explorer) shuffle(nd *node) {
	r := x.cfg.Random
	if len(nd.costs) == len(nd.alts) {
		r.Shuffle(len(nd.alts), func(i, j int) {
			nd.alts[i], nd.alts[j] = nd.alts[j], nd.alts[i]
			nd.costs[i], nd.costs[j] = nd.costs[j], nd.costs[i]
		})
		return
	}
	r.Shuffle(len(nd.alts), func(i, j int) { nd.alts[i], nd.alts[j] = nd.alts[j], nd.alts[i] })
}

func (x *Explorer) runOnce(tracing bool) *exec {
	e := &exec{ex: x, tracing: tracing, endSig: make(chan struct{}, 1)}
	e.threads = make([]*thread, 0, 16)
	root := e.newThread("root", x.body)
	e.root = root
	active = e
	e.cur = root
	root.strt = true
	go e.threadMain(root)
	signalThread(root)
	waitEnd(e)
	// unwind the leftover threads one by one
	e.aborting = true
	for i := 0; i < len(e.threads); i++ {
		t := e.threads[i]
		if t.dead {
			continue
		}
		e.cur = t
		signalThread(t)
		waitExit(e)
	}
	raceAcquireAll(e)
	active = nil
	x.stats.Steps += e.steps
	if e.depth > x.stats.MaxDepth {
		x.stats.MaxDepth = e.depth
	}
	return e
}

// advance moves to the next unexplored branch; false if there is none.
func (x *Explorer) advanceStack() bool {
	for len(x.stack) > 0 {
		nd := x.stack[len(x.stack)-1]
		if nd.cur+1 < len(nd.alts) {
			nd.cur++
			x.fresh = len(x.stack) - 1
			return true
		}
		x.stack = x.stack[:len(x.stack)-1]
		x.freeNode(nd)
	}
	return false
}

func (x *Explorer) schedule() []int {
	s := make([]int, len(x.stack))
	for i, n := range x.stack {
		s[i] = n.alts[n.cur]
	}
	return s
}

// Explore enumerates every execution of body within cfg. It stops at the first violation.
func Explore(cfg Config, body func()) (Stats, *Violation) {
	x := &Explorer{cfg: cfg, body: body, fresh: -1}
	x.bound = cfg.Bound
	x.maxSteps = cfg.MaxSteps
	if x.maxSteps == 0 {
		x.maxSteps = 20000
	}
	x.maxTime = int64(cfg.MaxTime)
	if x.maxTime == 0 {
		x.maxTime = int64(time.Minute)
	}
	x.stats.Outcomes = map[string]int{}
	races := RaceErrors()
	for {
		e := x.runOnce(false)
		if cfg.Progress != nil {
			cfg.Progress()
		}
		if n := RaceErrors(); n > races && e.viol == "" {
			races = n
			e.viol, e.violKey = "data race reported by the race detector (see stderr)", "race"
			e.endWhy = endViolation
		}
		switch e.endWhy {
		case endDone:
			x.stats.Execs++
			if len(x.stats.Outcomes) < 10000 {
				x.stats.Outcomes[strings.Join(e.outcome, ";")]++
			}
		case endPruned:
			x.stats.Pruned++
		case endBound, endHorizon:
			x.stats.Bounded++
		case endDiverged:
			x.stats.Diverged++
			return x.stats, nil
		case endViolation:
			x.stats.Execs++
			if cfg.Known != nil && cfg.Known(e.violKey) {
				if x.stats.KnownHits == nil {
					x.stats.KnownHits = map[string]string{}
				}
				x.stats.KnownHits[e.violKey] = e.viol
				break
			}
			v := &Violation{Key: e.violKey, Msg: e.viol, Schedule: x.schedule()}
			if e.violKey == "race" {
				v.Confirmed = true
				x.fresh = len(x.stack)
				r := x.runOnce(true)
				v.Trace = r.trace
				return x.stats, v
			}
			// Replay the same schedule: it must fail the same way every time.
			v.Confirmed = true
			for i := 0; i < 5; i++ {
				x.fresh = len(x.stack)
				r := x.runOnce(i == 0)
				if i == 0 {
					v.Trace = r.trace
				}
				if r.endWhy != endViolation || r.violKey != e.violKey {
					v.Confirmed = false
					v.Msg += fmt.Sprintf(" [replay %d ended differently: %d %s]", i, r.endWhy, r.viol)
					break
				}
			}
			return x.stats, v
		}
		if !x.advanceStack() {
			x.stats.Exhaustive = true
			return x.stats, nil
		}
		if cfg.MaxExecs > 0 && x.stats.Execs+x.stats.Pruned >= cfg.MaxExecs {
			return x.stats, nil
		}
		if !cfg.Deadline.IsZero() && x.stats.Steps&15 < 4 && time.Now().After(cfg.Deadline) {
			return x.stats, nil
		}
	}
}

// Replay runs body under a recorded schedule and returns the violation it produces, if any.
func Replay(cfg Config, schedule []int, body func()) *Violation {
	x := &Explorer{cfg: cfg, body: body, maxSteps: cfg.MaxSteps, maxTime: int64(cfg.MaxTime)}
	if x.maxSteps == 0 {
		x.maxSteps = 20000
	}
	if x.maxTime == 0 {
		x.maxTime = int64(time.Minute)
	}
	x.bound = cfg.Bound
	x.cfg.replay = schedule
	e := x.runOnce(true)
	if e.endWhy != endViolation {
		return nil
	}
	return &Violation{Key: e.violKey, Msg: e.viol, Schedule: schedule, Trace: e.trace}
}
