// Package vh is the frame every check runs in: it splits a check into scenarios, runs each in its
// own worker process, confirms violations, writes the evidence file and prints the verdict.
package vh

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	rt "github.com/livekit/media-sdk/vmcrt"
)

// Check describes one property's check.
type Check struct {
	ID          string
	Level       string // model_checking, exploration, fault_enumeration
	Rule        string
	Assumptions []string
	Scenarios   []Scenario
}

// Scenario is one independently explored space.
type Scenario struct {
	Name     string
	Thorough bool // only in the thorough tier
	Race     bool // also run (bounded) in the -race binary
	RaceOnly bool
	Run      func(r *R)
}

// R collects what a scenario covered.
type R struct {
	Tier     string
	Seed     int64
	name     string
	deadline time.Time
	res      Result
	states   map[uint64]struct{}
	distinct map[uint64]struct{}
	known    map[string]bool
	replayOf *ReplayFile
	maxFail  int
	progress atomic.Int64
	nExplore int
}

// Result is the outcome of one scenario.
type Result struct {
	Scenario    string   `json:"scenario"`
	Race        bool     `json:"race,omitempty"`
	Cases       int64    `json:"cases"`
	Distinct    int64    `json:"distinct"`
	States      int64    `json:"states"`
	Transitions int64    `json:"transitions"`
	Traces      int64    `json:"traces"`
	Pruned      int64    `json:"pruned,omitempty"`
	Bounded     int64    `json:"bounded,omitempty"`
	Outcomes    int64    `json:"outcomes,omitempty"`
	Exhaustive  bool     `json:"exhaustive"`
	Notes       []string `json:"notes,omitempty"`
	Samples     []string `json:"samples,omitempty"`
	Violations  []Viol   `json:"violations,omitempty"`
	Wall        float64  `json:"wall_s"`
}

// Viol is one violation.
type Viol struct {
	Key      string   `json:"key"`
	Msg      string   `json:"msg"`
	Schedule []int    `json:"schedule,omitempty"`
	Explore  int      `json:"explore,omitempty"`
	Trace    []string `json:"trace,omitempty"`
}

// ReplayFile is written for every violation.
type ReplayFile struct {
	Property string `json:"property"`
	Scenario string `json:"scenario"`
	Race     bool   `json:"race"`
	Viol
}

// Thorough reports the tier.
func (r *R) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func (r *R) Pick(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

// Case counts one complete case (input, sequence or configuration).
func (r *R) Case() { r.res.Cases++; r.progress.Add(1) }

// Step counts n operations applied to the code.
func (r *R) Step(n int) { r.res.Transitions += int64(n) }

// Trace counts one complete run compared against the reference.
func (r *R) Trace() { r.res.Traces++; r.progress.Add(1) }

// State records a distinct state.
func (r *R) State(parts ...any) {
	if len(r.states) < 1<<22 {
		r.states[Hash(parts...)] = struct{}{}
	}
}

// StateHash records a distinct state by its hash.
func (r *R) StateHash(h uint64) {
	if len(r.states) < 1<<22 {
		r.states[h] = struct{}{}
	}
}

// Seen records a state and reports whether it was new.
func (r *R) Seen(h uint64) bool {
	if _, ok := r.states[h]; ok {
		return true
	}
	r.states[h] = struct{}{}
	return false
}

// Nontrivial records a distinct non-trivial case.
func (r *R) Nontrivial(parts ...any) {
	if len(r.distinct) < 1<<22 {
		r.distinct[Hash(parts...)] = struct{}{}
	}
}

// Sample keeps a few written-out cases.
func (r *R) Sample(format string, a ...any) {
	if len(r.res.Samples) < 3 {
		r.res.Samples = append(r.res.Samples, fmt.Sprintf(format, a...))
	}
}

// Notef adds a remark to the evidence.
func (r *R) Notef(format string, a ...any) {
	if len(r.res.Notes) < 20 {
		r.res.Notes = append(r.res.Notes, fmt.Sprintf(format, a...))
	}
}

// Fail records a violation; key identifies the failing input class, msg the failing case.
func (r *R) Fail(key, format string, a ...any) {
	for _, v := range r.res.Violations {
		if v.Key == key {
			return
		}
	}
	if len(r.res.Violations) < 10 {
		r.res.Violations = append(r.res.Violations, Viol{Key: key, Msg: fmt.Sprintf(format, a...)})
	}
}

// Failed reports whether enough violations were found to stop.
func (r *R) Failed() bool {
	n := 0
	for _, v := range r.res.Violations {
		if !r.known[v.Key] {
			n++
		}
	}
	return n >= 1
}

// Stop reports that the scenario should end: out of time or a violation was found.
func (r *R) Stop() bool {
	r.progress.Add(1)
	if r.Failed() {
		return true
	}
	if time.Now().After(r.deadline) {
		r.res.Exhaustive = false
		r.Notef("deadline reached before the space was exhausted")
		return true
	}
	return false
}

// Guard runs f and turns a panic into a violation.
func (r *R) Guard(key, desc string, f func()) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			ok = false
			r.Fail(key, "panic: %v in %s\n%s", p, desc, debug.Stack())
		}
	}()
	f()
	return true
}

// Hash mixes its arguments.
func Hash(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			h.Write([]byte(v))
		case []byte:
			h.Write(v)
		case []int16:
			for _, x := range v {
				h.Write([]byte{byte(x), byte(x >> 8)})
			}
		case []int:
			for _, x := range v {
				h.Write([]byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24)})
			}
		case int:
			h.Write([]byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24), byte(v >> 32), byte(v >> 40)})
		default:
			fmt.Fprintf(h, "%v|", p)
		}
		h.Write([]byte{0xfe})
	}
	return h.Sum64()
}

// Seqs calls f with every sequence of length n over 0..k-1; f returns false to stop.
func Seqs(n, k int, f func(seq []int) bool) bool {
	seq := make([]int, n)
	for {
		if !f(seq) {
			return false
		}
		i := n - 1
		for i >= 0 {
			seq[i]++
			if seq[i] < k {
				break
			}
			seq[i] = 0
			i--
		}
		if i < 0 {
			return true
		}
	}
}

// Prod calls f with every element of the product of the ranges.
func Prod(dims []int, f func(ix []int) bool) bool {
	ix := make([]int, len(dims))
	for _, d := range dims {
		if d == 0 {
			return true
		}
	}
	for {
		if !f(ix) {
			return false
		}
		i := len(dims) - 1
		for i >= 0 {
			ix[i]++
			if ix[i] < dims[i] {
				break
			}
			ix[i] = 0
			i--
		}
		if i < 0 {
			return true
		}
	}
}

// ---------- controlled-scheduler scenarios ----------

// Opt bounds an exploration.
type Opt struct {
	Bound       int // preemption bound, -1: all interleavings (sleep-set reduction)
	MaxSteps    int
	MaxTime     time.Duration // virtual
	StepLimitOK bool
	HorizonOK   bool
	MaxExecs    int
	NoSleep     bool
	Delay       bool          // Bound counts every deviation from the default schedule, not only preemptions
	Slop        time.Duration // one-shot timers fire this much late (never exactly at their deadline)
	RaceBound   int           // preemption bound used in the race binary (default 1)
}

// All explores every interleaving.
var All = Opt{Bound: -1}

// Preempt explores every interleaving with at most n preemptions.
func Preempt(n int) Opt { return Opt{Bound: n} }

// Delay explores every interleaving with at most n deviations from a fixed default schedule.
func Delay(n int) Opt { return Opt{Bound: n, Delay: true} }

// Explore enumerates the executions of body.
func (r *R) Explore(o Opt, body func()) {
	r.nExplore++
	if r.replayOf != nil {
		if r.replayOf.Explore != r.nExplore {
			return
		}
		cfg := rt.Config{Bound: -1, MaxSteps: o.MaxSteps, MaxTime: o.MaxTime, StepLimitOK: o.StepLimitOK, HorizonOK: o.HorizonOK, Slop: o.Slop, Delay: o.Delay}
		if v := rt.Replay(cfg, r.replayOf.Schedule, body); v != nil {
			r.res.Violations = append(r.res.Violations, Viol{Key: v.Key, Msg: v.Msg, Schedule: v.Schedule, Explore: r.nExplore, Trace: v.Trace})
		}
		return
	}
	if r.Failed() {
		return
	}
	cfg := rt.Config{
		Bound: o.Bound, MaxSteps: o.MaxSteps, MaxTime: o.MaxTime, StepLimitOK: o.StepLimitOK, HorizonOK: o.HorizonOK,
		MaxExecs: o.MaxExecs, NoSleep: o.NoSleep, Slop: o.Slop, Delay: o.Delay, Deadline: r.deadline,
		Progress: func() { r.progress.Add(1) },
		Known:    func(key string) bool { return r.known[key] },
	}
	if rt.RaceMode {
		if cfg.Bound < 0 || cfg.Bound > 1 {
			cfg.Bound = 1
		}
		if o.RaceBound != 0 {
			cfg.Bound = o.RaceBound
		}
		if cfg.MaxExecs == 0 || cfg.MaxExecs > 3000 {
			cfg.MaxExecs = 3000
		}
	}
	st, v := rt.Explore(cfg, body)
	r.res.Cases += int64(st.Execs + st.Bounded)
	r.res.Traces += int64(st.Execs + st.Bounded)
	r.res.Pruned += int64(st.Pruned)
	r.res.Bounded += int64(st.Bounded)
	r.res.States += int64(st.States)
	r.res.Transitions += int64(st.Transitions)
	r.res.Outcomes += int64(len(st.Outcomes))
	if !st.Exhaustive && v == nil {
		r.res.Exhaustive = false
		r.Notef("exploration %d cut after %d executions (bound %d)", r.nExplore, st.Execs, cfg.Bound)
	}
	if st.Diverged > 0 {
		r.res.Exhaustive = false
		r.Notef("exploration %d diverged while replaying a prefix", r.nExplore)
	}
	for k, msg := range st.KnownHits {
		r.Fail(k, "%s", msg)
	}
	if len(r.res.Samples) < 2 {
		var ks []string
		for k := range st.Outcomes {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if len(ks) > 3 {
			ks = ks[:3]
		}
		r.Sample("%s: bound=%d executions=%d pruned=%d decision points=%d distinct outcomes=%d e.g. %q", r.name, cfg.Bound, st.Execs, st.Pruned, st.States, len(st.Outcomes), ks)
	}
	if v != nil {
		if !v.Confirmed {
			r.res.Exhaustive = false
			r.Notef("unconfirmed violation ignored: %s", v.Msg)
			return
		}
		r.res.Violations = append(r.res.Violations, Viol{Key: v.Key, Msg: v.Msg, Schedule: v.Schedule, Explore: r.nExplore, Trace: v.Trace})
	}
}

// Fail ends the current execution with a violation.
func Fail(key, format string, a ...any) { rt.Fail(key, fmt.Sprintf(format, a...)) }

// Assert fails the current execution unless ok.
func Assert(ok bool, key, format string, a ...any) {
	if !ok {
		rt.Fail(key, fmt.Sprintf(format, a...))
	}
}

// Atomic runs harness bookkeeping that several threads share (it must not block).
func Atomic(f func()) { rt.Atomic(f) }

// Spawn starts a thread of the scenario.
func Spawn(name string, f func()) (join func()) { return rt.Spawn(name, f) }

// Choose returns every value in 0..n-1 over the executions.
func Choose(n int, what string) int { return rt.Choose(n, what) }

// Log adds to the event log; Events reads it.
func Log(v any)                    { rt.Log(v) }
func Events() []any                { return rt.Events() }
func Settle()                      { rt.Settle() }
func Note(format string, a ...any) { rt.Note(fmt.Sprintf(format, a...)) }
func Sleep(d time.Duration)        { rt.Sleep(d) }
func Now() time.Time               { return rt.Now() }
func Since0() time.Duration        { return rt.Now().Sub(rt.Epoch) }
func Live() []string               { return rt.Live() }
func LiveCount() int               { return rt.LiveCount() }

// ---------- process frame ----------

var (
	fRoot    = flag.String("root", "/verif", "verif directory")
	fCheck   = flag.String("check", "", "check id")
	fScratch = flag.String("scratch", "", "scratch directory")
	fRaceBin = flag.String("racebin", "", "race binary")
	fOnly    = flag.String("only", "", "only scenarios containing this")
	fReplay  = flag.String("replay", "", "replay file")
	fWorker  = flag.String("worker", "", "internal: scenario to run")
	fOut     = flag.String("out", "", "internal: result file")
	fDead    = flag.Int("deadline", 0, "internal: seconds")
)

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

// Main runs the check.
func Main(c Check) {
	flag.Parse()
	if *fWorker != "" {
		worker(c)
		return
	}
	os.Exit(parent(c))
}

func readKnown(id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(*fRoot, "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		f := strings.Fields(l)
		if len(f) < 3 || f[0] != "known:" || f[1] != "property="+id || !strings.HasPrefix(f[2], "key=") {
			continue
		}
		out[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
	}
	return out
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func worker(c Check) {
	if rt.RaceMode || os.Getenv("VMC_ONEPROC") != "" {
		runtime.GOMAXPROCS(1)
	} else {
		runtime.GOMAXPROCS(2)
	}
	debug.SetGCPercent(400)
	var sc *Scenario
	for i := range c.Scenarios {
		if c.Scenarios[i].Name == *fWorker {
			sc = &c.Scenarios[i]
		}
	}
	if sc == nil {
		fmt.Fprintln(os.Stderr, "no such scenario", *fWorker)
		os.Exit(3)
	}
	start := time.Now()
	r := &R{Tier: tier(), Seed: seed(), name: sc.Name, states: map[uint64]struct{}{}, distinct: map[uint64]struct{}{}, known: map[string]bool{}}
	for k := range readKnown(c.ID) {
		r.known[k] = true
	}
	r.deadline = start.Add(time.Duration(*fDead) * time.Second)
	r.res.Scenario, r.res.Race, r.res.Exhaustive = sc.Name, rt.RaceMode, true
	if *fReplay != "" {
		var rf ReplayFile
		b, err := os.ReadFile(*fReplay)
		if err == nil {
			err = json.Unmarshal(b, &rf)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		r.replayOf = &rf
	}
	flush := func() {
		r.res.States += int64(len(r.states))
		r.res.Distinct += int64(len(r.distinct))
		r.res.Wall = time.Since(start).Seconds()
		b, _ := json.Marshal(&r.res)
		tmp := *fOut + ".tmp"
		_ = os.WriteFile(tmp, b, 0o644)
		_ = os.Rename(tmp, *fOut)
	}
	// A case that burns CPU without ever finishing is a hang; measured in CPU time so that a busy
	// machine cannot cause it. One that uses no CPU at all for 40 s on end waits for something that
	// never comes (no scenario waits for real time that long).
	go func() {
		last, lastCPU := int64(-1), cpuTime()
		idleCPU, idle := cpuTime(), 0
		for {
			time.Sleep(2 * time.Second)
			if p := r.progress.Load(); p != last {
				last, lastCPU = p, cpuTime()
				idleCPU, idle = lastCPU, 0
				continue
			}
			if c := cpuTime(); c-idleCPU < 100*time.Millisecond {
				idle++
			} else {
				idleCPU, idle = c, 0
			}
			why := ""
			switch {
			case cpuTime()-lastCPU > 90*time.Second:
				why = "a single case used more than 90 s of CPU without finishing"
			case idle >= 20:
				why = "a case waits for ever (no progress and nothing running for 40 s)"
			}
			if why != "" {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				r.res.Violations = append(r.res.Violations, Viol{Key: "hang", Msg: why + "\n" + string(buf)})
				r.res.Exhaustive = false
				flush()
				os.Exit(0)
			}
		}
	}()
	func() {
		defer func() {
			if p := recover(); p != nil {
				r.Fail("panic", "panic in scenario %s: %v\n%s", sc.Name, p, debug.Stack())
			}
		}()
		sc.Run(r)
	}()
	flush()
}

type job struct {
	sc   Scenario
	race bool
}

func runWorker(c Check, j job, deadline int, extra ...string) (Result, string, error) {
	bin, _ := os.Executable()
	if j.race {
		bin = *fRaceBin
	}
	out := filepath.Join(*fScratch, fmt.Sprintf("res-%d-%d.json", os.Getpid(), rand.Int63()))
	args := append([]string{"-root", *fRoot, "-worker", j.sc.Name, "-out", out, "-deadline", strconv.Itoa(deadline)}, extra...)
	cmd := exec.Command(bin, args...)
	var se tail
	cmd.Stderr, cmd.Stdout = &se, &se
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	err := cmd.Start()
	if err != nil {
		return Result{}, "", err
	}
	// Pure wall-clock stop for a worker that sleeps forever (blocked, no CPU): treated as a crash only
	// if it left no result and used no CPU, see below.
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	killed := false
	select {
	case err = <-done:
	case <-time.After(time.Duration(deadline+300) * time.Second):
		killed = true
		_ = cmd.Process.Kill()
		err = <-done
	}
	var res Result
	b, rerr := os.ReadFile(out)
	_ = os.Remove(out)
	if rerr == nil {
		if jerr := json.Unmarshal(b, &res); jerr == nil {
			return res, se.String(), nil
		}
	}
	if killed {
		return Result{Scenario: j.sc.Name, Notes: []string{"worker stopped: no result in time"}}, se.String(), nil
	}
	return res, se.String(), fmt.Errorf("worker died: %v", err)
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func parent(c Check) int {
	start := time.Now()
	th := tier() == "thorough"
	known := readKnown(c.ID)
	if *fReplay != "" {
		return replay(c)
	}
	var jobs []job
	for _, s := range c.Scenarios {
		if s.Thorough && !th {
			continue
		}
		if *fOnly != "" && !strings.Contains(s.Name, *fOnly) {
			continue
		}
		if !s.RaceOnly {
			jobs = append(jobs, job{s, false})
		}
		if (s.Race || s.RaceOnly) && *fRaceBin != "" {
			jobs = append(jobs, job{s, true})
		}
	}
	per := 100
	if th {
		per = 780
	}
	budgetEnd := start.Add(time.Duration(map[bool]int{false: 400, true: 800}[th]) * time.Second)
	results := make([]Result, len(jobs))
	var wg sync.WaitGroup
	var mu sync.Mutex
	ch := make(chan int)
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := range ch {
				d := per
				if left := int(time.Until(budgetEnd).Seconds()); left < d {
					d = left
				}
				if d < 2 {
					results[k] = Result{Scenario: jobs[k].sc.Name, Race: jobs[k].race, Notes: []string{"not run: out of time"}}
					continue
				}
				res, se, err := runWorker(c, jobs[k], d)
				res.Scenario, res.Race = jobs[k].sc.Name, jobs[k].race
				if err != nil && os.Getenv("VMC_FIRST") != "" {
					fmt.Printf("FIRST %s: crash\n", jobs[k].sc.Name)
					os.Exit(1)
				}
				if err != nil {
					// A crash of the process (fatal error, out of memory, cgo fault): confirm it.
					_, se2, err2 := runWorker(c, jobs[k], d)
					if err2 != nil {
						res.Violations = append(res.Violations, Viol{Key: "crash", Msg: fmt.Sprintf("%v\n%s", err, lastLines(se+se2, 60))})
					} else {
						res.Notes = append(res.Notes, "worker died once, not reproduced: "+lastLines(se, 5))
					}
				} else if unknown(res.Violations, known) > 0 && os.Getenv("VMC_FIRST") != "" {
					// for trying many changes: no confirmation, no report
					fmt.Printf("FIRST %s: %s\n", jobs[k].sc.Name, lastLines(res.Violations[0].Key+": "+res.Violations[0].Msg, 1))
					os.Exit(1)
				} else if unknown(res.Violations, known) > 0 {
					// Confirm in fresh processes.
					for n := 0; n < 2; n++ {
						r2, _, e2 := runWorker(c, jobs[k], d)
						if e2 == nil && unknown(r2.Violations, known) == 0 {
							res.Notes = append(res.Notes, "violation not reproduced in a fresh process, ignored: "+res.Violations[0].Msg)
							res.Violations = nil
							res.Exhaustive = false
							break
						}
					}
					for v := range res.Violations {
						if res.Violations[v].Key == "race" {
							res.Violations[v].Msg += "\n" + lastLines(se, 80)
						}
					}
				}
				mu.Lock()
				results[k] = res
				mu.Unlock()
			}
		}()
	}
	for i := range jobs {
		ch <- i
	}
	close(ch)
	wg.Wait()
	return report(c, results, known, start)
}

func unknown(vs []Viol, known map[string]string) int {
	n := 0
	for _, v := range vs {
		if _, ok := known[v.Key]; !ok {
			n++
		}
	}
	return n
}

func lastLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func report(c Check, results []Result, known map[string]string, start time.Time) int {
	var tot Result
	exhaustive := true
	var notes, samples []string
	viols := 0
	code := 0
	var perScenario []map[string]any
	seenKnown := map[string]bool{}
	for _, r := range results {
		tot.Cases += r.Cases
		tot.Distinct += r.Distinct
		tot.States += r.States
		tot.Transitions += r.Transitions
		tot.Traces += r.Traces
		tot.Pruned += r.Pruned
		tot.Outcomes += r.Outcomes
		if !r.Exhaustive && !r.Race {
			exhaustive = false
		}
		name := r.Scenario
		if r.Race {
			name += " (race)"
		}
		for _, n := range r.Notes {
			notes = append(notes, name+": "+n)
		}
		if len(samples) < 12 {
			for _, s := range r.Samples {
				samples = append(samples, name+": "+s)
			}
		}
		e := map[string]any{"scenario": name, "cases": r.Cases, "states": r.States, "transitions": r.Transitions, "exhaustive": r.Exhaustive, "wall_s": float64(int(r.Wall*100)) / 100}
		if r.Outcomes > 0 {
			e["outcomes"] = r.Outcomes
		}
		if r.Pruned > 0 {
			e["pruned"] = r.Pruned
		}
		perScenario = append(perScenario, e)
		fmt.Printf("%-44s cases=%-9d states=%-9d transitions=%-10d exhaustive=%v %.1fs\n", name, r.Cases, r.States, r.Transitions, r.Exhaustive, r.Wall)
		for _, n := range r.Notes {
			fmt.Printf("    note: %s\n", lastLines(n, 3))
		}
		for _, v := range r.Violations {
			viols++
			if what, ok := known[v.Key]; ok {
				if !seenKnown[v.Key] {
					fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.ID, v.Key, what)
				}
				seenKnown[v.Key] = true
				continue
			}
			dir := filepath.Join(*fRoot, "out", c.ID)
			_ = os.MkdirAll(dir, 0o755)
			f := filepath.Join(dir, sanitize(name+"-"+v.Key)+".json")
			b, _ := json.MarshalIndent(ReplayFile{Property: c.ID, Scenario: r.Scenario, Race: r.Race, Viol: v}, "", " ")
			_ = os.WriteFile(f, b, 0o644)
			fmt.Printf("---- %s [%s] %s\n", name, v.Key, lastLines(v.Msg, 40))
			tr := v.Trace
			if len(tr) > 60 {
				tr = tr[len(tr)-60:]
			}
			for _, l := range tr {
				fmt.Println("      ", l)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, f)
			code = 1
		}
	}
	cov := map[string]any{"exhaustive": exhaustive, "samples": samples, "scenarios": perScenario}
	if samples == nil {
		cov["samples"] = []string{}
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	switch c.Level {
	case "model_checking":
		cov["states"] = tot.States
		cov["transitions"] = tot.Transitions
		cov["traces_validated_against_impl"] = tot.Traces
		cov["redundant_executions_pruned"] = tot.Pruned
		cov["explanation"] = c.Rule
	default:
		cov["evaluations"] = tot.Cases
		cov["distinct_nontrivial"] = tot.Distinct
		cov["rule"] = c.Rule
	}
	ev := map[string]any{
		"property": c.ID, "tier": tier(), "seed": seed(), "level": c.Level, "coverage": cov,
		"assumptions": c.Assumptions, "wall_s": float64(int(time.Since(start).Seconds()*100)) / 100, "violations": viols,
	}
	if c.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	if *fOnly == "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		_ = os.MkdirAll(filepath.Join(*fRoot, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(*fRoot, "evidence", c.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	}
	if code == 0 {
		fmt.Printf("OK property=%s exhaustive=%v %.1fs\n", c.ID, exhaustive, time.Since(start).Seconds())
	}
	return code
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '_' {
			return r
		}
		return '_'
	}, s)
}

func replay(c Check) int {
	var rf ReplayFile
	b, err := os.ReadFile(*fReplay)
	if err == nil {
		err = json.Unmarshal(b, &rf)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	for _, s := range c.Scenarios {
		if s.Name != rf.Scenario {
			continue
		}
		extra := []string{}
		if len(rf.Schedule) > 0 || rf.Explore > 0 {
			extra = append(extra, "-replay", *fReplay)
		}
		res, se, err := runWorker(c, job{s, rf.Race}, 600, extra...)
		if err != nil {
			fmt.Println("worker died:", err, se)
			return 1
		}
		for _, v := range res.Violations {
			fmt.Printf("[%s] %s\n", v.Key, v.Msg)
			for _, l := range v.Trace {
				fmt.Println("   ", l)
			}
		}
		if len(res.Violations) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, *fReplay)
			return 1
		}
		fmt.Println("the recorded schedule no longer fails")
		return 0
	}
	fmt.Fprintln(os.Stderr, "no such scenario")
	return 3
}
