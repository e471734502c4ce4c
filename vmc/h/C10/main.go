// C10: the switch writer under every sequence of operations and every interleaving.
package main

import (
	"errors"
	"fmt"
	"sync"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/vh"
)

const rate = 48000

var errSink = errors.New("sink failed")

type sink struct {
	name   string
	rate   int
	got    []int16
	closed int
	fail   bool
	// logical times: attach call started, replacement returned
	from, to int
	back     int
}

func (s *sink) String() string  { return s.name }
func (s *sink) SampleRate() int { return s.rate }
func (s *sink) WriteSample(b msdk.PCM16Sample) error {
	vh.Atomic(func() { s.got = append(s.got, b...) })
	if s.fail {
		return errSink
	}
	return nil
}
func (s *sink) Close() error {
	vh.Atomic(func() { s.closed++ })
	if s.fail {
		return errSink
	}
	return nil
}

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return false
}

// sequences compares every operation sequence with a reference.
func sequences(r *vh.R, ops []string, n int, start int) {
	vh.Seqs(n, len(ops), func(seq []int) bool {
		r.Case()
		var hist []string
		for _, o := range seq {
			hist = append(hist, ops[o])
		}
		bad := func(key, f string, a ...any) {
			r.Fail(key, "initial rate %d, %v: %s", start, hist, fmt.Sprintf(f, a...))
		}
		ok := r.Guard("panic", fmt.Sprint(hist), func() {
			w := msdk.NewSwitchWriter(start)
			curRate := start
			disabled := false
			var cur *sink // attached
			var curW msdk.PCM16Writer
			all := map[string]*sink{}
			next := int16(0)
			want := map[string][]int16{}
			closed := map[string]int{}
			mk := func(name string, rt int) *sink {
				if all[name] == nil {
					all[name] = &sink{name: name, rate: rt, fail: name == "bad"}
				}
				return all[name]
			}
			for k, o := range hist {
				switch o {
				case "write":
					next++
					err := w.WriteSample(msdk.PCM16Sample{next, -next})
					var we error
					if cur != nil && !disabled {
						want[cur.name] = append(want[cur.name], next, -next)
						if cur.fail {
							we = errSink
						}
					}
					if err != we {
						bad("write-error", "step %d: write returned %v, want %v", k, err, we)
					}
				case "A", "B", "bad":
					s := mk(o, rate)
					var old msdk.PCM16Writer
					if p := panics(func() { old = w.Swap(s) }); p != (curRate < 0) {
						bad("rate-panic", "step %d: swap panics: %v with rate %d", k, p, curRate)
					}
					if curRate < 0 {
						return
					}
					if old != curW {
						bad("swap", "step %d: swap returned %v, attached was %v", k, old, curW)
					}
					cur, curW = s, s
				case "nil":
					if old := w.Swap(nil); old != curW {
						bad("swap", "step %d: swap returned %v, attached was %v", k, old, curW)
					}
					cur, curW = nil, nil
				case "enable":
					w.Enable()
					disabled = false
				case "disable":
					w.Disable()
					disabled = true
				case "close":
					err := w.Close()
					var we error
					if cur != nil {
						closed[cur.name]++
						if cur.fail {
							we = errSink
						}
					}
					if err != we {
						bad("close-error", "step %d: close returned %v, want %v", k, err, we)
					}
					cur, curW = nil, nil
				case "rate", "rate2":
					v := rate
					if o == "rate2" {
						v = 16000
					}
					p := panics(func() { w.SetSampleRate(v) })
					if p != (curRate > 0) {
						bad("rate-panic", "step %d: setting the rate panics: %v, rate is %d", k, p, curRate)
					}
					if !p {
						curRate = v
						if v != rate {
							return // resampling is checked elsewhere
						}
					}
				case "rate0":
					if !panics(func() { w.SetSampleRate(0) }) || !panics(func() { w.SetSampleRate(-5) }) {
						bad("rate-panic", "step %d: an invalid rate is accepted", k)
					}
				}
				if g := w.Get(); g != curW {
					bad("get", "step %d: attached is %v, Get returns %v", k, curW, g)
				}
				if p := panics(func() {
					if v := w.SampleRate(); v != curRate {
						bad("rate", "step %d: rate is %d, want %d", k, v, curRate)
					}
				}); p != (curRate < 0) {
					bad("rate-panic", "step %d: reading the rate panics: %v", k, p)
				}
			}
			for name, s := range all {
				if fmt.Sprint(s.got) != fmt.Sprint(want[name]) || s.closed != closed[name] {
					bad("content", "writer %s got %v, want %v; closed %d times, want %d", name, s.got, want[name], s.closed, closed[name])
				}
			}
		})
		r.Step(n)
		r.Trace()
		return ok && !r.Stop()
	})
}

// resampled compares operation sequences with writers of other rates: what is attached through a
// resampler must get the duration of what was written while it was attached and the switch enabled.
func resampled(r *vh.R, ops []string, n int, start int) {
	vh.Seqs(n, len(ops), func(seq []int) bool {
		r.Case()
		var hist []string
		for _, o := range seq {
			hist = append(hist, ops[o])
		}
		bad := func(key, f string, a ...any) {
			r.Fail(key, "initial rate %d, %v: %s", start, hist, fmt.Sprintf(f, a...))
		}
		ok := r.Guard("panic", fmt.Sprint(hist), func() {
			w := msdk.NewSwitchWriter(start)
			cur := start
			disabled := false
			var at *sink
			var atW msdk.PCM16Writer
			done := func(old msdk.PCM16Writer, closed bool) {
				if at == nil {
					if old != nil {
						bad("swap", "%v given back, nothing was attached", old)
					}
					return
				}
				if closed {
					if at.closed != 1 {
						bad("close", "writer of rate %d closed %d times", at.rate, at.closed)
					}
				} else {
					if old != atW || at.closed != 0 {
						bad("swap", "%v given back, %v was attached; closed %d times", old, atW, at.closed)
						return
					}
					old.Close()
				}
				want := at.from * at.rate / 50
				if g := len(at.got); g < want-16 || g > want+16 || at.rate == cur && g != want {
					bad("samples", "switch at %d, writer at %d: %d frames of 20 ms arrived as %d samples", cur, at.rate, at.from, g)
				}
				at, atW = nil, nil
			}
			for k, o := range hist {
				switch o {
				case "write":
					b := make(msdk.PCM16Sample, max(cur, 8000)/50)
					for i := range b {
						b[i] = 1000
					}
					if err := w.WriteSample(b); err != nil {
						bad("write-error", "step %d: %v", k, err)
					}
					if at != nil && !disabled {
						at.from++
					}
				case "8000", "16000", "48000":
					s := &sink{name: o}
					fmt.Sscan(o, &s.rate)
					var old msdk.PCM16Writer
					if p := panics(func() { old = w.Swap(s) }); p != (cur < 0) {
						bad("rate-panic", "step %d: swap panics: %v with rate %d", k, p, cur)
					}
					if cur < 0 {
						return
					}
					done(old, false)
					at, atW = s, w.Get()
					if (atW == msdk.PCM16Writer(s)) != (s.rate == cur) || atW == nil {
						bad("get", "step %d: writer of rate %d attached as %v", k, s.rate, atW)
						return
					}
				case "nil":
					done(w.Swap(nil), false)
				case "enable":
					w.Enable()
					disabled = false
				case "disable":
					w.Disable()
					disabled = true
				case "close":
					w.Close()
					done(nil, true)
				case "rate":
					if p := panics(func() { w.SetSampleRate(16000) }); p != (cur > 0) {
						bad("rate-panic", "step %d: setting the rate panics: %v, rate is %d", k, p, cur)
					} else if !p {
						cur = 16000
					}
				}
				if g := w.Get(); g != atW {
					bad("get", "step %d: attached is %v, Get returns %v", k, atW, g)
				}
			}
			w.Close()
			done(nil, true)
		})
		r.Step(n)
		r.Trace()
		return ok && !r.Stop()
	})
}

type wrec struct {
	v    int16
	s, e int
}

// world is one concurrent run with logical times.
type world struct {
	w      *msdk.SwitchWriter
	mu     sync.Mutex
	clock  int
	sinks  []*sink
	writes []wrec
	// nothing attached or disabled at some time in [from,to]
	off   [][2]int
	given map[msdk.PCM16Writer]int
}

// tick is a scheduling point all threads compete for, so that every order of call starts and ends is explored.
func (w *world) tick() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.clock++
	return w.clock
}

func (w *world) write(v int16) {
	s := w.tick()
	if err := w.w.WriteSample(msdk.PCM16Sample{v}); err != nil {
		vh.Fail("write-error", "write returned %v", err)
	}
	e := w.tick()
	vh.Atomic(func() { w.writes = append(w.writes, wrec{v, s, e}) })
}

// swap attaches s (nil for none).
func (w *world) swap(s *sink) {
	t := w.tick()
	var p msdk.PCM16Writer
	if s != nil {
		vh.Atomic(func() { s.from, s.to = t, 1<<30; w.sinks = append(w.sinks, s) })
		p = s
	}
	old := w.w.Swap(p)
	w.replaced(old, w.tick())
	if s == nil {
		vh.Atomic(func() { w.off = append(w.off, [2]int{t, 1 << 30}) })
	}
}

func (w *world) replaced(old msdk.PCM16Writer, t int) {
	if old == nil {
		return
	}
	vh.Atomic(func() {
		w.given[old]++
		if s, ok := old.(*sink); ok {
			s.to = t
		}
	})
}

func newSink(name string) *sink { return &sink{name: name, rate: rate} }

func start(s *sink) *world {
	w := &world{w: msdk.NewSwitchWriter(rate), given: map[msdk.PCM16Writer]int{}}
	if s != nil {
		w.swap(s)
	} else {
		w.off = append(w.off, [2]int{0, 1 << 30})
	}
	return w
}

// judge checks every write against the times writers were attached. offUntil tells when a period
// without a writer ended: the end of the swap that attached one.
func (w *world) judge() {
	for _, wr := range w.writes {
		n := 0
		for _, s := range w.sinks {
			for _, v := range s.got {
				if v != wr.v {
					continue
				}
				n++
				if s.from > wr.e || s.to < wr.s {
					vh.Fail("route", "write %d (time %d-%d) went to %s, attached from %d, replaced at %d", wr.v, wr.s, wr.e, s.name, s.from, s.to)
				}
			}
		}
		if n > 1 {
			vh.Fail("twice", "write %d delivered %d times", wr.v, n)
		}
		if n == 0 {
			ok := false
			for _, o := range w.off {
				ok = ok || (o[0] <= wr.e && o[1] >= wr.s)
			}
			if !ok {
				vh.Fail("lost", "write %d (time %d-%d) went nowhere although a writer was attached all the time", wr.v, wr.s, wr.e)
			}
		}
	}
	for _, s := range w.sinks {
		for _, v := range s.got {
			ok := false
			for _, wr := range w.writes {
				ok = ok || wr.v == v
			}
			if !ok {
				vh.Fail("invented", "%s got %d", s.name, v)
			}
		}
	}
}

// once checks that every attached writer was given back or closed exactly once.
func (w *world) once(afterClose bool) {
	for _, s := range w.sinks {
		n := w.given[s] + s.closed
		if w.w.Get() == msdk.PCM16Writer(s) {
			n++
		}
		if n != 1 {
			vh.Fail("given-back", "writer %s: given back %d times, closed %d times", s.name, w.given[s], s.closed)
		}
	}
	if afterClose && w.w.Get() != nil {
		vh.Fail("attached", "a writer is attached after close")
	}
}

func main() {
	var sc []vh.Scenario
	sc = append(sc, vh.Scenario{Name: "sequences", Run: func(r *vh.R) {
		ops := []string{"write", "A", "B", "bad", "nil", "enable", "disable", "close"}
		for n := 1; n <= r.Pick(6, 7); n++ {
			sequences(r, ops, n, rate)
		}
	}})
	sc = append(sc, vh.Scenario{Name: "sequences-unset-rate", Run: func(r *vh.R) {
		ops := []string{"write", "A", "nil", "rate", "rate2", "rate0", "close"}
		for n := 1; n <= r.Pick(5, 7); n++ {
			sequences(r, ops, n, -1)
		}
		sequences(r, []string{"write", "A", "rate", "rate0"}, 4, rate)
		for _, v := range []int{-1, -2, -48000} {
			r.Case()
			w := msdk.NewSwitchWriter(v)
			if !panics(func() { w.SampleRate() }) {
				r.Fail("unset", "rate %d counts as set", v)
			}
			w.SetSampleRate(8000)
			if w.SampleRate() != 8000 {
				r.Fail("unset", "rate %d then 8000: %d", v, w.SampleRate())
			}
		}
		if !panics(func() { msdk.NewSwitchWriter(0) }) {
			r.Fail("zero", "a switch without a rate can be created")
		}
	}})
	sc = append(sc, vh.Scenario{Name: "resampled", Run: func(r *vh.R) {
		for _, sr := range []int{8000, 16000, 24000, 48000} {
			for _, dr := range []int{8000, 16000, 24000, 48000} {
				for _, then := range []string{"swap", "close", "swap-nil"} {
					r.Case()
					w := msdk.NewSwitchWriter(sr)
					s := &sink{name: "s", rate: dr}
					if old := w.Swap(s); old != nil {
						r.Fail("swap", "first swap returned %v", old)
					}
					for i := 0; i < 10; i++ {
						b := make(msdk.PCM16Sample, sr/50)
						for k := range b {
							b[k] = 1000
						}
						if err := w.WriteSample(b); err != nil {
							r.Fail("write-error", "%d->%d: %v", sr, dr, err)
						}
					}
					o := newSink("o")
					o.rate = sr
					var old msdk.PCM16Writer
					switch then {
					case "swap":
						old = w.Swap(o)
					case "swap-nil":
						old = w.Swap(nil)
					case "close":
						w.Close()
					}
					w.WriteSample(make(msdk.PCM16Sample, sr/50))
					if then != "close" {
						if old == nil || s.closed != 0 {
							r.Fail("swap", "%d->%d: swap gave back %v, writer closed %d times", sr, dr, old, s.closed)
							continue
						}
						old.Close()
					}
					if s.closed != 1 {
						r.Fail("close", "%d->%d %s: writer behind the resampler closed %d times", sr, dr, then, s.closed)
					}
					if n := len(s.got); n < dr/5-16 || n > dr/5+16 {
						r.Fail("samples", "%d->%d %s: 200 ms are %d samples, got %d", sr, dr, then, dr/5, n)
					}
					if then == "swap" && len(o.got) != sr/50 {
						r.Fail("route", "the new writer got %d samples", len(o.got))
					}
					r.Trace()
				}
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "resampled-sequences", Run: func(r *vh.R) {
		for n := 1; n <= r.Pick(5, 6); n++ {
			resampled(r, []string{"write", "8000", "16000", "48000", "nil", "enable", "disable", "close"}, n, 16000)
		}
	}})
	sc = append(sc, vh.Scenario{Name: "resampled-sequences-unset-rate", Run: func(r *vh.R) {
		for n := 1; n <= r.Pick(5, 6); n++ {
			resampled(r, []string{"write", "8000", "16000", "rate", "disable", "enable", "close"}, n, -1)
		}
	}})
	add := func(name string, q, t int, body func()) {
		sc = append(sc, vh.Scenario{Name: name, Race: true, Run: func(r *vh.R) { r.Explore(vh.Opt{Bound: r.Pick(q, t)}, body) }})
	}
	add("write-vs-swap", -1, -1, func() {
		a, b, c := newSink("a"), newSink("b"), newSink("c")
		w := start(a)
		j1 := vh.Spawn("write", func() { w.write(1); w.write(2); w.write(3) })
		j2 := vh.Spawn("swap", func() { w.swap(b); w.swap(c) })
		j1()
		j2()
		w.judge()
		w.once(false)
		vh.Note("%v %v %v", a.got, b.got, c.got)
	})
	add("two-writers-vs-swap-close", -1, -1, func() {
		a, b := newSink("a"), newSink("b")
		w := start(a)
		j1 := vh.Spawn("write", func() { w.write(1); w.write(2) })
		j2 := vh.Spawn("write", func() { w.write(3) })
		j3 := vh.Spawn("swap", func() { w.swap(b) })
		j1()
		j2()
		j3()
		w.judge()
		w.once(false)
		t := w.tick()
		w.w.Close()
		b.to = w.tick()
		vh.Atomic(func() { w.off = append(w.off, [2]int{t, 1 << 30}) })
		w.write(4)
		w.judge()
		if b.closed != 1 || a.closed != 0 {
			vh.Fail("given-back", "closed %d, %d times", a.closed, b.closed)
		}
	})
	add("swaps", -1, -1, func() {
		a, b, c, d := newSink("a"), newSink("b"), newSink("c"), newSink("d")
		w := start(a)
		j1 := vh.Spawn("s1", func() { w.swap(b) })
		j2 := vh.Spawn("s2", func() { w.swap(c) })
		j3 := vh.Spawn("s3", func() { w.swap(d); w.write(1) })
		j1()
		j2()
		j3()
		w.judge()
		w.once(false)
		vh.Note("%v", w.w.Get())
	})
	add("swap-vs-close", -1, -1, func() {
		a, b, c := newSink("a"), newSink("b"), newSink("c")
		w := start(a)
		cl := func() {
			t := w.tick()
			w.w.Close()
			vh.Atomic(func() { w.off = append(w.off, [2]int{t, 1 << 30}) })
		}
		j1 := vh.Spawn("s1", func() { w.swap(b) })
		j2 := vh.Spawn("c1", cl)
		j3 := vh.Spawn("s2", func() { w.swap(c); cl() })
		j4 := vh.Spawn("w", func() { w.write(1) })
		j1()
		j2()
		j3()
		j4()
		w.judge()
		w.once(false)
		cl()
		w.once(true)
	})
	add("detach-vs-write", -1, -1, func() {
		a, b := newSink("a"), newSink("b")
		w := start(a)
		j1 := vh.Spawn("s1", func() {
			w.swap(nil)
			w.write(1)
			w.swap(b)
			w.write(2)
		})
		j2 := vh.Spawn("w", func() { w.write(3); w.write(4) })
		j1()
		j2()
		w.judge()
		for _, s := range []*sink{a, b} {
			for _, v := range s.got {
				if v == 1 {
					vh.Fail("route", "a write after detaching went to %s", s.name)
				}
			}
		}
		if len(b.got) == 0 || fmt.Sprint(b.got) != fmt.Sprint(b.got) {
			vh.Fail("lost", "write after attaching went nowhere")
		}
		w.once(false)
	})
	add("disable-vs-write", -1, -1, func() {
		a := newSink("a")
		w := start(a)
		j1 := vh.Spawn("toggle", func() {
			t := w.tick()
			w.w.Disable()
			w.write(1)
			w.w.Enable()
			e := w.tick()
			vh.Atomic(func() { w.off = append(w.off, [2]int{t, e}) })
			w.write(2)
		})
		j2 := vh.Spawn("w", func() { w.write(3); w.write(4) })
		j1()
		j2()
		w.judge()
		two := false
		for _, v := range a.got {
			if v == 1 {
				vh.Fail("disabled", "a write after disabling was delivered")
			}
			two = two || v == 2
		}
		if !two {
			vh.Fail("lost", "a write after enabling was not delivered")
		}
	})
	add("rate-race", -1, -1, func() {
		w := msdk.NewSwitchWriter(-1)
		won := make([]bool, 3)
		rates := []int{8000, 16000, 8000}
		var js []func()
		for i := range won {
			js = append(js, vh.Spawn(fmt.Sprint("rate", i), func() {
				won[i] = !panics(func() { w.SetSampleRate(rates[i]) })
			}))
		}
		for _, j := range js {
			j()
		}
		n := 0
		for i, ok := range won {
			if ok {
				n++
				if w.SampleRate() != rates[i] {
					vh.Fail("rate", "rate %d was accepted, rate is %d", rates[i], w.SampleRate())
				}
			}
		}
		if n != 1 {
			vh.Fail("rate", "%d of 3 calls set the rate", n)
		}
	})
	vh.Main(vh.Check{ID: "C10", Level: "model_checking",
		Rule:        "every operation sequence on the real switch writer against a reference, and every interleaving of small concurrent programs judged with logical call times; the programs also under the race detector",
		Assumptions: []string{"sequentially consistent memory for race-free programs (races are looked for separately)"},
		Scenarios:   sc})
}
