// C35: the mixer's counters against a reference, over every history of operations, late outputs and interleavings.
package main

import (
	"errors"
	"fmt"
	"slices"
	"time"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/mixer"
	"github.com/livekit/media-sdk/vh"
)

const (
	tick = 2 * time.Millisecond
	fs   = 2
)

// counts are the counters that follow from what was written and mixed.
type counts struct {
	Tracks                                                            int64
	TracksTotal, Restarts, Mixes                                      uint64
	InFrames, InSamples, DropFrames, DropSamples, MixFrames, MixSamps uint64
	OutFrames, OutSamples, WriteErrors                                uint64
}

func read(s *mixer.Stats) (c counts) {
	vh.Atomic(func() {
		c = counts{s.Tracks.Load(), s.TracksTotal.Load(), s.Restarts.Load(), s.Mixes.Load(),
			s.InputFrames.Load(), s.InputSamples.Load(), s.InputFramesDropped.Load(), s.InputSamplesDropped.Load(), s.MixedFrames.Load(), s.MixedSamples.Load(),
			s.OutputFrames.Load(), s.OutputSamples.Load(), s.WriteErrors.Load()}
	})
	return c
}

type refInput struct {
	held      int
	buffering bool
}

// sink delays and fails as told.
type sink struct {
	got    int
	failed uint64
	fail   func(i int) bool
	delay  func(i int) time.Duration
}

func (s *sink) String() string  { return "sink" }
func (s *sink) SampleRate() int { return fs * 500 }
func (s *sink) WriteSample(b msdk.PCM16Sample) error {
	i := s.got
	s.got++
	if s.delay != nil {
		if d := s.delay(i); d > 0 {
			vh.Sleep(d)
		}
	}
	if s.fail != nil && s.fail(i) {
		s.failed++
		return errors.New("injected")
	}
	return nil
}

type env struct {
	frames  int
	m       *mixer.Mixer
	st      *mixer.Stats
	out     *sink
	want    counts
	real    []*mixer.Input
	model   []*refInput
	att     []*refInput
	history []string
}

func newEnv(frames, outchan, inputs int, out *sink) *env {
	e := &env{frames: frames, out: out, st: new(mixer.Stats)}
	opts := []mixer.MixerOptions{mixer.WithStats(e.st)}
	if frames > 0 {
		opts = append(opts, mixer.WithInputBufferFrames(frames))
	} else {
		e.frames = mixer.DefaultInputBufferFrames
	}
	if outchan > 0 {
		opts = append(opts, mixer.WithOutputChannelSize(outchan))
	}
	m, err := mixer.NewMixer(out, tick, 1, opts...)
	if err != nil {
		vh.Fail("newmixer", "NewMixer: %v", err)
	}
	e.m = m
	vh.Sleep(tick / 2) // act between ticks
	for i := range inputs {
		e.newInput(i)
	}
	return e
}

func (e *env) newInput(i int) {
	for len(e.real) <= i {
		e.real, e.model = append(e.real, nil), append(e.model, nil)
	}
	e.real[i], e.model[i] = e.m.NewInput(), &refInput{buffering: true}
	e.att = append(e.att, e.model[i])
	e.want.Tracks++
	e.want.TracksTotal++
}

func (e *env) write(i, n int) {
	if err := e.real[i].WriteSample(make(msdk.PCM16Sample, n)); err != nil {
		vh.Fail("write", "%v: WriteSample: %v", e.history, err)
	}
	r := e.model[i]
	r.held += n
	e.want.InFrames++
	e.want.InSamples += uint64(n)
	if d := r.held - fs*e.frames; d > 0 {
		e.want.DropFrames++
		e.want.DropSamples += uint64(d)
		r.held -= d
	}
}

// mixed is one mix of the reference.
func (e *env) mixed() {
	e.want.Mixes++
	e.want.OutFrames++
	e.want.OutSamples += fs
	for _, r := range e.att {
		if r.buffering && r.held < (e.frames/2+1)*fs {
			continue
		}
		r.buffering = false
		n := min(r.held, fs)
		if n == 0 {
			r.buffering = true
			e.want.Restarts++
			continue
		}
		e.want.MixFrames++
		e.want.MixSamps += uint64(n)
		r.held -= n
	}
}

func (e *env) detach(i int, c bool) {
	if c {
		e.real[i].Close()
	} else {
		e.m.RemoveInput(e.real[i])
	}
	if k := slices.Index(e.att, e.model[i]); k >= 0 {
		e.att = slices.Delete(e.att, k, k+1)
		e.want.Tracks--
	}
}

// check compares all counters; late: the output kept the mixer waiting.
func (e *env) check(late bool) {
	e.want.WriteErrors = e.out.failed
	if got := read(e.st); got != e.want {
		vh.Fail("counters", "%d input frames: %v: counters %+v, want %+v", e.frames, e.history, got, e.want)
	}
	s := e.st
	var timed, jump, zero, neg, resets, blocked uint64
	vh.Atomic(func() {
		timed, jump, zero, neg, resets, blocked = s.TimedMixes.Load(), s.JumpMixes.Load(), s.ZeroMixes.Load(), s.NegativeMixes.Load(), s.TimingResets.Load(), s.BlockedMixes.Load()
	})
	if !late && (timed != e.want.Mixes || jump+zero+neg+resets+blocked != 0) {
		vh.Fail("on-time", "%v: %d mixes on time: %d timed, %d jumps, %d zero, %d negative, %d resets, %d blocked", e.history, e.want.Mixes, timed, jump, zero, neg, resets, blocked)
	}
	if timed+jump < e.want.Mixes || (timed+jump == e.want.Mixes) != (resets == 0) {
		vh.Fail("timing", "%v: %d mixes: %d timed, %d jumps, %d resets", e.history, e.want.Mixes, timed, jump, resets)
	}
	if blocked > e.want.Mixes {
		vh.Fail("blocked", "%v: %d mixes, %d blocked", e.history, e.want.Mixes, blocked)
	}
}

func explore(name string, frames, outchan, inputs, q, t int, fail func(int) bool, ops ...string) vh.Scenario {
	return vh.Scenario{Name: name, Run: func(r *vh.R) {
		depth := r.Pick(q, t)
		opt := vh.Preempt(0)
		if outchan > 0 {
			opt = vh.Delay(1)
		}
		r.Explore(opt, func() {
			e := newEnv(frames, outchan, inputs, &sink{fail: fail})
			mix := func(n int) {
				vh.Sleep(time.Duration(n) * tick)
				for range n {
					e.mixed()
				}
			}
			for range depth {
				o := ops[vh.Choose(len(ops), "op")]
				e.history = append(e.history, o)
				var k, n int
				switch {
				case scan(o, "write %d %d", &k, &n):
					e.write(k, n)
				case scan(o, "mix %d", &n):
					mix(n)
				case scan(o, "close %d", &k):
					e.detach(k, true)
				case scan(o, "remove %d", &k):
					e.detach(k, false)
				case scan(o, "new %d", &k):
					e.newInput(k)
				case o == "foreign":
					e.m.RemoveInput(nil)
					e.m.RemoveInput(new(mixer.Input))
				}
				e.check(false)
			}
			e.history = append(e.history, "drained")
			mix(e.frames + 2)
			e.check(false)
			if uint64(e.out.got) != e.want.OutFrames {
				vh.Fail("output", "%v: the output got %d frames, counted %d", e.history, e.out.got, e.want.OutFrames)
			}
			e.m.Stop()
			e.check(false)
			for i := range e.real {
				e.history = append(e.history, fmt.Sprintf("stopped, close %d", i))
				e.detach(i, i%2 == 0)
				e.check(false)
			}
			vh.Note("%+v", e.want)
		})
	}}
}

// tally is what a concurrent run did.
type tally struct {
	samples, frames, created uint64
	attached                 int64
}

func scan(s, f string, a ...any) bool {
	n, err := fmt.Sscanf(s, f, a...)
	return err == nil && n == len(a)
}

func main() {
	var sc []vh.Scenario
	odd := func(i int) bool { return i%2 == 1 }
	for _, frames := range []int{0, 1, 2, 4} {
		f := frames
		if f == 0 {
			f = 5
		}
		sc = append(sc, explore(fmt.Sprintf("one-input-frames-%d", frames), frames, 0, 1, 5, 6, odd,
			"mix 1", "write 0 2", "write 0 1", "write 0 5", fmt.Sprintf("write 0 %d", f*fs), fmt.Sprintf("write 0 %d", 3*f*fs+1), fmt.Sprintf("mix %d", f+1), "write 0 0"))
	}
	for _, oc := range []int{0, 1, 3} {
		sc = append(sc, explore(fmt.Sprintf("two-inputs-outchan-%d", oc), 2, oc, 2, 4-min(oc, 1), 5-min(oc, 1), odd,
			"mix 1", "write 0 2", "write 1 4", "write 0 5", "write 1 1", "close 0", "close 1", "remove 1", "new 0", "foreign"))
	}
	// a long conference
	sc = append(sc, vh.Scenario{Name: "long", Run: func(r *vh.R) {
		r.Explore(vh.Opt{Bound: 0, Delay: true, MaxSteps: 1 << 22, MaxTime: time.Hour}, func() {
			frames := []int{2, 5}[vh.Choose(2, "frames")]
			n := []int{fs, fs - 1, fs + 1}[vh.Choose(3, "write")]
			e := newEnv(frames, 0, 2, &sink{fail: odd})
			for k := range r.Pick(5000, 70000) {
				e.history = append(e.history[:0], fmt.Sprintf("round %d of writes of %d and %d", k, n, fs))
				e.write(0, n)
				e.write(1, fs)
				vh.Sleep(tick)
				e.mixed()
				if k%50 == 0 {
					e.check(false)
				}
				if k%700 == 699 {
					e.detach(k/700%2, k%3 == 0)
					e.newInput(k / 700 % 2)
				}
			}
			e.check(false)
			e.m.Stop()
		})
	}})
	// the output is late: the counters of the clock
	for _, frames := range []int{1, 2, 5} {
		sc = append(sc, vh.Scenario{Name: fmt.Sprintf("late-frames-%d", frames), Run: func(r *vh.R) {
			n := r.Pick(4, 5)
			r.Explore(vh.Preempt(0), func() {
				delays := []time.Duration{0, tick / 2, tick + tick/2, 2*tick + tick/4, 4 * tick, 7 * tick}
				out := &sink{fail: func(i int) bool { return i%3 == 1 }}
				var ds []time.Duration
				for range n {
					ds = append(ds, delays[vh.Choose(len(delays), "delay")])
				}
				out.delay = func(i int) time.Duration {
					if i < len(ds) {
						return ds[i]
					}
					return 0
				}
				e := newEnv(frames, 0, 1, out)
				e.history = append(e.history, fmt.Sprint("output takes ", ds))
				e.write(0, fs*frames)
				vh.Sleep(40 * tick)
				for range out.got {
					e.mixed()
				}
				e.check(true)
				d, jump := slices.Max(ds), e.st.JumpMixes.Load()
				if d < tick && jump > 0 || d >= 4*tick && jump == 0 {
					vh.Fail("jumps", "%v: %d jumps", e.history, jump)
				}
				vh.Note("%+v", e.want)
			})
		}})
	}
	for _, oc := range []int{1, 2, 4} {
		sc = append(sc, vh.Scenario{Name: fmt.Sprintf("blocked-outchan-%d", oc), Run: func(r *vh.R) {
			r.Explore(vh.Preempt(r.Pick(1, 2)), func() {
				d := vh.Choose(oc+4, "delay")
				e := newEnv(5, oc, 0, &sink{delay: func(i int) time.Duration {
					if i == 0 {
						return time.Duration(d)*tick + tick/2
					}
					return 0
				}})
				e.history = append(e.history, fmt.Sprintf("output channel %d, first write takes %d ticks", oc, d))
				vh.Sleep(time.Duration(d+4) * tick)
				for range e.out.got {
					e.mixed()
				}
				e.check(true)
				if b := e.st.BlockedMixes.Load(); d > oc && b == 0 || d < oc && b != 0 {
					vh.Fail("blocked", "%v: %d blocked", e.history, b)
				}
				vh.Note("%+v", e.want)
			})
		}})
	}
	// inputs written, created and closed concurrently, while mixing
	conc := func(name string, q, t vh.Opt, outchan int, progs ...func(t *tally, e *env, in []*mixer.Input)) {
		sc = append(sc, vh.Scenario{Name: name, Run: func(r *vh.R) {
			opt := q
			if r.Thorough() {
				opt = t
			}
			r.Explore(opt, func() {
				out, w := &sink{}, &tally{}
				e := newEnv(2, outchan, 2, out)
				in := slices.Clone(e.real)
				vh.Sleep(tick / 2) // the mixer wakes up, too
				var js []func()
				for i, p := range progs {
					js = append(js, vh.Spawn(fmt.Sprintf("p%d", i), func() { p(w, e, in) }))
				}
				for _, j := range js {
					j()
				}
				vh.Sleep(tick/2 + 3*tick)
				// what is left is mixed once the inputs are full again
				for _, x := range in {
					x.WriteSample(make(msdk.PCM16Sample, 2*fs))
					w.samples += 2 * fs
					w.frames++
				}
				vh.Sleep(4 * tick)
				c := read(e.st)
				if c.InFrames != w.frames || c.InSamples != w.samples {
					vh.Fail("counters", "%d frames, %d samples counted, %d and %d written", c.InFrames, c.InSamples, w.frames, w.samples)
				}
				if c.DropSamples+c.MixSamps != w.samples {
					vh.Fail("balance", "samples: %d written, %d dropped, %d mixed", w.samples, c.DropSamples, c.MixSamps)
				}
				if c.Tracks != w.attached+2 || c.TracksTotal != w.created+2 {
					vh.Fail("tracks", "%d tracks, %d in total, want %+v and two more", c.Tracks, c.TracksTotal, w)
				}
				if c.OutFrames != uint64(out.got) || c.Mixes != uint64(out.got) || c.OutSamples != fs*uint64(out.got) || c.MixFrames < (c.MixSamps+1)/2 || c.DropFrames > c.DropSamples {
					vh.Fail("output", "the output got %d frames: %+v", out.got, c)
				}
				vh.Note("%+v", c)
			})
		}})
	}
	w := func(i int, ns ...int) func(t *tally, e *env, in []*mixer.Input) {
		return func(t *tally, e *env, in []*mixer.Input) {
			for _, n := range ns {
				in[i].WriteSample(make(msdk.PCM16Sample, n))
				vh.Atomic(func() { t.samples += uint64(n); t.frames++ })
			}
		}
	}
	life := func(t *tally, e *env, in []*mixer.Input) {
		x := e.m.NewInput()
		vh.Atomic(func() { t.created++; t.attached++ })
		if vh.Choose(2, "close") == 1 {
			x.Close()
			vh.Atomic(func() { t.attached-- })
		}
	}
	conc("two-inputs-written", vh.Preempt(2), vh.Preempt(3), 0, w(0, 2, 3), w(1, 4, 1))
	conc("one-input-written-twice", vh.Preempt(2), vh.Preempt(3), 0, w(0, 3, 2), w(0, 4))
	conc("inputs-come-and-go", vh.Preempt(1), vh.Preempt(2), 0, life, life, w(0, 4))
	conc("written-outchan", vh.Delay(2), vh.Preempt(1), 1, w(0, 4, 5), w(1, 4))
	vh.Main(vh.Check{ID: "C35", Level: "model_checking",
		Rule:        "every bounded history of writes, mixes, late and failing outputs and interleavings run on the real mixer under virtual time; all counters compared with a reference",
		Assumptions: []string{"frames of 2 samples stand for all frame sizes"},
		Scenarios:   sc})
}
