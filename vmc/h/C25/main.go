// C25: tone and audio players keep the frame cadence and stop on request.
package main

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"time"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/tones"
	"github.com/livekit/media-sdk/vh"
	"github.com/livekit/media-sdk/vh/sig"
)

const ms = time.Millisecond

var errOut = errors.New("output failed")

type out[T any] struct {
	rate  int
	fail  int
	delay time.Duration
	at    []time.Duration
	got   []T
	clone func(T) T
	mess  func(T)
}

func (o *out[T]) String() string  { return "out" }
func (o *out[T]) SampleRate() int { return o.rate }
func (o *out[T]) WriteSample(s T) error {
	o.at = append(o.at, vh.Since0())
	o.got = append(o.got, o.clone(s))
	if o.delay > 0 {
		vh.Sleep(o.delay)
	}
	if len(o.got)-1 == o.fail {
		return errOut
	}
	if o.mess != nil {
		o.mess(s)
	}
	return nil
}

func clonePCM(s msdk.PCM16Sample) msdk.PCM16Sample { return append(msdk.PCM16Sample(nil), s...) }
func messPCM(s msdk.PCM16Sample) {
	for i := range s {
		s[i] = 77
	}
}

// stop makes a context cancelled at the given time (-1: never).
func stop(at time.Duration, deadline bool) (context.Context, func(), error) {
	ctx := context.Background()
	switch {
	case at == 0:
		cx, cancel := context.WithCancel(ctx)
		cancel()
		return cx, func() {}, context.Canceled
	case at > 0 && deadline:
		cx, cancel := context.WithTimeout(ctx, at)
		return cx, cancel, context.DeadlineExceeded
	case at > 0:
		cx, cancel := context.WithCancel(ctx)
		return cx, vh.Spawn("canceller", func() { vh.Sleep(at); cancel() }), context.Canceled
	}
	return ctx, func() {}, nil
}

type conf struct {
	step     time.Duration
	fail     int
	cancel   time.Duration
	deadline bool
	delay    time.Duration
}

// cadence checks times, result and the number of frames; want -1: endless.
func cadence(desc string, c conf, at []time.Duration, err, cerr error, ret time.Duration, want int) bool {
	for i, t := range at {
		if t != time.Duration(i+1)*c.step {
			vh.Fail("cadence", "%s: frame %d written at %v", desc, i, t)
			return false
		}
	}
	n := len(at)
	last := time.Duration(want) * c.step
	switch {
	case c.fail >= 0 && n > c.fail:
		if n != c.fail+1 || !errors.Is(err, errOut) || ret != at[n-1]+c.delay {
			vh.Fail("error", "%s: write %d failed, then %d more; returned %v at %v", desc, c.fail, n-c.fail-1, err, ret)
			return false
		}
	case c.cancel >= 0 && (want < 0 || c.cancel < last || c.cancel == last && n < want):
		lo, hi := int((c.cancel-1)/c.step), int(c.cancel/c.step)
		if c.cancel == 0 {
			lo, hi = 0, 0
		}
		if !errors.Is(err, cerr) || ret < c.cancel || ret > c.cancel+c.delay || n < lo || n > hi {
			vh.Fail("cancel", "%s: returned %v at %v after %d frames", desc, err, ret, n)
			return false
		}
	case want >= 0:
		if err != nil || n != want || n > 0 && ret != at[n-1]+c.delay || n == 0 && ret != 0 {
			vh.Fail("end", "%s: returned %v at %v after %d frames, want %d", desc, err, ret, n, want)
			return false
		}
	default:
		vh.Fail("end", "%s: returned %v at %v after %d frames", desc, err, ret, n)
		return false
	}
	return true
}

func playTones(c conf, rate int, vol int16, prog []tones.Tone) {
	playTonesAs(c, rate, vol, prog, prog)
}

// playTonesAs plays play, which is to sound like prog.
func playTonesAs(c conf, rate int, vol int16, play, prog []tones.Tone) {
	desc := fmt.Sprintf("program %v at %d, volume %d, failing write %d, cancelled at %v, slow writes %v", prog, rate, vol, c.fail, c.cancel, c.delay)
	ctx, done, cerr := stop(c.cancel, c.deadline)
	o := &out[msdk.PCM16Sample]{rate: rate, fail: c.fail, delay: c.delay, clone: clonePCM, mess: messPCM}
	given := append([]tones.Tone(nil), prog...)
	err := tones.Play(ctx, o, vol, play)
	ret := vh.Since0()
	done()
	if fmt.Sprint(given) != fmt.Sprint(prog) {
		vh.Fail("program", "%s: program changed to %v", desc, prog)
	}
	if !cadence(desc, c, o.at, err, cerr, ret, -1) {
		return
	}
	// the phases
	frames := func(d time.Duration) int { return int((d + c.step - 1) / c.step) }
	var plan []int // index of the tone or -1
	steady := len(prog) == 1 && prog[0].Dur == 0
	for len(plan) < len(o.got) {
		for i, t := range prog {
			n := frames(t.Dur)
			if steady {
				n = len(o.got)
			}
			for range n {
				plan = append(plan, i)
			}
			for range frames(t.Silence) {
				plan = append(plan, -1)
			}
		}
	}
	plan = plan[:len(o.got)]
	for i := 0; i < len(plan); {
		j := i
		var x []int16
		for j < len(plan) && plan[j] == plan[i] && (i == j || steady || j-i < frames(prog[max(plan[i], 0)].Dur) || plan[i] < 0) {
			if len(o.got[j]) != rate/50 {
				vh.Fail("frame-size", "%s: frame %d has %d samples", desc, j, len(o.got[j]))
				return
			}
			x = append(x, o.got[j]...)
			j++
		}
		var fr, share []float64 // the frequencies and each one's part of the volume
		if plan[i] >= 0 {
			all := prog[plan[i]].Freq
			for _, f := range all {
				k := slices.Index(fr, float64(f))
				if k < 0 {
					k = len(fr)
					fr, share = append(fr, float64(f)), append(share, 0)
				}
				share[k] += 1 / float64(len(all))
			}
		}
		loud := 0
		for _, v := range x {
			loud = max(loud, max(int(v), -int(v)))
		}
		if loud > int(vol) || len(fr) == 0 && loud > 0 {
			vh.Fail("volume", "%s: frames %d..%d reach %d, phase %d", desc, i, j, loud, plan[i])
			return
		}
		if len(fr) > 0 && vol >= 1000 {
			amp, rest := sig.Fit(x, rate, fr)
			for k, a := range amp {
				if a < float64(vol)*share[k]*0.9 {
					vh.Fail("tone", "%s: frames %d..%d carry %v of strength %v", desc, i, j, fr, amp)
					return
				}
			}
			if rest > 1e-3 {
				vh.Fail("tone", "%s: frames %d..%d are not %v only, the rest is %.4f", desc, i, j, fr, rest)
				return
			}
		}
		i = j
	}
}

func playAudio[T any](c conf, frames []T, clone func(T) T, eq func(a, b T) bool) {
	desc := fmt.Sprintf("%d frames (%T) of %v, failing write %d, cancelled at %v, slow writes %v", len(frames), frames, c.step, c.fail, c.cancel, c.delay)
	ctx, done, cerr := stop(c.cancel, c.deadline)
	o := &out[T]{rate: 8000, fail: c.fail, delay: c.delay, clone: clone}
	given := append([]T(nil), frames...)
	err := msdk.PlayAudio[T](ctx, o, c.step, frames)
	ret := vh.Since0()
	done()
	if len(frames) == 0 {
		if len(o.got) > 0 || err != nil || ret != 0 {
			vh.Fail("empty", "%s: returned %v at %v after %d frames", desc, err, ret, len(o.got))
		}
		return
	}
	if !cadence(desc, c, o.at, err, cerr, ret, len(frames)) {
		return
	}
	for i, f := range o.got {
		if !eq(f, given[i]) || !eq(frames[i], given[i]) {
			vh.Fail("content", "%s: frame %d is %v", desc, i, f)
			return
		}
	}
}

func eqS[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func main() {
	var sc []vh.Scenario
	exec := func(r *vh.R, bound int, key string, f func()) {
		r.Explore(vh.Opt{Bound: bound, MaxTime: 24 * time.Hour, MaxSteps: 1 << 22}, f)
		r.Trace()
		r.State(key)
		r.Nontrivial(key)
	}
	audio := func(r *vh.R, c conf, n int) {
		b := 0
		if c.cancel > 0 && c.cancel%c.step == 0 {
			b = -1
		}
		key := fmt.Sprint(c, n)
		exec(r, b, key, func() {
			var fr []msdk.PCM16Sample
			for i := range n {
				fr = append(fr, msdk.PCM16Sample{int16(i), int16(-i), 5}[:i%4])
			}
			playAudio(c, fr, clonePCM, func(a, b msdk.PCM16Sample) bool { return eqS(a, b) })
		})
		exec(r, b, key+"i", func() {
			var fr []int
			for i := range n {
				fr = append(fr, i*i)
			}
			playAudio(c, fr, func(x int) int { return x }, func(a, b int) bool { return a == b })
		})
	}
	sc = append(sc, vh.Scenario{Name: "audio", Run: func(r *vh.R) {
		for _, step := range []time.Duration{20 * ms, 10 * ms, 1, 33333333, time.Second} {
			for n := 0; n <= 12 && !r.Stop(); n++ {
				audio(r, conf{step: step, fail: -1, cancel: -1}, n)
				audio(r, conf{step: step, fail: -1, cancel: -1, delay: step / 2}, n)
				for k := 0; k < n; k++ {
					audio(r, conf{step: step, fail: k, cancel: -1}, n)
				}
				for t := 0; t <= 2*n+1; t++ {
					for _, dl := range []bool{false, true} {
						audio(r, conf{step: step, fail: -1, cancel: time.Duration(t) * step / 2, deadline: dl}, n)
					}
				}
			}
			audio(r, conf{step: step, fail: -1, cancel: -1}, 500)
		}
	}})
	durs := []time.Duration{0, 1 * ms, 20 * ms, 30 * ms, 59 * ms, 241 * ms}
	chords := [][]tones.Hz{{425}, {350, 440}, {697, 1209, 1800}}
	// the same tone many times, some more often than others, many different ones
	var crowd [3][]tones.Hz
	for k := range 20 {
		crowd[0] = append(crowd[0], 425)
		crowd[1] = append(crowd[1], tones.Hz(400+150*(k%5/2)))
		crowd[2] = append(crowd[2], tones.Hz(300+150*k))
	}
	var phases []tones.Tone
	for _, d := range durs[1:] {
		for _, s := range durs {
			phases = append(phases, tones.Tone{Freq: chords[len(phases)%3], Dur: d, Silence: s})
		}
	}
	run := func(r *vh.R, c conf, rate int, vol int16, prog []tones.Tone) {
		c.step = 20 * ms
		b := 0
		if c.cancel > 0 && c.cancel%c.step == 0 {
			b = -1
		}
		exec(r, b, fmt.Sprint(c, rate, vol, prog), func() { playTones(c, rate, vol, prog) })
	}
	sc = append(sc, vh.Scenario{Name: "programs", Run: func(r *vh.R) {
		for n := 1; n <= r.Pick(2, 3); n++ {
			vh.Seqs(n, len(phases), func(s []int) bool {
				var prog []tones.Tone
				total := time.Duration(0)
				for _, x := range s {
					prog = append(prog, phases[x])
					total += (phases[x].Dur + phases[x].Silence + 39*ms)
				}
				run(r, conf{fail: -1, cancel: 2*total + 50*ms}, 8000, 8000, prog)
				return !r.Stop()
			})
		}
	}})
	sc = append(sc, vh.Scenario{Name: "standard", Run: func(r *vh.R) {
		// the call progress tones of ETSI TS 101 015 / ITU-T E.180
		for _, x := range []struct{ play, want []tones.Tone }{
			{tones.ETSIDial, []tones.Tone{{Freq: []tones.Hz{425}}}},
			{tones.ETSIRinging, []tones.Tone{{Freq: []tones.Hz{425}, Dur: time.Second, Silence: 4 * time.Second}}},
			{tones.ETSIBusy, []tones.Tone{{Freq: []tones.Hz{425}, Dur: 500 * ms, Silence: 500 * ms}}},
		} {
			for _, rate := range []int{8000, 16000, 48000} {
				c := conf{fail: -1, cancel: 11010 * ms, step: 20 * ms}
				exec(r, 0, fmt.Sprint(x.want, rate), func() { playTonesAs(c, rate, 8000, x.play, x.want) })
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "durations", Run: func(r *vh.R) {
		for d := 1; d <= 100; d++ {
			for s := 0; s <= 100; s += 3 {
				t := tones.Tone{Freq: chords[0], Dur: time.Duration(d) * ms, Silence: time.Duration(s) * ms}
				run(r, conf{fail: -1, cancel: 3*(t.Dur+t.Silence) + 110*ms}, 8000, 8000, []tones.Tone{t})
			}
			t := tones.Tone{Freq: chords[0], Dur: time.Duration(d)*ms + 1}
			run(r, conf{fail: -1, cancel: 510 * ms}, 8000, 8000, []tones.Tone{t, {Dur: t.Dur - 2}})
		}
	}})
	sc = append(sc, vh.Scenario{Name: "volume-rate", Run: func(r *vh.R) {
		for _, rate := range []int{8000, 16000, 24000, 44100, 48000} {
			for _, vol := range []int16{0, 1, 1000, 16383, 32767} {
				for _, p := range [][]tones.Tone{tones.ETSIDial, tones.ETSIRinging, tones.ETSIBusy, {{Freq: chords[1], Dur: 40 * ms, Silence: 20 * ms}, {Freq: chords[2], Dur: 60 * ms}}, {{Dur: 40 * ms}}, {{Dur: 40 * ms, Silence: 20 * ms}, {Freq: chords[0], Dur: 20 * ms}}} {
					for _, dl := range []time.Duration{0, 7 * ms} {
						run(r, conf{fail: -1, cancel: 10*time.Second + 10*ms, delay: dl}, rate, vol, p)
					}
				}
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "many-tones", Run: func(r *vh.R) {
		for _, rate := range []int{8000, 48000} {
			for _, vol := range []int16{1, 1000, 32767} {
				for n := 1; n <= 20; n++ {
					run(r, conf{fail: -1, cancel: 990 * ms}, rate, vol, []tones.Tone{{Freq: crowd[0][:n], Dur: 60 * ms}, {Freq: crowd[1][:n], Dur: 400 * ms}, {Freq: crowd[2][:n], Dur: 500 * ms, Silence: 20 * ms}})
				}
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "stop", Run: func(r *vh.R) {
		progs := [][]tones.Tone{tones.ETSIDial, {{Freq: chords[1], Dur: 40 * ms, Silence: 20 * ms}, {Freq: chords[2], Dur: 60 * ms}}}
		for _, p := range progs {
			for t := 0; t <= 40; t++ {
				for _, dl := range []bool{false, true} {
					run(r, conf{fail: -1, cancel: time.Duration(t) * 10 * ms, deadline: dl}, 8000, 8000, p)
				}
				run(r, conf{fail: t, cancel: -1}, 8000, 8000, p)
				for u := 0; u < 12; u++ {
					run(r, conf{fail: t % 10, cancel: time.Duration(u)*20*ms + 10*ms}, 8000, 8000, p)
				}
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "hours", Run: func(r *vh.R) {
		// a line left off the hook, at low rates
		for i, p := range [][]tones.Tone{{{Freq: []tones.Hz{37}}}, {{Freq: []tones.Hz{37, 61}, Dur: 2 * time.Second, Silence: 3 * time.Second}}, {{Freq: []tones.Hz{41}, Dur: time.Hour, Silence: time.Hour}}} {
			c := conf{fail: -1, cancel: time.Duration(r.Pick(5, 30))*time.Hour + 10*ms, step: 20 * ms}
			r.Explore(vh.Opt{Bound: 0, MaxTime: 40 * time.Hour, MaxSteps: 1 << 26}, func() { playTones(c, 200, 8000, p) })
			r.Trace()
			r.State(i)
			r.Nontrivial(i)
		}
		for _, n := range []int{1000, 5000, 70000} {
			audio(r, conf{step: time.Second, fail: -1, cancel: -1}, n)
			audio(r, conf{step: 20 * ms, fail: n - 1, cancel: -1}, n)
		}
	}})
	vh.Main(vh.Check{ID: "C25", Level: "model_checking",
		Rule:      "every number of frames up to 12 and every tone program of up to two phases (thorough: three) from 30, every failing write and every instant of cancellation, in virtual time, frame by frame",
		Scenarios: sc})
}
