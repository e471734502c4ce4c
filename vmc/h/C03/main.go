// C03: pacing of the mixer under every pattern of output delays and errors, and ordered delivery.
package main

import (
	"errors"
	"fmt"
	"time"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/mixer"
	"github.com/livekit/media-sdk/vh"
)

const (
	T  = time.Millisecond
	fs = 2
)

type step struct {
	d   time.Duration
	err bool
}

func (s step) String() string {
	if s.err {
		return fmt.Sprintf("%v+err", s.d)
	}
	return s.d.String()
}

// sink delays and fails as told and records when each frame arrived.
type sink struct {
	steps  []step
	at     []time.Duration
	frames [][fs]int16
	on     func(i int)
}

func (s *sink) String() string  { return "sink" }
func (s *sink) SampleRate() int { return fs * int(time.Second/T) }
func (s *sink) WriteSample(b msdk.PCM16Sample) error {
	i := len(s.at)
	s.at = append(s.at, vh.Since0())
	if len(b) != fs {
		vh.Fail("frame", "frame %d has %d samples, want %d", i, len(b), fs)
	}
	s.frames = append(s.frames, [fs]int16{b[0], b[1]})
	if s.on != nil {
		s.on(i)
	}
	if i < len(s.steps) {
		vh.Sleep(s.steps[i].d)
		if f := [fs]int16{b[0], b[1]}; f != s.frames[i] {
			vh.Fail("overwritten", "frame %d became %v while the output was writing %v", i, f, s.frames[i])
		}
		if s.steps[i].err {
			return errors.New("injected")
		}
	}
	return nil
}

// expected simulates the pacing rule: arrival times of the frames until horizon.
// chanSize 0 means that frames are written directly.
func expected(steps []step, frames, chanSize int, horizon time.Duration) []time.Duration {
	var push, take, fin []time.Duration // per frame
	delay := func(i int) time.Duration {
		if i < len(steps) {
			return steps[i].d
		}
		return 0
	}
	// emit one frame at time t and return when the mixer may go on
	emit := func(t time.Duration) time.Duration {
		i := len(push)
		p := t
		if chanSize > 0 && i-chanSize >= 0 {
			p = max(p, take[i-chanSize])
		}
		push = append(push, p)
		tk := p
		if i > 0 {
			tk = max(tk, fin[i-1])
		}
		take = append(take, tk)
		fin = append(fin, tk+delay(i))
		if chanSize == 0 {
			return fin[i]
		}
		return p
	}
	var base time.Duration = -1
	ticked := time.Duration(0) // ticks up to here are consumed or merged
	now := time.Duration(0)
	for {
		// next wake-up: a tick pending since the last receive, else the next one
		next := (ticked/T + 1) * T
		if next < now {
			next = now
		}
		now = next
		if now > horizon {
			break
		}
		ticked = now
		n := 0
		if base < 0 {
			n, base = 1, now
		} else if dt := now - base; dt >= 0 {
			n = int((dt + T/4) / T)
			base += time.Duration(n) * T
			if n > frames {
				n, base = frames, now
			}
		}
		for k := 0; k < n; k++ {
			now = emit(now)
		}
	}
	var out []time.Duration
	for _, t := range take {
		if t <= horizon {
			out = append(out, t)
		}
	}
	return out
}

func run(steps []step, frames, chanSize int, idle time.Duration, feed bool) {
	out := &sink{steps: steps}
	opts := []mixer.MixerOptions{mixer.WithInputBufferFrames(frames)}
	if chanSize == 1 {
		opts = append(opts, mixer.WithOutputChannel())
	} else if chanSize > 0 {
		opts = append(opts, mixer.WithOutputChannelSize(chanSize))
	}
	m, err := mixer.NewMixer(out, T, 1, opts...)
	if err != nil {
		vh.Fail("newmixer", "%v", err)
	}
	if feed {
		// the whole buffer holds distinct frames: they must come out in order, none missing or repeated
		in := m.NewInput()
		s := make(msdk.PCM16Sample, frames*fs)
		for i := range s {
			s[i] = int16(i + 1)
		}
		in.WriteSample(s)
	}
	total := idle
	for _, s := range steps {
		total += s.d
	}
	total = total/T*T + 523777
	vh.Sleep(total)
	want := expected(steps, frames, chanSize, total)
	desc := fmt.Sprintf("interval %v, %d input frames, output channel %d, output delays %v", T, frames, chanSize, steps)
	if len(want) != len(out.at) {
		vh.Fail("pace", "%s: %d frames after %v, want %d (at %v, want %v)", desc, len(out.at), total, len(want), out.at, want)
	}
	for i := range want {
		if want[i] != out.at[i] {
			vh.Fail("pace", "%s: frame %d came at %v, want %v (at %v, want %v)", desc, i, out.at[i], want[i], out.at, want)
		}
	}
	for i, f := range out.frames {
		wf := [fs]int16{}
		if feed && i < frames {
			wf = [fs]int16{int16(i*fs + 1), int16(i*fs + 2)}
		}
		if f != wf {
			vh.Fail("order", "%s: frame %d holds %v, want %v", desc, i, f, wf)
		}
	}
	vh.Note("%v", out.at)
}

// sizes keeps the frames it gets.
type sizes struct {
	rate int
	got  []msdk.PCM16Sample
}

func (s *sizes) String() string  { return "sizes" }
func (s *sizes) SampleRate() int { return s.rate }
func (s *sizes) WriteSample(b msdk.PCM16Sample) error {
	s.got = append(s.got, append(msdk.PCM16Sample(nil), b...))
	return nil
}

func us(n int) time.Duration { return time.Duration(n) * time.Microsecond }

func main() {
	var sc []vh.Scenario
	alpha := []step{{}, {us(239), false}, {us(728), true}, {us(1269), false}, {us(1858), false}, {us(3451), true}, {us(6506), false}}
	for _, frames := range []int{1, 2, 3, 5} {
		sc = append(sc, vh.Scenario{Name: fmt.Sprintf("direct-frames-%d", frames), Run: func(r *vh.R) {
			n := r.Pick(5, 6)
			r.Explore(vh.Preempt(0), func() {
				steps := make([]step, n)
				for i := range steps {
					steps[i] = alpha[vh.Choose(len(alpha), "delay")]
				}
				run(steps, frames, 0, 6*T, true)
			})
			r.Sample("all %d-frame sequences over %v", n, alpha)
		}})
	}
	calpha := []step{{}, {us(1243), true}, {us(2611), false}, {us(6509), false}}
	for _, c := range []struct{ frames, ch, n, nt, bound int }{{2, 1, 3, 4, 0}, {3, 1, 3, 4, 0}, {3, 2, 3, 4, 0}, {5, 3, 3, 4, 0}, {8, 1, 2, 3, 0}, {3, 1, 1, 2, 1}, {2, 2, 1, 2, 1}} {
		sc = append(sc, vh.Scenario{Name: fmt.Sprintf("channel-%d-frames-%d-preempt-%d", c.ch, c.frames, c.bound), Run: func(r *vh.R) {
			n := r.Pick(c.n, c.nt)
			r.Explore(vh.Preempt(c.bound), func() {
				steps := make([]step, n)
				for i := range steps {
					steps[i] = calpha[vh.Choose(len(calpha), "delay")]
				}
				run(steps, c.frames, c.ch, 3*T, true)
			})
		}})
	}
	// long pauses of the output, large buffers
	for _, ch := range []int{0, 1, 40} {
		sc = append(sc, vh.Scenario{Name: fmt.Sprintf("long-pauses-%d", ch), Run: func(r *vh.R) {
			lens := []int{0, 9, 29, 30, 31, 59, 64, 149, 150, 151, 299, 1777}
			r.Explore(vh.Opt{Bound: 0, Delay: true, MaxSteps: 100000}, func() {
				frames := []int{10, 30, 63, 150, 300}[vh.Choose(5, "buffer")]
				steps := make([]step, 4)
				for _, at := range []int{vh.Choose(2, "first"), 3} {
					if n := lens[vh.Choose(len(lens), "pause")]; n > 0 {
						steps[at] = step{time.Duration(n)*T + us(259), at == 0}
					}
				}
				run(steps, frames, ch, time.Duration(frames+5)*T, true)
			})
		}})
	}
	// many minutes: every pattern of three delays, over and over
	for _, ch := range []int{0, 2} {
		sc = append(sc, vh.Scenario{Name: fmt.Sprintf("minutes-%d", ch), Run: func(r *vh.R) {
			r.Explore(vh.Opt{Bound: 0, Delay: true, MaxSteps: 1 << 20, MaxTime: time.Hour}, func() {
				al := alpha
				if ch > 0 {
					al = calpha
				}
				pat := make([]step, 3)
				for i := range pat {
					pat[i] = al[vh.Choose(len(al), "delay")]
				}
				steps := make([]step, r.Pick(1500, 15000))
				for i := range steps {
					steps[i] = pat[i%3]
				}
				run(steps, 3, ch, 3*T, true)
			})
		}})
	}
	sc = append(sc, vh.Scenario{Name: "frame-sizes", Run: func(r *vh.R) {
		// every sample rate and interval: a frame holds what plays during the interval
		rates := []int{1000, 8000, 11025, 12000, 16000, 22050, 24000, 32000, 44100, 48000, 96000, 192000}
		r.Explore(vh.Preempt(0), func() {
			rate := rates[vh.Choose(len(rates), "rate")]
			d := time.Duration(1+vh.Choose(r.Pick(120, 1000), "interval")) * T
			s := &sizes{rate: rate}
			m, err := mixer.NewMixer(s, d, 1)
			if err != nil {
				vh.Fail("newmixer", "%v", err)
			}
			in := m.NewInput()
			n := int(int64(rate) * int64(d/T) / 1000)
			buf := make(msdk.PCM16Sample, 3*n)
			for i := range buf {
				buf[i] = int16(i%30000 + 1)
			}
			in.WriteSample(buf)
			vh.Sleep(3*d + T/2)
			if len(s.got) != 3 {
				vh.Fail("pace", "rate %d, interval %v: %d frames in %v", rate, d, len(s.got), 3*d+T/2)
			}
			for k, b := range s.got {
				if len(b) != n {
					vh.Fail("frame", "rate %d, interval %v: frame %d has %d samples, want %d", rate, d, k, len(b), n)
				}
				for i, x := range b {
					if x != buf[k*n+i] {
						vh.Fail("order", "rate %d, interval %v: sample %d of frame %d is %d, want %d", rate, d, i, k, x, buf[k*n+i])
					}
				}
			}
			vh.Note("%d", n)
		})
	}})
	vh.Main(vh.Check{ID: "C03", Level: "model_checking",
		Rule:        "every sequence of output delays and errors on the real mixer under virtual time, arrival time of each frame compared with the pacing rule",
		Assumptions: []string{"time passes only while every goroutine waits; lateness comes from the output being slow"},
		Scenarios:   sc})
}
