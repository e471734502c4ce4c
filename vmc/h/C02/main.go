// C02: content of the mixed frames against a reference mixer, over every history of operations.
package main

import (
	"fmt"
	"slices"
	"time"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/mixer"
	"github.com/livekit/media-sdk/vh"
)

type refInput struct {
	q         []int16
	buffering bool
}

// ref is the reference mixer.
type ref struct {
	fs, frames int
	ins        []*refInput
}

func (m *ref) write(i *refInput, s []int16) {
	i.q = append(i.q, s...)
	if max := m.fs * m.frames; len(i.q) > max {
		i.q = slices.Clone(i.q[len(i.q)-max:])
	}
}

func (m *ref) mix() []int16 {
	acc := make([]int, m.fs)
	for _, i := range m.ins {
		if i.buffering {
			if len(i.q) < (m.frames/2+1)*m.fs {
				continue
			}
			i.buffering = false
		}
		n := min(len(i.q), m.fs)
		if n == 0 {
			i.buffering = true
			continue
		}
		for j := 0; j < n; j++ {
			acc[j] += int(i.q[j])
		}
		i.q = i.q[n:]
	}
	out := make([]int16, m.fs)
	for j, v := range acc {
		out[j] = int16(max(-32767, min(32767, v)))
	}
	return out
}

// sink copies what it gets.
type sink struct {
	rate   int
	frames [][]int16
}

func (s *sink) String() string  { return "sink" }
func (s *sink) SampleRate() int { return s.rate }
func (s *sink) WriteSample(b msdk.PCM16Sample) error {
	s.frames = append(s.frames, slices.Clone(b))
	for i := range b {
		b[i] = 0x55 // a consumer may reuse the frame
	}
	return nil
}

type cfg struct {
	fs      int // samples per frame
	frames  int // 0 = default
	outchan int // 0 = none
	inputs  int
	depth   int
	ops     []op
}

type op struct {
	kind string // write, mix, remove, close, new
	in   int
	n    int // samples, or ticks
	val  func(seq int) int16
}

func (o op) String() string {
	switch o.kind {
	case "write":
		return fmt.Sprintf("in%d.Write(%d)", o.in, o.n)
	case "mix":
		return fmt.Sprintf("mix*%d", o.n)
	}
	return fmt.Sprintf("%s(%d)", o.kind, o.in)
}

const tick = 2 * time.Millisecond

type env struct {
	c       cfg
	m       *mixer.Mixer
	out     *sink
	ref     *ref
	real    []*mixer.Input
	model   []*refInput
	seq     int
	history []string
}

func newEnv(c cfg) *env {
	out := &sink{rate: c.fs * 500}
	var opts []mixer.MixerOptions
	frames := c.frames
	if frames == 0 {
		frames = mixer.DefaultInputBufferFrames
	} else {
		opts = append(opts, mixer.WithInputBufferFrames(frames))
	}
	if c.outchan > 0 {
		opts = append(opts, mixer.WithOutputChannelSize(c.outchan))
	}
	m, err := mixer.NewMixer(out, tick, 1, opts...)
	if err != nil {
		vh.Fail("newmixer", "NewMixer: %v", err)
	}
	e := &env{c: c, m: m, out: out, ref: &ref{fs: c.fs, frames: frames}}
	vh.Sleep(tick / 2) // act between ticks
	for i := 0; i < c.inputs; i++ {
		e.newInput(i)
	}
	return e
}

func (e *env) newInput(i int) {
	inp := e.m.NewInput()
	if inp == nil {
		vh.Fail("newinput", "NewInput returned nil on a running mixer")
	}
	if inp.SampleRate() != e.out.rate {
		vh.Fail("newinput", "input sample rate %d, mixer %d", inp.SampleRate(), e.out.rate)
	}
	ri := &refInput{buffering: true}
	e.ref.ins = append(e.ref.ins, ri)
	for len(e.real) <= i {
		e.real = append(e.real, nil)
		e.model = append(e.model, nil)
	}
	e.real[i], e.model[i] = inp, ri
}

func (e *env) do(o op) {
	e.history = append(e.history, o.String())
	switch o.kind {
	case "write":
		s := make(msdk.PCM16Sample, o.n)
		for j := range s {
			e.seq++
			s[j] = o.val(e.seq)
		}
		if e.real[o.in] == nil {
			return
		}
		e.ref.write(e.model[o.in], s)
		if err := e.real[o.in].WriteSample(s); err != nil {
			vh.Fail("write", "%v: WriteSample: %v", e.history, err)
		}
		for j := range s {
			s[j] = -0x55
		}
	case "mix":
		before := len(e.out.frames)
		vh.Sleep(time.Duration(o.n) * tick)
		got := e.out.frames[before:]
		if len(got) != o.n {
			vh.Fail("count", "%v: %d ticks produced %d frames", e.history, o.n, len(got))
		}
		for k := 0; k < o.n; k++ {
			want := e.ref.mix()
			if !slices.Equal(want, got[k]) {
				vh.Fail("content", "frame size %d, %d input frames, output channel %d: %v: mixed frame is %v, want %v", e.c.fs, e.ref.frames, e.c.outchan, e.history, got[k], want)
			}
		}
	case "remove", "close":
		if e.real[o.in] == nil {
			return
		}
		if o.kind == "remove" {
			e.m.RemoveInput(e.real[o.in])
		} else if err := e.real[o.in].Close(); err != nil {
			vh.Fail("close", "%v: Close: %v", e.history, err)
		}
		if i := slices.Index(e.ref.ins, e.model[o.in]); i >= 0 {
			e.ref.ins = slices.Delete(e.ref.ins, i, i+1)
		}
	case "new":
		e.newInput(o.in)
	}
}

func small(in int) func(int) int16 {
	return func(seq int) int16 { return int16((seq%97 + 1) * []int{1, 100, -300}[in]) }
}

func explore(name string, c cfg, thoroughDepth int) vh.Scenario {
	return vh.Scenario{Name: name, Run: func(r *vh.R) {
		depth := r.Pick(c.depth, thoroughDepth)
		o := vh.Preempt(0)
		r.Explore(o, func() {
			e := newEnv(c)
			for i := 0; i < depth; i++ {
				e.do(c.ops[vh.Choose(len(c.ops), "op")])
			}
			// let everything that is buffered come out
			e.do(op{kind: "mix", n: e.ref.frames + 2})
			vh.Note("%v", e.out.frames)
		})
	}}
}

func main() {
	var sc []vh.Scenario
	w := func(in, n int) op { return op{kind: "write", in: in, n: n, val: small(in)} }
	mix := func(n int) op { return op{kind: "mix", n: n} }
	// one input: every fill pattern
	for _, frames := range []int{0, 1, 2, 3, 4} {
		f := frames
		if f == 0 {
			f = 5
		}
		fs := 2
		ops := []op{mix(1), w(0, fs), w(0, 1), w(0, 2*fs+1), w(0, (f/2+1)*fs), w(0, f*fs+1), mix(f)}
		sc = append(sc, explore(fmt.Sprintf("one-input-frames-%d", frames), cfg{fs: fs, frames: frames, inputs: 1, depth: 6, ops: ops}, 7))
	}
	// two inputs, one of them removed / closed / replaced
	for _, oc := range []int{0, 1, 3} {
		fs := 2
		ops := []op{mix(1), w(0, fs), w(1, fs), w(0, 2*fs), w(1, 3*fs), w(0, 3), w(1, 1), {kind: "close", in: 0}, {kind: "remove", in: 1}, {kind: "new", in: 0}}
		sc = append(sc, explore(fmt.Sprintf("two-inputs-outchan-%d", oc), cfg{fs: fs, frames: 2, outchan: oc, inputs: 2, depth: 5 - min(2*oc, 2), ops: ops}, 6-min(2*oc, 2)))
	}
	sc = append(sc, explore("three-inputs", cfg{fs: 3, frames: 3, inputs: 3, depth: 5, ops: []op{mix(1), w(0, 3), w(1, 6), w(2, 6), w(0, 9), w(2, 4), {kind: "remove", in: 1}, {kind: "close", in: 2}}}, 6))
	// amplitudes: every combination of extreme values over two and three inputs
	vals := []int16{-32768, -32767, -20000, -1, 0, 1, 12767, 20000, 32767}
	for n := 1; n <= 4; n++ {
		sc = append(sc, vh.Scenario{Name: fmt.Sprintf("amplitudes-%d", n), Run: func(r *vh.R) {
			vs := vals
			if n == 4 {
				vs = []int16{-32768, -20000, 12767, 32767}
			}
			dims := make([]int, n)
			total := 1
			for i := range dims {
				dims[i] = len(vs)
				total *= len(vs)
			}
			// the frame holds all combinations at once
			var cols [][]int16 = make([][]int16, n)
			vh.Prod(dims, func(ix []int) bool {
				for i, v := range ix {
					cols[i] = append(cols[i], vs[v])
				}
				return true
			})
			for rot := 0; rot < n; rot++ {
				r.Explore(vh.Preempt(0), func() {
					e := newEnv(cfg{fs: total, frames: 1, inputs: n})
					for i := range n {
						c := cols[(i+rot)%n]
						k := 0
						e.do(op{kind: "write", in: i, n: total, val: func(int) int16 { k++; return c[k-1] }})
					}
					e.do(op{kind: "mix", n: 2})
					e.m.Stop()
				})
			}
			r.Sample("%d inputs: all %d combinations of %v", n, total, vs)
		}})
	}
	// many inputs: all but one, or one of two, go on after some mixes; values that add up below and above the limit
	sc = append(sc, vh.Scenario{Name: "many-inputs", Run: func(r *vh.R) {
		top := r.Pick(40, 130)
		r.Explore(vh.Preempt(0), func() {
			n := 5 + vh.Choose(top-4, "inputs")
			scale := []int{1, 700, -32768}[vh.Choose(3, "scale")]
			gone := vh.Choose(4, "removed")
			e := newEnv(cfg{fs: 3, frames: 2, inputs: n})
			write := func() {
				for i := range n {
					e.do(op{kind: "write", in: i, n: 6, val: func(seq int) int16 {
						if scale == -32768 {
							return []int16{-32768, 32767, 3}[(seq+i)%3]
						}
						return int16((seq%5 + i%7 + 1) * scale)
					}})
				}
			}
			write()
			e.do(op{kind: "mix", n: 1})
			for i := range n {
				if gone == 0 && i == n-1 || gone == 1 && i == 0 || gone == 2 && i%2 == 1 || gone == 3 && i != n/2 {
					e.do(op{kind: []string{"remove", "close"}[i/2%2], in: i})
				}
			}
			e.do(op{kind: "mix", n: 1})
			if gone == 2 {
				e.do(op{kind: "new", in: 1})
			}
			write()
			e.do(op{kind: "mix", n: 4})
			e.m.Stop()
		})
	}})
	// a long conference: writes of one size again and again, too few and too many
	sc = append(sc, vh.Scenario{Name: "long", Run: func(r *vh.R) {
		r.Explore(vh.Opt{Bound: 0, Delay: true, MaxSteps: 1 << 22, MaxTime: time.Hour}, func() {
			e := newEnv(cfg{fs: 4, frames: 3, outchan: 2 * vh.Choose(2, "outchan"), inputs: 2})
			n := []int{4, 3, 5, 8}[vh.Choose(4, "write")]
			val := small(1)
			for k := range r.Pick(1500, 12000) {
				e.history = e.history[:0] // or it grows without bound
				e.history = append(e.history, fmt.Sprintf("round %d of writes of %d and 4", k, n))
				e.do(op{kind: "write", in: 0, n: n, val: val})
				e.do(op{kind: "write", in: 1, n: 4, val: val})
				e.do(op{kind: "mix", n: 1 + k%2})
				if k%500 == 499 {
					e.do(op{kind: "close", in: k / 500 % 2})
					e.do(op{kind: "new", in: k / 500 % 2})
				}
			}
			e.m.Stop()
		})
	}})
	// writes and removals at the very moment of a mix, all pairs of short programs: the frames are what some order of
	// the calls and the mixer's taking from each input gives
	sc = append(sc, vh.Scenario{Name: "at-the-mix", Run: func(r *vh.R) {
		const fs, frames = 2, 2
		type call struct {
			remove bool
			in, n  int
		}
		calls := []call{{false, 0, 2}, {false, 1, 2}, {false, 0, 4}, {false, 1, 3}, {true, 0, 0}, {true, 1, 0}}
		data := func(slot, n int) msdk.PCM16Sample {
			s := make(msdk.PCM16Sample, n)
			for i := range s {
				s[i] = int16([]int{1, 10, 100, 1000, 5000}[slot] * (i + 1))
			}
			return s
		}
		copyRef := func(m *ref, ins []*refInput) (*ref, []*refInput) {
			c := &ref{fs: m.fs, frames: m.frames}
			out := make([]*refInput, len(ins))
			for i, x := range ins {
				n := *x
				n.q = slices.Clone(x.q)
				out[i] = &n
				if slices.Contains(m.ins, x) {
					c.ins = append(c.ins, out[i])
				}
			}
			return c, out
		}
		run := func(pre [2]int, progs [2][]call) bool {
			want := map[string]bool{}
			type state struct {
				m    *ref
				ins  []*refInput
				at   [2]int
				mix  int   // 0 to come, 1 under way, 2 done
				left []int // inputs it has still to take from
				acc  []int
			}
			take := func(m *ref, i *refInput, acc []int) {
				one := &ref{fs: m.fs, frames: m.frames, ins: []*refInput{i}}
				for j, v := range one.mix() {
					acc[j] += int(v)
				}
			}
			var rec func(o state)
			rec = func(o state) {
				next := func() state {
					n := o
					n.m, n.ins = copyRef(o.m, o.ins)
					n.left, n.acc = slices.Clone(o.left), slices.Clone(o.acc)
					return n
				}
				if o.at[0] == len(progs[0]) && o.at[1] == len(progs[1]) && o.mix == 2 {
					n := next()
					log := fmt.Sprint(n.acc)
					for range 5 {
						log += fmt.Sprint(n.m.mix())
					}
					want[log] = true
					return
				}
				for t := range progs {
					if o.at[t] == len(progs[t]) {
						continue
					}
					c := progs[t][o.at[t]]
					if c.remove && o.mix == 1 {
						continue // the mixer's list of inputs doesn't change meanwhile
					}
					n := next()
					n.at[t]++
					if c.remove {
						if i := slices.Index(n.m.ins, n.ins[c.in]); i >= 0 {
							n.m.ins = slices.Delete(n.m.ins, i, i+1)
						}
					} else {
						n.m.write(n.ins[c.in], data(2*t+o.at[t]+1, c.n))
					}
					rec(n)
				}
				switch {
				case o.mix == 0:
					n := next()
					n.mix, n.acc = 1, make([]int, fs)
					for i, x := range n.ins {
						if slices.Contains(n.m.ins, x) {
							n.left = append(n.left, i)
						}
					}
					rec(n)
				case o.mix == 1 && len(o.left) == 0:
					n := next()
					n.mix = 2
					rec(n)
				case o.mix == 1:
					for k, i := range o.left {
						n := next()
						n.left = slices.Delete(n.left, k, k+1)
						take(n.m, n.ins[i], n.acc)
						rec(n)
					}
				}
			}
			o := state{m: &ref{fs: fs, frames: frames}}
			for i := range pre {
				ri := &refInput{buffering: true}
				o.m.ins = append(o.m.ins, ri)
				o.ins = append(o.ins, ri)
				o.m.write(ri, data(0, pre[i]))
			}
			rec(o)
			r.Explore(vh.Delay(r.Pick(2, 3)), func() {
				out := &sink{rate: fs * 500}
				m, err := mixer.NewMixer(out, tick, 1, mixer.WithInputBufferFrames(frames))
				if err != nil {
					vh.Fail("newmixer", "NewMixer: %v", err)
				}
				ins := []*mixer.Input{m.NewInput(), m.NewInput()}
				for i := range pre {
					ins[i].WriteSample(data(0, pre[i]))
				}
				var js []func()
				for t, p := range progs {
					js = append(js, vh.Spawn(fmt.Sprintf("p%d", t), func() {
						vh.Sleep(tick)
						for i, c := range p {
							if c.remove {
								m.RemoveInput(ins[c.in])
							} else {
								ins[c.in].WriteSample(data(2*t+i+1, c.n))
							}
						}
					}))
				}
				for _, j := range js {
					j()
				}
				vh.Sleep(5*tick + tick/2)
				log := ""
				for _, f := range out.frames {
					log += fmt.Sprint(f)
				}
				m.Stop()
				vh.Note("%s", log)
				if !want[log] {
					vh.Fail("content", "inputs with %v samples; %v and %v at the moment of a mix: no order gives the frames %s", pre, progs[0], progs[1], log)
				}
			})
			return !r.Stop()
		}
		for _, pre := range [][2]int{{4, 4}, {0, 3}, {2, 4}}[:r.Pick(2, 3)] {
			for n := 1; n <= r.Pick(1, 2); n++ {
				ok := vh.Prod([]int{len(calls), len(calls)}, func(x []int) bool {
					return vh.Seqs(n, len(calls), func(y []int) bool {
						var b []call
						for _, k := range y {
							b = append(b, calls[k])
						}
						return run(pre, [2][]call{{calls[x[0]], calls[x[1]]}, b})
					})
				})
				if !ok {
					return
				}
			}
		}
	}})
	vh.Main(vh.Check{ID: "C02", Level: "model_checking",
		Rule:        "every bounded history of writes, mixes, removals run on the real mixer under virtual time, each mixed frame compared with a reference mixer",
		Assumptions: []string{"frame sizes 2-3 samples stand for all frame sizes (one scenario uses frames of 9-729 samples)"},
		Scenarios:   sc})
}
