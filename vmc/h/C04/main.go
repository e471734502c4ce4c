// C04: mixer operations under every interleaving with mixing and Stop.
package main

import (
	"errors"
	"fmt"
	"sync"
	"time"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/mixer"
	"github.com/livekit/media-sdk/vh"
)

const (
	T  = time.Millisecond
	fs = 2
)

type sink struct {
	mu      sync.Mutex
	n       int
	active  int
	block   chan struct{} // when set, the first write waits for it
	entered chan struct{}
	fail    bool
	delay   time.Duration
	own     sync.Mutex   // held for the whole of a write and while describing the sink
	m       *mixer.Mixer // when set, writes use the mixer
}

func (s *sink) String() string {
	s.own.Lock()
	defer s.own.Unlock()
	return "sink"
}
func (s *sink) SampleRate() int { return fs * int(time.Second/T) }
func (s *sink) WriteSample(b msdk.PCM16Sample) error {
	s.own.Lock()
	defer s.own.Unlock()
	s.mu.Lock()
	s.n++
	n := s.n
	m := s.m
	s.active++
	if s.active > 1 {
		s.mu.Unlock()
		vh.Fail("overlap", "two output writes overlap")
	}
	s.mu.Unlock()
	if s.block != nil && n == 1 {
		close(s.entered)
		<-s.block
	}
	if m != nil && n <= 2 {
		in := m.NewInput()
		if n == 2 {
			m.Stop()
		}
		in.Close()
	}
	if s.delay > 0 && n <= 4 {
		time.Sleep(s.delay)
	}
	s.mu.Lock()
	s.active--
	s.mu.Unlock()
	if s.fail {
		return errors.New("injected")
	}
	return nil
}

func (s *sink) count() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.n
}

type conf struct {
	name   string
	out    int // output channel size
	frames int
	fail   bool
	opt    vh.Opt
	optT   vh.Opt
	body   func(m *mixer.Mixer, st *mixer.Stats, out *sink)
	noRace bool
}

func newMixer(c conf, out *sink) (*mixer.Mixer, *mixer.Stats) {
	st := &mixer.Stats{}
	opts := []mixer.MixerOptions{mixer.WithStats(st), mixer.WithInputBufferFrames(c.frames)}
	if c.out > 0 {
		opts = append(opts, mixer.WithOutputChannelSize(c.out))
	}
	m, err := mixer.NewMixer(out, T, 1, opts...)
	if err != nil {
		vh.Fail("newmixer", "%v", err)
	}
	return m, st
}

func write(in *mixer.Input, n int) {
	s := make(msdk.PCM16Sample, n)
	for i := range s {
		s[i] = int16(i + 1)
	}
	if err := in.WriteSample(s); err != nil {
		vh.Fail("write", "WriteSample: %v", err)
	}
}

func tracks(st *mixer.Stats, want int64, when string) {
	if got := st.Tracks.Load(); got != want {
		vh.Fail("tracks", "%s: track counter is %d, %d inputs attached", when, got, want)
	}
}

// ended checks that nothing of the mixer is left running.
func ended(m *mixer.Mixer) {
	vh.Sleep(3 * T)
	if n := vh.LiveCount(); n != 0 {
		vh.Fail("leak", "goroutines left after Stop: %v", vh.Live())
	}
	if in := m.NewInput(); in != nil {
		vh.Fail("newinput", "a stopped mixer handed out an input")
	}
}

func main() {
	confs := []conf{
		{name: "stop-anytime", body: func(m *mixer.Mixer, st *mixer.Stats, out *sink) {
			in := m.NewInput()
			write(in, 2*fs)
			j := vh.Spawn("stop", func() { vh.Sleep(T * time.Duration(vh.Choose(3, "when"))); m.Stop() })
			j()
			tracks(st, 1, "after Stop")
			ended(m)
			write(in, fs)
			in.Close()
			in.Close()
			m.Stop()
			tracks(st, 0, "after Close")
			vh.Note("%d frames", out.count())
		}},
		{name: "stop-newinput", body: func(m *mixer.Mixer, st *mixer.Stats, out *sink) {
			var got [2]*mixer.Input
			j1 := vh.Spawn("new1", func() {
				got[0] = m.NewInput()
				if got[0] != nil {
					write(got[0], 2*fs)
				}
			})
			j2 := vh.Spawn("new2", func() { got[1] = m.NewInput() })
			j3 := vh.Spawn("stop", func() {
				m.Stop()
				if m.NewInput() != nil {
					vh.Fail("newinput", "NewInput after Stop returned an input")
				}
			})
			j1()
			j2()
			j3()
			n := int64(0)
			for _, g := range got {
				if g != nil {
					n++
				}
			}
			tracks(st, n, "after Stop")
			for _, g := range got {
				g.Close()
			}
			tracks(st, 0, "after closing all")
			ended(m)
			vh.Note("%d inputs", n)
		}},
		{name: "write-while-mixing-and-close", body: func(m *mixer.Mixer, st *mixer.Stats, out *sink) {
			a, b := m.NewInput(), m.NewInput()
			write(a, 2*fs)
			write(b, 2*fs)
			vh.Sleep(T - T/1000)
			j1 := vh.Spawn("writer", func() { vh.Sleep(T / 1000); write(a, fs); write(a, 3*fs) })
			j2 := vh.Spawn("closer", func() { vh.Sleep(T / 1000); b.Close(); b.Close() })
			j1()
			j2()
			tracks(st, 1, "after closing one of two")
			m.Stop()
			ended(m)
			vh.Note("%d frames", out.count())
		}},
		{name: "describe", body: func(m *mixer.Mixer, st *mixer.Stats, out *sink) {
			a := m.NewInput()
			j1 := vh.Spawn("describer", func() { vh.Note("%s|%s ", m.String(), a.String()) })
			j2 := vh.Spawn("other", func() { m.NewInput().Close() })
			a.Close()
			j1()
			j2()
			tracks(st, 0, "after closing all")
			m.Stop()
			ended(m)
		}},
		{name: "output-uses-mixer", body: func(m *mixer.Mixer, st *mixer.Stats, out *sink) {
			// the output adds and removes inputs, and stops the mixer, from within a write
			out.mu.Lock()
			out.m = m
			out.mu.Unlock()
			a := m.NewInput()
			j1 := vh.Spawn("describer", func() { vh.Sleep(T); vh.Note("%d ", len(m.String())) })
			j2 := vh.Spawn("other", func() { vh.Sleep(T); write(a, fs); a.Close() })
			j1()
			j2()
			vh.Sleep(3 * T)
			tracks(st, 0, "after closing all")
			ended(m)
		}},
		{name: "foreign", body: func(m *mixer.Mixer, st *mixer.Stats, out *sink) {
			// an input of another mixer, nil, and one that is removed already
			m2, st2 := newMixer(conf{frames: 2}, &sink{})
			a, b := m.NewInput(), m2.NewInput()
			j1 := vh.Spawn("foreign", func() { m.RemoveInput(b); m.RemoveInput(nil) })
			j2 := vh.Spawn("closer", func() { b.Close(); m2.RemoveInput(a); m2.RemoveInput(b) })
			j1()
			j2()
			tracks(st, 1, "after removing inputs of others")
			tracks(st2, 0, "after closing its input")
			m.RemoveInput(a)
			a.Close()
			m.RemoveInput(a)
			tracks(st, 0, "after removing all")
			m2.Stop()
			m.Stop()
			ended(m)
		}},
		{name: "two-closers", body: func(m *mixer.Mixer, st *mixer.Stats, out *sink) {
			a, b := m.NewInput(), m.NewInput()
			c := m.NewInput()
			j1 := vh.Spawn("closer1", func() { a.Close(); m.RemoveInput(b) })
			j2 := vh.Spawn("closer2", func() { b.Close(); a.Close() })
			j3 := vh.Spawn("writer", func() { write(a, fs); write(c, fs) })
			j1()
			j2()
			j3()
			tracks(st, 1, "after closing two of three")
			m.Stop()
			ended(m)
		}},
		{name: "concurrent-writers", body: func(m *mixer.Mixer, st *mixer.Stats, out *sink) {
			a := m.NewInput()
			vh.Sleep(T - T/1000)
			j1 := vh.Spawn("writer1", func() { vh.Sleep(T / 1000); write(a, fs) })
			j2 := vh.Spawn("writer2", func() { vh.Sleep(T / 1000); write(a, fs) })
			j1()
			j2()
			vh.Sleep(T)
			m.Stop()
			ended(m)
		}},
		{name: "stop-blocked-output", body: func(m *mixer.Mixer, st *mixer.Stats, out *sink) {
			// the output blocks for a while; the mixer piles up behind it; Stop must still end everything
			in := m.NewInput()
			write(in, 2*fs)
			j := vh.Spawn("stop", func() { vh.Sleep(T/2 + T*time.Duration(vh.Choose(6, "when"))); m.Stop() })
			k := vh.Spawn("release", func() { vh.Sleep(T/3 + T*time.Duration(1+vh.Choose(6, "release"))); close(out.block) })
			j()
			k()
			in.Close()
			ended(m)
			vh.Note("%d frames", out.count())
		}},
		{name: "stop-slow-output", body: func(m *mixer.Mixer, st *mixer.Stats, out *sink) {
			j := vh.Spawn("stop", func() { vh.Sleep(T * time.Duration(1+vh.Choose(8, "when"))); m.Stop() })
			j()
			vh.Sleep(20 * T)
			ended(m)
			vh.Note("%d frames", out.count())
		}},
		{name: "stop-from-output", body: func(m *mixer.Mixer, st *mixer.Stats, out *sink) {
			// closing inputs and stopping while a write is pending must not wait for the output
			<-out.entered
			a := m.NewInput()
			write(a, fs)
			a.Close()
			m.Stop()
			tracks(st, 0, "after Close")
			close(out.block)
			ended(m)
		}},
	}
	var sc []vh.Scenario
	for _, c := range confs {
		for _, oc := range []int{0, 1, 2} {
			if oc == 1 && c.name == "concurrent-writers" {
				continue
			}
			if oc == 2 && c.name != "stop-blocked-output" && c.name != "stop-slow-output" {
				continue
			}
			for _, fail := range []bool{false, true} {
				if fail && c.name != "stop-anytime" || oc > 0 && (c.name == "describe" || c.name == "foreign") {
					continue
				}
				c := c
				c.out = oc
				c.frames = 2
				c.fail = fail
				name := fmt.Sprintf("%s-outchan-%d", c.name, oc)
				if fail {
					name += "-failing"
				}
				sc = append(sc, vh.Scenario{Name: name, Race: true, Run: func(r *vh.R) {
					q := 1
					if c.out > 0 && (c.name == "output-uses-mixer" || c.name == "write-while-mixing-and-close" || c.name == "concurrent-writers" || c.name == "stop-blocked-output" || c.name == "stop-slow-output") {
						q = 0
					}
					if c.name == "two-closers" || c.name == "stop-from-output" || c.name == "stop-blocked-output" || (c.out == 0 && c.name == "stop-anytime") {
						q++
					}
					o := vh.Preempt(r.Pick(q, q+1))
					o.MaxTime = 200 * T
					r.Explore(o, func() {
						out := &sink{fail: c.fail}
						if c.name == "stop-blocked-output" || c.name == "stop-from-output" {
							out.block, out.entered = make(chan struct{}), make(chan struct{})
						}
						if c.name == "stop-slow-output" {
							out.delay = 3*T + T/2
						}
						m, st := newMixer(c, out)
						if c.name != "stop-newinput" {
							vh.Settle()
						}
						c.body(m, st, out)
					})
				}})
			}
		}
	}
	vh.Main(vh.Check{ID: "C04", Level: "model_checking",
		Rule:        "every interleaving, within a preemption bound, of small concurrent programs on the real mixer under a controlled scheduler and clock; the same programs also under the race detector",
		Assumptions: []string{"sequentially consistent memory for race-free programs (races are looked for separately)"},
		Scenarios:   sc})
}
