// C11: full-frame buffering re-chunks audio without losing samples.
package main

import (
	"errors"
	"fmt"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/vh"
)

var (
	errWrite = errors.New("write failed")
	errClose = errors.New("close failed")
)

type sample interface{ int8 | int16 | int32 | float32 }

// sink records the frames it is given; the calls whose number is in fail are refused.
type sink[T ~[]S, S sample] struct {
	frames   [][]S
	bad      []bool
	fail     func(call int) bool
	closeErr error
	closed   int
	late     bool
	scribble bool
}

func (s *sink[T, S]) String() string  { return "sink" }
func (s *sink[T, S]) SampleRate() int { return 44100 }
func (s *sink[T, S]) WriteSample(b T) error {
	bad := s.fail != nil && s.fail(len(s.frames))
	vh.Atomic(func() {
		s.frames = append(s.frames, append([]S(nil), b...))
		s.bad = append(s.bad, bad)
		s.late = s.late || s.closed > 0
	})
	if s.scribble {
		for i := range b {
			b[i] = -1
		}
	}
	if bad {
		return fmt.Errorf("call %d: %w", len(s.frames)-1, errWrite)
	}
	return nil
}
func (s *sink[T, S]) Close() error {
	vh.Atomic(func() { s.closed++ })
	return s.closeErr
}

// total is how many samples were offered to the sink.
func (s *sink[T, S]) total() (n int) {
	for _, f := range s.frames {
		n += len(f)
	}
	return n
}

// one runs one history: the sizes written, then close.
func one[T ~[]S, S sample](r *vh.R, fr int, sizes []int, fail uint, closeErr error, mod int, scribble bool) bool {
	desc := fmt.Sprintf("%T frame %d, writes %v, refused calls %b, close error %v", S(0), fr, sizes, fail, closeErr)
	r.Case()
	ok := r.Guard("panic", desc, func() {
		s := &sink[T, S]{closeErr: closeErr, scribble: scribble}
		if fail != 0 {
			s.fail = func(c int) bool { return c < 60 && fail&(1<<c) != 0 }
		}
		b := msdk.FullFrames[T, S](s, fr)
		if b.SampleRate() != 44100 {
			r.Fail("rate", "rate is %d", b.SampleRate())
		}
		in := 0
		val := func(i int) S { return S(i%mod + 1) }
		check := func(op string, before int, err error, final bool) {
			n := 0
			for i, f := range s.frames {
				if len(f) != fr && !(final && i == len(s.frames)-1 && len(f) > 0 && len(f) < fr) {
					r.Fail("frame-size", "%s: %s: frame %d has %d samples", desc, op, i, len(f))
				}
				for k, v := range f {
					if v != val(n+k) {
						r.Fail("content", "%s: %s: frame %d is %v, sample %d should be %v", desc, op, i, f, k, val(n+k))
						break
					}
				}
				n += len(f)
			}
			if n > in {
				r.Fail("invented", "%s: %s: %d samples came out of %d", desc, op, n, in)
			}
			refused := false
			for _, x := range s.bad[before:] {
				refused = refused || x
			}
			if refused != errors.Is(err, errWrite) {
				r.Fail("error", "%s: %s returned %v, a frame was refused: %v", desc, op, err, refused)
			}
			if !final && !refused && err != nil {
				r.Fail("error", "%s: %s returned %v", desc, op, err)
			}
			if !refused {
				want := in / fr * fr
				if final {
					want = in
				}
				if n != want {
					r.Fail("prompt", "%s: %s: %d of %d samples came out", desc, op, n, in)
				}
			}
			r.State(fr, in-n, len(s.frames) > 0 && s.bad[len(s.bad)-1])
		}
		for i, sz := range sizes {
			chunk := make(T, sz, sz+3)
			for k := range chunk {
				chunk[k] = val(in + k)
			}
			in += sz
			before := len(s.frames)
			err := b.WriteSample(chunk)
			for k, v := range chunk {
				if v != val(in-sz+k) {
					r.Fail("input", "%s: the caller's chunk changed", desc)
					break
				}
			}
			for k := range chunk[:cap(chunk)] {
				chunk[:cap(chunk)][k] = -7
			}
			check(fmt.Sprintf("write %d", i), before, err, false)
			r.Step(1)
		}
		if s.closed != 0 {
			r.Fail("close", "%s: closed before close", desc)
		}
		before := len(s.frames)
		err := b.Close()
		check("close", before, err, true)
		if s.closed != 1 || s.late {
			r.Fail("close", "%s: the writer behind was closed %d times, written after close %v", desc, s.closed, s.late)
		}
		if (closeErr != nil) != errors.Is(err, errClose) {
			r.Fail("close-error", "%s: close returned %v", desc, err)
		}
		if closeErr == nil && err != nil && !errors.Is(err, errWrite) {
			r.Fail("close-error", "%s: close returned %v", desc, err)
		}
		for _, x := range s.bad {
			if x {
				r.Nontrivial()
				break
			}
		}
	})
	r.Trace()
	return ok && !r.Stop()
}

// sizes runs every sequence of up to n write sizes from alpha with every pattern of up to k refused calls.
func sizes[T ~[]S, S sample](r *vh.R, fr int, alpha []int, n, k, mod int) {
	for m := 0; m <= n; m++ {
		if !vh.Seqs(m, len(alpha), func(q []int) bool {
			sz := make([]int, m)
			total := 0
			for i, x := range q {
				sz[i] = alpha[x]
				total += sz[i]
			}
			calls := min(total/fr+1, k)
			for fail := uint(0); fail < 1<<calls; fail++ {
				ce := []error{nil, errClose}[(int(fail)+m)%2]
				if fail == 0 || fail == 1 {
					if !one[T](r, fr, sz, fail, nil, mod, false) {
						return false
					}
					ce = errClose
				}
				if !one[T](r, fr, sz, fail, ce, mod, fail%3 == 1) {
					return false
				}
			}
			return true
		}) {
			return
		}
	}
}

func main() {
	var sc []vh.Scenario
	for fr := 1; fr <= 4; fr++ {
		sc = append(sc, vh.Scenario{Name: fmt.Sprintf("frame-%d", fr), Run: func(r *vh.R) {
			alpha := []int{0, 1, 2, 3, 5, 8}
			sizes[msdk.PCM16Sample](r, fr, alpha, r.Pick(5, 6), r.Pick(6, 7), 30000)
		}})
	}
	sc = append(sc, vh.Scenario{Name: "frame-480", Run: func(r *vh.R) {
		for _, fr := range []int{160, 441, 480} {
			sizes[msdk.PCM16Sample](r, fr, []int{1, 160, fr - 1, fr, fr + 1, 2*fr + 1, 5000}, r.Pick(3, 4), 4, 30000)
		}
	}})
	sc = append(sc, vh.Scenario{Name: "large", Run: func(r *vh.R) {
		for _, fr := range []int{960, 1024, 1920, 5760, 48000} {
			sizes[msdk.PCM16Sample](r, fr, []int{1, fr - 1, fr, fr + 1, 3 * fr}, r.Pick(2, 3), 2, 30000)
		}
		for _, fr := range []int{1, 2, 160} {
			sizes[msdk.PCM16Sample](r, fr, []int{1, fr, 257*fr + 1, 4096 * fr}, 2, 1, 30000)
		}
	}})
	sc = append(sc, vh.Scenario{Name: "element-types", Run: func(r *vh.R) {
		for fr := 1; fr <= 3; fr++ {
			sizes[[]int8](r, fr, []int{0, 1, 2, 5}, 4, 4, 100)
			sizes[[]int32](r, fr, []int{0, 1, 2, 5}, 4, 4, 1<<20)
			sizes[[]float32](r, fr, []int{0, 1, 2, 5}, 4, 4, 30000)
		}
	}})
	sc = append(sc, vh.Scenario{Name: "long", Run: func(r *vh.R) {
		// periodic patterns over many frames, with periodic failures
		for fr := 1; fr <= 7; fr++ {
			alpha := []int{1, 2, 3, 4, 7, 11}
			for n := 1; n <= 3; n++ {
				if !vh.Seqs(n, len(alpha), func(q []int) bool {
					var sz []int
					for i := 0; i < 40; i++ {
						sz = append(sz, alpha[q[i%n]])
					}
					for _, fail := range []uint{0, 0x249249249249249, 0xAAAAAAAAAAAAAAA, 0xF0F0F0F0F0F0F, 1<<60 - 1} {
						if !one[msdk.PCM16Sample](r, fr, sz, fail, nil, 30000, false) {
							return false
						}
					}
					return true
				}) {
					return
				}
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "invalid", Run: func(r *vh.R) {
		for _, fr := range []int{0, -1, -480} {
			r.Case()
			func() {
				defer func() {
					if recover() == nil {
						r.Fail("invalid", "frame size %d accepted", fr)
					}
				}()
				msdk.FullFrames[msdk.PCM16Sample](&sink[msdk.PCM16Sample, int16]{}, fr)
			}()
			r.Trace()
		}
	}})
	conc := func(name string, fr int, progs [][]int, failCalls uint, closer bool) {
		sc = append(sc, vh.Scenario{Name: name, Race: true, Run: func(r *vh.R) {
			r.Explore(vh.Opt{Bound: -1}, func() {
				s := &sink[msdk.PCM16Sample, int16]{}
				if failCalls != 0 {
					s.fail = func(c int) bool { return failCalls&(1<<c) != 0 }
				}
				b := msdk.FullFrames[msdk.PCM16Sample](s, fr)
				var js []func()
				errs := 0
				var all []msdk.PCM16Sample
				for i, p := range progs {
					var chunks []msdk.PCM16Sample
					for k, sz := range p {
						c := make(msdk.PCM16Sample, sz)
						for x := range c {
							c[x] = int16(1000*(i+1) + 100*k + x)
						}
						chunks = append(chunks, c)
					}
					all = append(all, chunks...)
					js = append(js, vh.Spawn(fmt.Sprintf("w%d", i), func() {
						for _, c := range chunks {
							if err := b.WriteSample(append(msdk.PCM16Sample(nil), c...)); err != nil {
								vh.Atomic(func() { errs++ })
							}
						}
					}))
				}
				if closer {
					js = append(js, vh.Spawn("close", func() { b.Close() }))
				}
				for _, j := range js {
					j()
				}
				if !closer {
					if err := b.Close(); err != nil {
						vh.Atomic(func() { errs++ })
					}
				}
				if s.closed != 1 {
					vh.Fail("close", "closed %d times", s.closed)
				}
				bad := 0
				var got []int16
				for i, f := range s.frames {
					got = append(got, f...)
					if s.bad[i] {
						bad++
					}
				}
				if bad != errs {
					vh.Fail("error", "%d frames refused, %d calls returned an error", bad, errs)
				}
				// the output is the writes, each whole, one after the other, in each writer's order
				rest := got
				seen := map[int16]int{}
				for len(rest) > 0 {
					var c msdk.PCM16Sample
					for _, x := range all {
						if x[0] == rest[0] {
							c = x
						}
					}
					n := min(len(c), len(rest))
					if c == nil || seen[c[0]] > 0 || fmt.Sprint([]int16(c[:n])) != fmt.Sprint(rest[:n]) || (n < len(c) && !closer) {
						vh.Fail("content", "out of %v came %v", all, got)
						break
					}
					if k := c[0] / 100 % 10; k > 0 && seen[c[0]-100] == 0 {
						vh.Fail("order", "out of %v came %v", all, got)
					}
					seen[c[0]]++
					rest = rest[n:]
				}
				if !closer && len(seen) != len(all) {
					vh.Fail("lost", "out of %v came %v", all, got)
				}
				vh.Note("%v", got)
			})
		}})
	}
	conc("two-writers", 3, [][]int{{2, 4}, {4, 1}}, 0, false)
	conc("three-writers", 2, [][]int{{3}, {1, 2}, {5}}, 0, false)
	conc("two-writers-errors", 2, [][]int{{5, 2}, {3}}, 0b101, false)
	conc("writers-vs-close", 3, [][]int{{2, 2}, {4}}, 0, true)
	vh.Main(vh.Check{ID: "C11", Level: "model_checking",
		Rule:      "every bounded sequence of write sizes, frame sizes and refused calls on the real frame buffer; every interleaving of small concurrent programs",
		Scenarios: sc})
}
