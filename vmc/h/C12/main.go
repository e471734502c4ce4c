// C12: resampling conserves duration and content however the audio is chunked.
package main

import (
	"errors"
	"fmt"
	"math"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/vh"
)

var (
	errWrite = errors.New("write failed")
	errClose = errors.New("close failed")
)

type sink struct {
	rate     int
	got      msdk.PCM16Sample
	writes   int
	closed   int
	failAt   int // write number that fails, 0 for none
	failAll  bool
	closeErr error
	late     bool // written after close
	scribble bool // overwrites what it is given
}

func (s *sink) String() string  { return "sink" }
func (s *sink) SampleRate() int { return s.rate }
func (s *sink) WriteSample(b msdk.PCM16Sample) error {
	vh.Atomic(func() {
		s.writes++
		if s.closed > 0 {
			s.late = true
		}
		s.got = append(s.got, b...)
	})
	if s.scribble {
		for i := range b {
			b[i] = -32768
		}
	}
	if s.failAll || s.writes == s.failAt {
		return errWrite
	}
	return nil
}
func (s *sink) Close() error {
	vh.Atomic(func() { s.closed++ })
	return s.closeErr
}

// signal is a mix of two tones, well inside the band of an 8 kHz signal.
func signal(rate, n int) msdk.PCM16Sample {
	out := make(msdk.PCM16Sample, n)
	for i := range out {
		t := float64(i) / float64(rate)
		out[i] = int16(6000*math.Sin(2*math.Pi*440*t) + 5000*math.Sin(2*math.Pi*1210*t+1))
	}
	return out
}

// lag is how many samples of the lower rate the filter may hold back, in samples of the destination.
func lag(src, dst int) int {
	low := min(src, dst)
	return lagLow*dst/low + 2
}

const (
	lagLow    = 144 // reach of the filter, for comparisons away from the edges
	behindLow = 800 // what may be held back between writes, beyond two writes' worth
)

// run writes the signal cut into the sizes (0: nothing more).
func run(src, dst int, sizes []int, sig msdk.PCM16Sample, check func(in int, largest int, s *sink)) *sink {
	s := &sink{rate: dst}
	w := msdk.ResampleWriter(s, src)
	if w.SampleRate() != src {
		panic(fmt.Sprintf("resampling writer for %d reports rate %d", src, w.SampleRate()))
	}
	in, big := 0, 0
	for _, n := range sizes {
		chunk := append(msdk.PCM16Sample(nil), sig[in:in+n]...)
		if err := w.WriteSample(chunk); err != nil {
			panic(err)
		}
		for i := range chunk {
			if chunk[i] != sig[in+i] {
				panic("the writer changed its input")
			}
			chunk[i] = 32767
		}
		in += n
		big = max(big, n)
		if check != nil {
			check(in, big, s)
		}
	}
	if err := w.Close(); err != nil {
		panic(err)
	}
	return s
}

func near(a, b msdk.PCM16Sample, tol int) int {
	for i := range min(len(a), len(b)) {
		if d := int(a[i]) - int(b[i]); d > tol || d < -tol {
			return i
		}
	}
	return -1
}

func worth(n, src, dst int) int { return n * dst / src }

// judge checks one chunking of one pair of rates.
func judge(r *vh.R, src, dst int, sizes []int, refs map[int]msdk.PCM16Sample) bool {
	total := 0
	for _, n := range sizes {
		total += n
	}
	desc := fmt.Sprintf("%d->%d, writes %v", src, dst, sizes)
	if len(sizes) > 12 {
		desc = fmt.Sprintf("%d->%d, %d writes %v...", src, dst, len(sizes), sizes[:8])
	}
	r.Case()
	ok := r.Guard("panic", desc, func() {
		sig := signal(src, total)
		s := run(src, dst, sizes, sig, func(in, big int, s *sink) {
			r.Step(1)
			if len(s.got) > worth(in, src, dst)+2 {
				r.Fail("ahead", "%s: after %d samples in, %d came out", desc, in, len(s.got))
			}
			if len(s.got) < worth(in, src, dst)-behindLow*dst/min(src, dst)-2-2*worth(big, src, dst) {
				r.Fail("behind", "%s: after %d samples in, only %d came out", desc, in, len(s.got))
			}
		})
		r.State(src, dst, total, len(s.got))
		if d := len(s.got) - worth(total, src, dst); d > 2 || d < -2 {
			r.Fail("duration", "%s: %d samples in are worth %d, %d came out", desc, total, worth(total, src, dst), len(s.got))
		}
		if s.closed != 1 || s.late {
			r.Fail("close", "%s: writer behind closed %d times, written after close %v", desc, s.closed, s.late)
		}
		ref, have := refs[total]
		if !have {
			ref = msdk.Resample(nil, dst, sig, src)
			refs[total] = ref
		}
		if d := len(ref) - len(s.got); d > 2 || d < -2 {
			r.Fail("oneshot", "%s: %d samples, one-shot gives %d", desc, len(s.got), len(ref))
		}
		if i := near(ref, s.got, 3); i >= 0 {
			r.Fail("content", "%s: sample %d is %d, one-shot gives %d", desc, i, s.got[i], ref[i])
		}
	})
	r.Trace()
	return ok && !r.Stop()
}

var rates = []int{8000, 16000, 24000, 32000, 44100, 48000}

func pairs(f func(src, dst int)) {
	for _, a := range rates {
		for _, b := range rates {
			if a != b {
				f(a, b)
			}
		}
	}
}

func main() {
	var sc []vh.Scenario
	pairs(func(src, dst int) {
		sc = append(sc, vh.Scenario{Name: fmt.Sprintf("%d-%d", src, dst), Run: func(r *vh.R) {
			refs := map[int]msdk.PCM16Sample{}
			alpha := []int{1, 2, 3, 0, 7, 80, 161, 960}
			for n := 1; n <= r.Pick(3, 5); n++ {
				if !vh.Seqs(n, len(alpha), func(q []int) bool {
					sizes := make([]int, n)
					for i, x := range q {
						sizes[i] = alpha[x]
					}
					return judge(r, src, dst, sizes, refs)
				}) {
					return
				}
			}
			// long runs of periodic size patterns
			refs = map[int]msdk.PCM16Sample{}
			fr := src / 50
			beta := []int{1, 3, 5, fr / 4, fr, fr + 1, 2*fr - 7}
			for n := 1; n <= r.Pick(2, 3); n++ {
				if !vh.Seqs(n, len(beta), func(q []int) bool {
					var sizes []int
					for i := 0; i < 60; i++ {
						sizes = append(sizes, beta[q[i%n]])
					}
					return judge(r, src, dst, sizes, refs)
				}) {
					return
				}
			}
			// constants stay constant, silence stays silent
			for _, v := range []int16{0, 1000, -12345, 32000, -32000} {
				for _, size := range []int{1, 7, fr} {
					r.Case()
					n := 4000 / size * size
					sig := make(msdk.PCM16Sample, n)
					for i := range sig {
						sig[i] = v
					}
					var sizes []int
					for i := 0; i < n; i += size {
						sizes = append(sizes, size)
					}
					s := run(src, dst, sizes, sig, nil)
					edge := lag(src, dst)
					for i, x := range s.got {
						if v == 0 {
							edge = 0
						}
						if i < edge || i >= len(s.got)-edge {
							continue
						}
						if d := int(x) - int(v); d > 3 || d < -3 {
							r.Fail("constant", "%d->%d: constant %d became %d at sample %d", src, dst, v, x, i)
							break
						}
					}
					r.Trace()
				}
			}
			// a tone keeps its place in time: compare with the tone generated at the output rate
			r.Case()
			s := run(src, dst, []int{src / 10, src / 10}, signal(src, src/5), nil)
			want := signal(dst, dst/5)
			edge := lag(src, dst)
			for i := edge; i < len(s.got)-edge && i < len(want); i++ {
				if d := int(s.got[i]) - int(want[i]); d > 700 || d < -700 {
					r.Fail("tone", "%d->%d: sample %d is %d, the tone at the output rate is %d", src, dst, i, s.got[i], want[i])
					break
				}
			}
		}})
	})
	sc = append(sc, vh.Scenario{Name: "oneshot", Run: func(r *vh.R) {
		for _, src := range rates {
			for _, dst := range rates {
				for _, n := range []int{0, 1, 2, 3, 5, 159, 160, 960, 5000} {
					for _, pre := range []int{0, 1, 5} {
						for _, spare := range []int{0, 1, 10000} {
							r.Case()
							buf := make(msdk.PCM16Sample, pre, pre+spare)
							for i := range buf {
								buf[i] = int16(100 + i)
							}
							in := signal(src, n)
							keep := append(msdk.PCM16Sample(nil), in...)
							out := msdk.Resample(buf, dst, in, src)
							d := fmt.Sprintf("%d->%d, %d samples appended to %d", src, dst, n, pre)
							for i := range min(pre, len(out)) {
								if out[i] != int16(100+i) {
									r.Fail("append", "%s: the destination's samples changed", d)
								}
							}
							if i := near(in, keep, 0); i >= 0 {
								r.Fail("input", "%s: the input changed", d)
							}
							if x := len(out) - pre - worth(n, src, dst); x > 2 || x < -2 {
								r.Fail("duration", "%s: got %d, worth %d", d, len(out)-pre, worth(n, src, dst))
							}
							if src == dst && (len(out) != pre+n || near(out[pre:], in, 0) >= 0) {
								r.Fail("same-rate", "%s: equal rates changed the samples", d)
							}
							r.Trace()
						}
					}
				}
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "same-rate", Run: func(r *vh.R) {
		vh.Seqs(4, 4, func(q []int) bool {
			r.Case()
			s := &sink{rate: 16000, closeErr: errClose}
			w := msdk.ResampleWriter(s, 16000)
			n := 0
			sig := signal(16000, 20)
			for _, k := range q {
				w.WriteSample(sig[n : n+k])
				n += k
				if len(s.got) != n {
					r.Fail("same-rate", "sizes %v: %d of %d samples passed", q, len(s.got), n)
				}
			}
			if err := w.Close(); err != errClose || s.closed != 1 || near(s.got, sig, 0) >= 0 {
				r.Fail("same-rate", "sizes %v: close %v, closed %d times", q, err, s.closed)
			}
			return !r.Stop()
		})
	}})
	sc = append(sc, vh.Scenario{Name: "errors", Run: func(r *vh.R) {
		pairs(func(src, dst int) {
			for failAt := 0; failAt <= 8; failAt++ {
				for _, ce := range []error{nil, errClose} {
					for _, scribble := range []bool{false, true} {
						r.Case()
						s := &sink{rate: dst, failAt: failAt, closeErr: ce, scribble: scribble}
						w := msdk.ResampleWriter(s, src)
						d := fmt.Sprintf("%d->%d, write %d behind fails, close %v", src, dst, failAt, ce)
						saw := 0
						n := 0
						sig := signal(src, src/50*7)
						for i := 0; i < 7; i++ {
							before := s.writes
							err := w.WriteSample(sig[n : n+src/50])
							n += src / 50
							failed := failAt > before && failAt <= s.writes
							if failed != (err != nil) || (err != nil && !errors.Is(err, errWrite)) {
								r.Fail("error", "%s: write %d returned %v", d, i, err)
							}
							if err != nil {
								saw++
							}
						}
						before := s.writes
						err := w.Close()
						failed := failAt > before && failAt <= s.writes
						if ce != nil && !errors.Is(err, ce) {
							r.Fail("error", "%s: close returned %v", d, err)
						}
						if ce == nil && !failed && err != nil {
							r.Fail("error", "%s: close returned %v", d, err)
						}
						if s.closed != 1 {
							r.Fail("close", "%s: closed %d times", d, s.closed)
						}
						w.Close()
						if s.closed != 1 {
							r.Fail("close", "%s: a second close closed the writer behind again", d)
						}
						if err := w.WriteSample(sig[:10]); err == nil && src != dst && s.late {
							r.Fail("late", "%s: a write after close reached the closed writer", d)
						}
						if x := len(s.got) - worth(n, src, dst); x > 2 || x < -2 {
							r.Fail("duration", "%s: %d samples came out, worth %d", d, len(s.got), worth(n, src, dst))
						}
						if i := near(s.got, msdk.Resample(nil, dst, sig, src), 3); i >= 0 {
							r.Fail("content", "%s: sample %d differs", d, i)
						}
						r.Trace()
					}
				}
			}
		})
	}})
	for _, p := range [][2]int{{48000, 16000}, {8000, 48000}} {
		sc = append(sc, vh.Scenario{Name: fmt.Sprintf("concurrent-%d-%d", p[0], p[1]), Race: true, Run: func(r *vh.R) {
			r.Explore(vh.Opt{Bound: -1}, func() {
				s := &sink{rate: p[1]}
				w := msdk.ResampleWriter(s, p[0])
				fr := p[0] / 50
				sig := signal(p[0], fr)
				a := vh.Spawn("w1", func() { w.WriteSample(sig); w.WriteSample(sig) })
				b := vh.Spawn("w2", func() { w.WriteSample(sig) })
				a()
				b()
				c := vh.Spawn("c1", func() { w.Close() })
				d := vh.Spawn("c2", func() { w.Close() })
				c()
				d()
				if s.closed != 1 || s.late {
					vh.Fail("close", "closed %d times", s.closed)
				}
				if x := len(s.got) - worth(3*fr, p[0], p[1]); x > 2 || x < -2 {
					vh.Fail("duration", "3 frames became %d samples", len(s.got))
				}
			})
		}})
	}
	vh.Main(vh.Check{ID: "C12", Level: "model_checking",
		Rule:        "every bounded sequence of write sizes for every pair of rates on the real resampling writer; counts, progress and content compared with the one-shot result and the signal",
		Assumptions: []string{"linearity of the soxr filter: contents are compared on one two-tone signal and on constants"},
		Scenarios:   sc})
}
