// C34: chains of writers carry audio, errors and closing, and do not influence each other.
package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/livekit/protocol/logger"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/opus"
	"github.com/livekit/media-sdk/vh"
)

var (
	errSink  = errors.New("sink refuses")
	errClose = errors.New("sink does not close")
)

// sink ends a chain.
type sink struct {
	rate     int
	frames   []msdk.PCM16Sample
	calls    int
	failAt   int // the call that is refused, from 1
	closeErr error
	closed   int
	late     int // writes after the close
	failed   bool
	closing  bool // the chain is being closed
	inClose  bool // the refused call was made while closing
}

func (s *sink) String() string  { return "sink" }
func (s *sink) SampleRate() int { return s.rate }
func (s *sink) Close() error    { s.closed++; return s.closeErr }
func (s *sink) WriteSample(f msdk.PCM16Sample) error {
	s.calls++
	if s.closed > 0 {
		s.late++
	}
	if s.calls == s.failAt {
		s.failed, s.inClose = true, s.closing
		return errSink
	}
	s.frames = append(s.frames, slices.Clone(f))
	return nil
}

// link is a writer put in front of another.
type link struct {
	name  string
	exact bool // hands on the samples as they are
	wrap  func(e *env, w msdk.PCM16Writer) msdk.PCM16Writer
}

// env is what belongs to a chain besides its sink.
type env struct {
	sides []*sink
	dumps []string
	dir   string
}

func resample(w msdk.PCM16Writer) msdk.PCM16Writer {
	if w.SampleRate() == 8000 {
		return msdk.ResampleWriter(w, 16000)
	}
	return msdk.ResampleWriter(w, 8000)
}

var links = []link{
	{"full-7", true, func(e *env, w msdk.PCM16Writer) msdk.PCM16Writer { return msdk.FullFrames(w, 7) }},
	{"full-160", true, func(e *env, w msdk.PCM16Writer) msdk.PCM16Writer { return msdk.FullFrames(w, 160) }},
	{"multi", true, func(e *env, w msdk.PCM16Writer) msdk.PCM16Writer {
		s := &sink{rate: w.SampleRate()}
		e.sides = append(e.sides, s)
		return msdk.MultiWriter[msdk.PCM16Sample]{w, s}
	}},
	{"switch", true, func(e *env, w msdk.PCM16Writer) msdk.PCM16Writer {
		s := msdk.NewSwitchWriter(w.SampleRate())
		s.Swap(w)
		return s
	}},
	{"ulaw", false, func(e *env, w msdk.PCM16Writer) msdk.PCM16Writer { return g711.EncodeULaw(g711.DecodeULaw(w)) }},
	{"alaw", false, func(e *env, w msdk.PCM16Writer) msdk.PCM16Writer { return g711.EncodeALaw(g711.DecodeALaw(w)) }},
	{"g722", false, func(e *env, w msdk.PCM16Writer) msdk.PCM16Writer { return g722.Encode(g722.Decode(w)) }},
	{"resample", false, func(e *env, w msdk.PCM16Writer) msdk.PCM16Writer { return resample(w) }},
	{"switch-resample", false, func(e *env, w msdk.PCM16Writer) msdk.PCM16Writer {
		s := msdk.NewSwitchWriter(24000 - w.SampleRate())
		s.Swap(w)
		return s
	}},
}

// dump is a link only in its own scenario: it makes a file.
var dump = link{"dump", true, func(e *env, w msdk.PCM16Writer) msdk.PCM16Writer {
	n := filepath.Join(e.dir, fmt.Sprintf("d%d", len(e.dumps)))
	e.dumps = append(e.dumps, fmt.Sprintf("%s_ar%d.s16le", n, w.SampleRate()))
	return msdk.DumpWriterPCM16(n, w)
}}

func names(ls []link) string {
	var s []string
	for _, l := range ls {
		s = append(s, l.name)
	}
	return strings.Join(s, " -> ") + " -> sink"
}

// chain is a writer for the given links, the first of them outermost.
func chain(e *env, ls []link, s *sink) msdk.PCM16Writer {
	w := msdk.PCM16Writer(s)
	for i := len(ls) - 1; i >= 0; i-- {
		w = ls[i].wrap(e, w)
	}
	return w
}

// input i of a stream: audio that differs everywhere.
func input(stream, i, n int) msdk.PCM16Sample {
	f := make(msdk.PCM16Sample, n)
	for k := range f {
		x := i*1000 + k
		f[k] = int16((x*x*7+x*131+stream*977)%24001 - 12000)
	}
	return f
}

// run writes the frames to a chain and closes it, the caller's memory used again after each call.
func run(w msdk.PCM16Writer, s *sink, frames []msdk.PCM16Sample) (errs []error) {
	var buf msdk.PCM16Sample
	for _, f := range frames {
		buf = append(buf[:0], f...)
		errs = append(errs, w.WriteSample(buf))
		if !slices.Equal(buf, f) {
			panic("the caller's samples were changed")
		}
		for k := range buf {
			buf[k] = 0x5a5a
		}
	}
	s.closing = true
	errs = append(errs, w.Close())
	return errs
}

// staged runs every link on its own, on what the one before it handed on.
func staged(e *env, ls []link, rates []int, frames []msdk.PCM16Sample) []msdk.PCM16Sample {
	for i, l := range ls {
		s := &sink{rate: rates[i+1]}
		run(l.wrap(e, s), s, frames)
		frames = s.frames
	}
	return frames
}

// rates at the entry of every link and at the sink.
func rates(ls []link, at int) []int {
	r := []int{at}
	for i := len(ls) - 1; i >= 0; i-- {
		switch n := ls[i].name; {
		case strings.HasSuffix(n, "resample"):
			at = 24000 - at
		case strings.HasSuffix(n, "law"):
			at = 8000
		}
		r = append([]int{at}, r...)
	}
	return r
}

// tolerance is how much the output of two equal chains on the same input may differ: resamplers dither at random.
func tolerance(ls []link, at int) int {
	rt := rates(ls, at)
	if i := slices.IndexFunc(rt, func(r int) bool { return r != at }); i < 0 {
		return 0
	}
	switch {
	case has(ls, "g722"):
		return 4000
	case has(ls, "law"):
		return 1100
	}
	return 4
}

// same tells whether two outputs agree within the tolerance. Where coders make more of it, a few samples may not.
func same(a, b []msdk.PCM16Sample, tol int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for k := range a[i] {
			if d := int(a[i][k]) - int(b[i][k]); d > tol || d < -tol {
				return false
			}
		}
	}
	return true
}

func sizes(f []msdk.PCM16Sample) (n []int) {
	for _, f := range f {
		n = append(n, len(f))
	}
	return n
}

func chains(kinds []link, depth int, f func(ls []link) bool) {
	for d := 0; d <= depth; d++ {
		dims := make([]int, d)
		for i := range dims {
			dims[i] = len(kinds)
		}
		stop := false
		vh.Prod(dims, func(x []int) bool {
			ls := make([]link, d)
			for i, k := range x {
				ls[i] = kinds[k]
			}
			stop = !f(ls)
			return !stop
		})
		if stop {
			return
		}
	}
}

func has(ls []link, suffix string) bool {
	return slices.ContainsFunc(ls, func(l link) bool { return strings.HasSuffix(l.name, suffix) })
}

func main() {
	var sc []vh.Scenario
	for _, rate := range []int{8000, 16000} {
		sc = append(sc, vh.Scenario{Name: fmt.Sprintf("pass-%d", rate), Run: func(r *vh.R) {
			szs := []int{1, 80, 160, 321, 0}
			chains(links, r.Pick(3, 4), func(ls []link) bool {
				rt := rates(ls, rate)
				switch {
				case !r.Thorough() && len(ls) == 3:
					szs = []int{1, 80, 160, 321}
				case len(ls) == 4:
					szs = []int{1, 160, 321}
				}
				vh.Prod([]int{len(szs), len(szs), len(szs)}, func(x []int) bool {
					var in []msdk.PCM16Sample
					var all msdk.PCM16Sample
					for i, k := range x {
						in = append(in, input(1, i, szs[k]))
						all = append(all, in[i]...)
					}
					what := fmt.Sprintf("%s at %d Hz, writes of %v", names(ls), rate, sizes(in))
					r.Case()
					r.Step(4)
					r.Guard("panic", what, func() {
						e, s := &env{}, &sink{rate: rate}
						w := chain(e, ls, s)
						if w.SampleRate() != rt[0] {
							r.Fail("rate", "%s: the chain takes %d Hz, want %d", what, w.SampleRate(), rt[0])
						}
						for i, err := range run(w, s, in) {
							if err != nil {
								r.Fail("error", "%s: call %d: %v", what, i, err)
							}
						}
						if s.closed != 1 || s.late != 0 {
							r.Fail("close", "%s: sink closed %d times, %d writes after", what, s.closed, s.late)
						}
						for _, d := range e.sides {
							if d.closed != 1 {
								r.Fail("close", "%s: side closed %d times", what, d.closed)
							}
						}
						if want := staged(&env{}, ls, rt, in); !same(s.frames, want, tolerance(ls, rate)) {
							r.Fail("content", "%s: %v, one after the other %v", what, sizes(s.frames), sizes(want))
						}
						if !slices.ContainsFunc(ls, func(l link) bool { return !l.exact }) {
							if got := slices.Concat(s.frames...); !slices.Equal(got, all) {
								r.Fail("samples", "%s: %d samples became %d", what, len(all), len(got))
							}
						}
						r.State(what)
						r.Nontrivial(what)
					})
					return !r.Stop()
				})
				return !r.Stop()
			})
		}})
	}
	sc = append(sc, vh.Scenario{Name: "errors", Run: func(r *vh.R) {
		for _, rate := range []int{8000, 16000} {
			for _, sz := range [][]int{{160, 160, 160}, {321, 1, 80}, {7, 640}} {
				var in []msdk.PCM16Sample
				for i, n := range sz {
					in = append(in, input(2, i, n))
				}
				chains(links, 3, func(ls []link) bool {
					clean := &sink{rate: rate}
					run(chain(&env{}, ls, clean), clean, in)
					step := 1
					if len(clean.frames) > 12 {
						step = r.Pick(len(clean.frames)/6, 3)
					}
					tol := tolerance(ls, rate)
					for at := 0; at <= len(clean.frames); at += step {
						for _, ce := range []error{nil, errClose} {
							what := fmt.Sprintf("%s at %d Hz, writes of %v, write %d refused, close: %v", names(ls), rate, sz, at, ce)
							r.Case()
							r.Step(len(in) + 1)
							r.Guard("panic", what, func() {
								e, s := &env{}, &sink{rate: rate, failAt: at, closeErr: ce}
								errs := run(chain(e, ls, s), s, in)
								if s.closed != 1 || s.late != 0 {
									r.Fail("close", "%s: sink closed %d times, %d writes after", what, s.closed, s.late)
								}
								all := errors.Join(errs...)
								// a resampler may keep to itself that its tail was refused
								if s.failed && !errors.Is(all, errSink) && !(s.inClose && tol > 0) && !(s.inClose && ce != nil) {
									r.Fail("unreported", "%s: %v", what, errs)
								}
								if ce != nil && !errors.Is(errs[len(errs)-1], errClose) {
									r.Fail("unreported-close", "%s: %v", what, errs)
								}
								if !s.failed && ce == nil && all != nil {
									r.Fail("false-error", "%s: %v", what, errs)
								}
								if at > 0 && (len(s.frames) < at-1 || !same(s.frames[:at-1], clean.frames[:at-1], tol)) {
									r.Fail("before", "%s: what preceded it changed", what)
								}
								r.State(what)
								r.Nontrivial(what)
							})
							if r.Stop() {
								return false
							}
						}
					}
					return true
				})
			}
		}
	}})
	// two chains used in turns
	sc = append(sc, vh.Scenario{Name: "apart", Run: func(r *vh.R) {
		n := r.Pick(3, 4)
		szs := [2][]int{{160, 321, 80, 160}, {200, 160, 7, 320}}
		var orders [][]int
		vh.Seqs(2*n, 2, func(x []int) bool {
			ones := 0
			for _, v := range x {
				ones += v
			}
			if ones == n {
				orders = append(orders, slices.Clone(x))
			}
			return true
		})
		var list [][]link
		chains(links, r.Pick(1, 2), func(ls []link) bool { list = append(list, ls); return true })
		if !r.Thorough() {
			for _, l := range links {
				list = append(list, []link{l, links[6]}, []link{links[7], l})
			}
		}
		var alone [2][][]msdk.PCM16Sample
		for k := range 2 {
			for _, ls := range list {
				var in []msdk.PCM16Sample
				for i := range n {
					in = append(in, input(k, i, szs[k][i]))
				}
				s := &sink{rate: 8000}
				run(chain(&env{}, ls, s), s, in)
				alone[k] = append(alone[k], s.frames)
			}
		}
		for a, la := range list {
			for b, lb := range list {
				for _, o := range orders {
					what := fmt.Sprintf("%s, and %s, in order %v", names(la), names(lb), o)
					r.Case()
					r.Step(2 * n)
					r.Guard("panic", what, func() {
						var w [2]msdk.PCM16Writer
						var s [2]*sink
						for k, ls := range [][]link{la, lb} {
							s[k] = &sink{rate: 8000}
							w[k] = chain(&env{}, ls, s[k])
						}
						var at [2]int
						for _, k := range o {
							if err := w[k].WriteSample(input(k, at[k], szs[k][at[k]])); err != nil {
								r.Fail("error", "%s: %v", what, err)
							}
							at[k]++
							if at[k] == n {
								if err := w[k].Close(); err != nil {
									r.Fail("error", "%s: %v", what, err)
								}
							}
						}
						for k, want := range [][]msdk.PCM16Sample{alone[0][a], alone[1][b]} {
							if !same(s[k].frames, want, tolerance([][]link{la, lb}[k], 8000)) {
								r.Fail("influence", "%s: chain %d does not hand on what it does alone", what, k)
							}
						}
						r.State(what)
						r.Nontrivial(what)
					})
					if r.Stop() {
						return
					}
				}
			}
		}
	}})
	// encoders and decoders of Opus used in turns
	sc = append(sc, vh.Scenario{Name: "apart-opus", Run: func(r *vh.R) {
		n := r.Pick(4, 6)
		open := func(s *sink, ch int) msdk.PCM16Writer {
			d, err := opus.Decode(s, ch, logger.GetLogger())
			if err != nil {
				panic(err)
			}
			e, err := opus.Encode(d, ch, logger.GetLogger())
			if err != nil {
				panic(err)
			}
			return e
		}
		for _, ch := range [][2]int{{1, 1}, {1, 2}, {2, 1}, {2, 2}} {
			var alone [2]*sink
			for k := range 2 {
				alone[k] = &sink{rate: 48000}
				var in []msdk.PCM16Sample
				for i := range n {
					in = append(in, input(k, i, 960*ch[k]))
				}
				run(open(alone[k], ch[k]), alone[k], in)
			}
			vh.Seqs(2*n, 2, func(x []int) bool {
				ones := 0
				for _, v := range x {
					ones += v
				}
				if ones != n {
					return true
				}
				what := fmt.Sprintf("Opus with %v channels, in order %v", ch, x)
				r.Case()
				r.Step(2 * n)
				r.Guard("panic", what, func() {
					var w [2]msdk.PCM16Writer
					var s [2]*sink
					for k := range 2 {
						s[k] = &sink{rate: 48000}
						w[k] = open(s[k], ch[k])
					}
					var at [2]int
					for _, k := range x {
						if err := w[k].WriteSample(input(k, at[k], 960*ch[k])); err != nil {
							r.Fail("error", "%s: %v", what, err)
						}
						if at[k]++; at[k] == n {
							w[k].Close()
						}
					}
					for k := range 2 {
						if !same(s[k].frames, alone[k].frames, 0) {
							r.Fail("influence", "%s: coder %d does not hand on what it does alone", what, k)
						}
					}
					r.State(what)
					r.Nontrivial(what)
				})
				return !r.Stop()
			})
		}
	}})
	sc = append(sc, vh.Scenario{Name: "dump", Run: func(r *vh.R) {
		dir, err := os.MkdirTemp("", "c34-")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		kinds := append([]link{dump}, links...)
		chains(kinds, r.Pick(2, 3), func(ls []link) bool {
			if !has(ls, "dump") {
				return true
			}
			for _, sz := range [][]int{{}, {160, 160}, {1, 5000, 80}, {321, 7}} {
				for _, fail := range []int{0, 1} {
					var in []msdk.PCM16Sample
					for i, n := range sz {
						in = append(in, input(3, i, n))
					}
					what := fmt.Sprintf("%s, writes of %v, write %d refused", names(ls), sz, fail)
					r.Case()
					r.Step(len(in) + 1)
					r.Guard("panic", what, func() {
						e, s := &env{dir: dir}, &sink{rate: 8000, failAt: fail}
						w := chain(e, ls, s)
						run(w, s, in)
						if s.closed != 1 || s.late != 0 {
							r.Fail("close", "%s: sink closed %d times, %d writes after", what, s.closed, s.late)
						}
						// what each of them saw
						rt := rates(ls, 8000)
						n := 0
						for i := len(ls) - 1; i >= 0; i-- {
							if ls[i].name != "dump" {
								continue
							}
							data, err := os.ReadFile(e.dumps[n])
							n++
							if err != nil {
								r.Fail("dump", "%s: %v", what, err)
								continue
							}
							// what precedes a dump does not mind that something is refused, unless it cuts frames
							if fail > 0 && has(ls[:i], "full-7") || fail > 0 && has(ls[:i], "full-160") {
								continue
							}
							want := slices.Concat(staged(&env{dir: dir}, ls[:i], rt, in)...)
							if len(data) != 2*len(want) {
								r.Fail("dump", "%s: %d samples in the dump, want %d", what, len(data)/2, len(want))
								continue
							}
							for k, v := range want {
								if d := int(int16(binary.LittleEndian.Uint16(data[2*k:]))) - int(v); max(d, -d) > tolerance(ls[:i], rt[i]) {
									r.Fail("dump", "%s: sample %d of the dump is wrong", what, k)
									break
								}
							}
						}
						if n != len(e.dumps) {
							r.Fail("dump", "%s: %d dumps", what, n)
						}
						r.State(what)
						r.Nontrivial(what)
					})
					if r.Stop() {
						return false
					}
				}
			}
			return true
		})
	}})
	// two chains used at the same time
	sc = append(sc, vh.Scenario{Name: "concurrent", Race: true, Run: func(r *vh.R) {
		for a, la := range links {
			for b, lb := range links {
				if b < a {
					continue
				}
				var want [2][]msdk.PCM16Sample
				ins := [2][]msdk.PCM16Sample{{input(0, 0, 160), input(0, 1, 321)}, {input(1, 0, 320), input(1, 1, 8)}}
				kinds := [2]link{la, lb}
				for k := range 2 {
					s := &sink{rate: 8000}
					run(chain(&env{}, []link{kinds[k]}, s), s, ins[k])
					want[k] = s.frames
				}
				r.Explore(vh.Delay(r.Pick(1, 2)), func() {
					var s [2]*sink
					var join []func()
					for k := range 2 {
						s[k] = &sink{rate: 8000}
						join = append(join, vh.Spawn(kinds[k].name, func() {
							run(chain(&env{}, []link{kinds[k]}, s[k]), s[k], ins[k])
						}))
					}
					for k := range 2 {
						join[k]()
						if !same(s[k].frames, want[k], tolerance([]link{kinds[k]}, 8000)) {
							vh.Fail("influence", "%s and %s at the same time: chain %d does not hand on what it does alone", la.name, lb.name, k)
						}
					}
				})
			}
		}
	}})
	vh.Main(vh.Check{ID: "C34", Level: "model_checking",
		Rule:        "every chain of up to three writers of nine kinds, every sequence of write sizes from a list, every refused write and close; every pair of chains in every order of their writes; dumps in every place of a chain; schedules of two chains at the same time, with the race detector",
		Assumptions: []string{"a resampler may keep to itself that the sink refused its tail at closing"},
		Scenarios:   sc})
}
