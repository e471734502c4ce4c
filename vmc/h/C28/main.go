// C28: recording writers under every sequence of frame sizes and every failure of the file.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"slices"
	"time"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/opus"
	"github.com/livekit/media-sdk/vh"
	"github.com/livekit/media-sdk/webm"
)

var errFile, errClose = errors.New("disk full"), errors.New("close failed")

// how the file fails.
const (
	good      = iota
	atByte    // stores up to a byte, reports an error, stays broken
	atByteOne // the same, but only once
	atCall    // refuses one write whole, then works again
	shortCall // stores half of one write and reports no error
	badClose
	kinds
)

type disk struct {
	kind, at int
	calls    int
	data     []byte
	failed   bool
	closed   int
	late     bool // written after it was closed
}

func (d *disk) Write(p []byte) (int, error) {
	k := d.calls
	d.calls++
	if d.closed > 0 {
		d.late = true
	}
	switch d.kind {
	case atByte, atByteOne:
		if d.failed && d.kind == atByte {
			return 0, errFile
		}
		if !d.failed && len(d.data)+len(p) > d.at {
			n := d.at - len(d.data)
			d.data = append(d.data, p[:n]...)
			d.failed = true
			return n, errFile
		}
	case atCall:
		if k == d.at {
			d.failed = true
			return 0, errFile
		}
	case shortCall:
		if k == d.at && len(p) > 0 {
			n := len(p) / 2
			d.data = append(d.data, p[:n]...)
			d.failed = true
			return n, nil
		}
	}
	d.data = append(d.data, p...)
	return len(p), nil
}

func (d *disk) Close() error {
	d.closed++
	if d.kind == badClose {
		d.failed = true
		return errClose
	}
	return nil
}

// frame is an encoded frame of any size.
type frame []byte

func (f frame) Size() int { return len(f) }
func (f frame) CopyTo(dst []byte) (int, error) {
	if len(dst) < len(f) {
		return 0, io.ErrShortBuffer
	}
	return copy(dst, f), nil
}

// odd reports a larger size than it copies, or cannot be copied at all.
type odd struct {
	size int
	data []byte
	err  error
}

func (f odd) Size() int { return f.size }
func (f odd) CopyTo(dst []byte) (int, error) {
	if f.err != nil {
		return 0, f.err
	}
	if len(dst) < f.size {
		return 0, io.ErrShortBuffer
	}
	return copy(dst, f.data), nil
}

func pattern(k, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(k*37 + i*11 + i>>8)
	}
	return b
}

// store writes frames and closes; it reports whether anything failed, and how many were written.
func store[T msdk.Frame](w msdk.WriteCloser[T], n int, f func(k int) T, errs *[]error) {
	for k := 0; k < n; k++ {
		if err := w.WriteSample(f(k)); err != nil {
			*errs = append(*errs, err)
		}
	}
	if err := w.Close(); err != nil {
		*errs = append(*errs, err)
	}
}

func judge(d *disk, errs []error) (string, string) {
	if d.closed != 1 {
		return "closed", fmt.Sprintf("closed %d times", d.closed)
	}
	if d.late {
		return "closed", "written after the close"
	}
	if d.kind == badClose && len(errs) == 0 {
		return "unreported", "the close did not report it"
	}
	if !d.failed && len(errs) > 0 {
		return "error", fmt.Sprintf("good file, but %v", errs)
	}
	return "", ""
}

// raw runs one sequence of frame sizes against one failure.
func raw(r *vh.R, sizes []int, kind, at int) *disk {
	d := &disk{kind: kind, at: at}
	var errs []error
	var want []byte
	buf := make([]byte, 1<<14) // the caller reuses its buffer
	w := msdk.NewFileWriter[frame](d, 8000)
	store(w, len(sizes), func(k int) frame {
		b := pattern(k, sizes[k])
		want = append(want, b...)
		clear(buf)
		return frame(buf[:copy(buf, b)])
	}, &errs)
	r.Step(len(sizes) + 1)
	key, msg := judge(d, errs)
	if key == "" && (len(errs) == 0 || kind == badClose) && !bytes.Equal(d.data, want) {
		if key = "content"; d.failed {
			key = "unreported"
		}
		msg = fmt.Sprintf("stored %d bytes of %d, or others", len(d.data), len(want))
	}
	if key == "" && !bytes.HasPrefix(want, d.data) {
		key, msg = "prefix", fmt.Sprintf("stored %d bytes that are not the first of %d", len(d.data), len(want))
	}
	if key != "" {
		r.Fail(key, "frames of %v bytes, failure %d at %d: %s", sizes, kind, at, msg)
	}
	return d
}

var rawSizes = []int{0, 1, 320, 1000, 4095, 4096, 4097, 9000}

func rawFile(r *vh.R) {
	n := r.Pick(4, 5)
	for l := 0; l <= n; l++ {
		vh.Seqs(l, len(rawSizes), func(seq []int) bool {
			sizes := make([]int, l)
			total := 0
			for i, s := range seq {
				sizes[i] = rawSizes[s]
				total += rawSizes[s]
			}
			r.Case()
			d := raw(r, sizes, good, 0)
			calls := d.calls
			for c := 0; c < calls; c++ {
				r.Case()
				raw(r, sizes, atCall, c)
				raw(r, sizes, shortCall, c)
				r.Nontrivial(fmt.Sprint(seq, c))
			}
			for _, at := range []int{0, 1, 4095, 4096, 4097, total / 2, total - 1} {
				if at < total && at >= 0 {
					r.Case()
					raw(r, sizes, atByte, at)
					raw(r, sizes, atByteOne, at)
				}
			}
			raw(r, sizes, badClose, 0)
			r.State(fmt.Sprint(seq))
			return !r.Stop()
		})
	}
}

// rawBytes fails at every byte of some files.
func rawBytes(r *vh.R) {
	for _, sizes := range [][]int{{1}, {320, 320, 320}, {5000}, {4096, 1, 4096}, {160, 0, 3000, 1000, 4000, 7}, {4095, 2, 1}, {100, 8000, 100}} {
		total := 0
		for _, s := range sizes {
			total += s
		}
		for at := 0; at <= total && !r.Stop(); at++ {
			for _, k := range []int{atByte, atByteOne} {
				r.Case()
				raw(r, sizes, k, at)
			}
			r.State(fmt.Sprint(sizes, at))
			r.Nontrivial(fmt.Sprint(sizes, at))
		}
	}
}

// rawOdd mixes PCM frames and frames that cannot be copied.
func rawOdd(r *vh.R) {
	bad := errors.New("no copy")
	vh.Seqs(r.Pick(5, 7), 5, func(seq []int) bool {
		r.Case()
		d := &disk{}
		w := msdk.NewFileWriter[odd](d, 8000)
		var want []byte
		for k, o := range seq {
			f := odd{size: 10, data: pattern(k, 10)}
			switch o {
			case 1:
				f.size = 20
			case 2:
				f.err = bad
			case 3:
				f = odd{size: 300, data: pattern(k, 300)}
			case 4:
				f = odd{}
			}
			err := w.WriteSample(f)
			r.Step(1)
			if !errors.Is(err, f.err) || f.err == nil && err != nil {
				r.Fail("copy", "%v: frame %d: %v", seq, k, err)
			}
			if f.err == nil {
				want = append(want, f.data...)
			}
		}
		if err := w.Close(); err != nil || d.closed != 1 || !bytes.Equal(d.data, want) {
			r.Fail("content", "%v: %v, closed %d times, %d bytes of %d", seq, err, d.closed, len(d.data), len(want))
		}
		r.State(fmt.Sprint(seq))
		r.Nontrivial(fmt.Sprint(seq))
		return !r.Stop()
	})
}

// dumps checks that a dump holds what went to the writer, whatever the writer does.
func dumps(r *vh.R) {
	dir, err := os.MkdirTemp("", "verif-dump-")
	if err != nil {
		r.Fail("setup", "%v", err)
		return
	}
	defer os.RemoveAll(dir)
	bad := errors.New("sink")
	vh.Seqs(r.Pick(4, 6), 4, func(seq []int) bool {
		for _, fail := range []int{-1, 0, len(seq) - 1, len(seq)} {
			r.Case()
			s := &sink{fail: fail, err: bad}
			name := filepath.Join(dir, "x")
			w := msdk.DumpWriterPCM16(name, s)
			var want []byte
			for k, o := range seq {
				n := []int{0, 1, 160, 2049}[o]
				p := make(msdk.PCM16Sample, n)
				for i := range p {
					p[i] = int16(k*1000 + i*7)
					want = append(want, byte(p[i]), byte(uint16(p[i])>>8))
				}
				r.Step(1)
				if err := w.WriteSample(p); (err != nil) != (k == fail) || err != nil && !errors.Is(err, bad) {
					r.Fail("dump-error", "%v: frame %d: %v", seq, k, err)
				}
			}
			if err := w.Close(); (err != nil) != (fail == len(seq)) {
				r.Fail("dump-error", "%v: close: %v", seq, err)
			}
			got, err := os.ReadFile(name + "_ar8000.s16le")
			if err != nil || !bytes.Equal(got, want) || !bytes.Equal(s.got, want) || s.closed != 1 {
				r.Fail("dump", "%v: %v, dump of %d bytes, want %d; writer got %d bytes, closed %d times", seq, err, len(got), len(want), len(s.got), s.closed)
			}
		}
		r.State(fmt.Sprint(seq))
		r.Nontrivial(fmt.Sprint(seq))
		return !r.Stop()
	})
}

// codecs writes the frames of the codecs, sized exactly.
func codecFrames[T interface {
	~[]byte
	msdk.Frame
}](r *vh.R, name string) {
	for n := 0; n <= r.Pick(400, 1600); n++ {
		for film := range 2 {
			run := func() {
				d := &disk{}
				var errs []error
				var want []byte
				var w msdk.WriteCloser[T] = msdk.NewFileWriter[T](d, 8000)
				if film > 0 {
					w = webm.NewWriter[T](d, "A_X", 1, 8000, 20*time.Millisecond)
				}
				b := make([]byte, n)
				store(w, 3, func(k int) T {
					copy(b, pattern(k, n))
					want = append(want, b...)
					return T(b)
				}, &errs)
				got := d.data
				if film > 0 {
					f, err := parse(d.data)
					if err != nil {
						errs = append(errs, err)
					}
					got = nil
					for k, bl := range f.blocks {
						got = append(got, bl.data...)
						if bl.ms != int64(20*k) {
							vh.Fail("frames", "%s frames of %d bytes: frame %d at %d ms", name, n, k, bl.ms)
						}
					}
				}
				if len(errs) > 0 || d.closed != 1 || !bytes.Equal(got, want) {
					vh.Fail("frames", "%s frames of %d bytes: %v, closed %d times, %d bytes of %d", name, n, errs, d.closed, len(got), len(want))
				}
			}
			r.Explore(vh.Delay(0), run)
		}
		r.State(name, n)
		if r.Stop() {
			return
		}
	}
}

type sink struct {
	got    []byte
	n      int
	fail   int
	err    error
	closed int
}

func (s *sink) String() string  { return "sink" }
func (s *sink) SampleRate() int { return 8000 }
func (s *sink) WriteSample(p msdk.PCM16Sample) error {
	for _, v := range p {
		s.got = append(s.got, byte(v), byte(uint16(v)>>8))
	}
	s.n++
	if s.n-1 == s.fail {
		return s.err
	}
	return nil
}
func (s *sink) Close() error {
	s.closed++
	if s.n == s.fail {
		return s.err
	}
	return nil
}

// film runs one sequence of frame sizes through a WebM writer and judges the file.
func film(sizes []int, dur time.Duration, kind, at int) (d *disk, key, msg string) {
	d = &disk{kind: kind, at: at}
	var errs []error
	var w msdk.WriteCloser[frame]
	opened := func() (ok bool) {
		defer func() {
			if p := recover(); p != nil {
				if err, is := p.(error); !is || !d.failed || kind == badClose {
					key, msg = "panic", fmt.Sprint(p, err)
				}
			}
		}()
		w = webm.NewWriter[frame](d, "A_TEST", 2, 48000, dur)
		return true
	}()
	if !opened {
		return d, key, msg // without a writer there is nothing to close
	}
	buf := make([]byte, 1<<14)
	var frames [][]byte
	store(w, len(sizes), func(k int) frame {
		b := pattern(k, sizes[k])
		frames = append(frames, b)
		clear(buf)
		return frame(buf[:copy(buf, b)])
	}, &errs)
	clear(buf)
	if key, msg = judge(d, errs); key != "" {
		return d, key, msg
	}
	f, err := parse(d.data)
	if err != nil {
		return d, "format", err.Error()
	}
	whole := len(errs) == 0 || kind == badClose
	if whole && d.failed && (f.trunc || len(f.blocks) != len(frames)) {
		return d, "unreported", fmt.Sprintf("%d blocks for %d frames, but no error", len(f.blocks), len(frames))
	}
	if whole && (f.trunc || len(f.blocks) != len(frames)) || len(f.blocks) > len(frames) {
		return d, "blocks", fmt.Sprintf("%d blocks for %d frames", len(f.blocks), len(frames))
	}
	if f.cut != nil {
		if len(f.blocks) == len(frames) || !bytes.HasPrefix(frames[len(f.blocks)], f.cut) {
			return d, "prefix", fmt.Sprintf("the last, incomplete block holds other bytes")
		}
	}
	for k, b := range f.blocks {
		if !bytes.Equal(b.data, frames[k]) {
			return d, "content", fmt.Sprintf("block %d holds %d bytes of a frame of %d, or others", k, len(b.data), len(frames[k]))
		}
		if want, got := time.Duration(k)*dur, time.Duration(b.ms)*time.Millisecond; got-want > time.Millisecond || want-got > time.Millisecond {
			return d, "time", fmt.Sprintf("block %d is at %v, want %v", k, got, want)
		}
	}
	if whole && (f.codec != "A_TEST" || f.rate != 48000 || f.channels != 2 || f.scale != 1e6) {
		return d, "track", fmt.Sprintf("codec %q, rate %v, %d channels, unit %d ns", f.codec, f.rate, f.channels, f.scale)
	}
	return d, "", ""
}

var durs = []time.Duration{20 * time.Millisecond, 10 * time.Millisecond, 2500 * time.Microsecond, 22500 * time.Microsecond, 33333333, 999 * time.Microsecond, 100 * time.Microsecond, 12 * time.Second, 32767 * time.Millisecond, 40 * time.Second}
var filmSizes = []int{0, 1, 126, 127, 320, 5000}

func films(name string, q, t int, opt vh.Opt, sizes []int, fails []int, durs []time.Duration) vh.Scenario {
	return vh.Scenario{Name: name, Run: func(r *vh.R) {
		n := r.Pick(q, t)
		for _, dur := range durs {
			vh.Seqs(n, len(sizes), func(seq []int) bool {
				sz := make([]int, n)
				for i, s := range seq {
					sz[i] = sizes[s]
				}
				run := func(kind, at int) (d *disk) {
					r.Explore(opt, func() {
						var key, msg string
						if d, key, msg = film(sz, dur, kind, at); key != "" {
							vh.Fail(key, "frames of %v bytes lasting %v, failure %d at %d: %s", sz, dur, kind, at, msg)
						}
						vh.Note("%d", len(d.data))
					})
					return d
				}
				d := run(good, 0)
				r.State(fmt.Sprint(name, seq, dur))
				r.Nontrivial(fmt.Sprint(name, seq, dur))
				for _, k := range fails {
					last := 1
					if k == atCall || k == shortCall {
						last = d.calls
					}
					if k == atByte || k == atByteOne {
						last = len(d.data)
					}
					for at := 0; at < last && !r.Stop(); at++ {
						run(k, at)
					}
				}
				return !r.Stop()
			})
		}
	}}
}

// inter runs a short recording under every schedule within the bound; failures are spread over the file.
func inter(name string, n, kind, parts int, q, t vh.Opt) vh.Scenario {
	return vh.Scenario{Name: name, Race: true, Run: func(r *vh.R) {
		opt := q
		if r.Thorough() {
			opt = t
		}
		sizes := []int{3, 130, 1, 0}[:n]
		var d *disk
		r.Explore(vh.Delay(0), func() { d, _, _ = film(sizes, 20*time.Millisecond, good, 0) })
		all := len(d.data)
		if kind == shortCall {
			all = d.calls
		}
		for p := 0; p == 0 || p <= parts; p++ {
			at := all - 1
			if p < parts {
				at = all * (p + 1) / (parts + 1)
			}
			r.Explore(opt, func() {
				d, key, msg := film(sizes, 20*time.Millisecond, kind, at)
				if key != "" {
					vh.Fail(key, "frames of %v bytes, failure %d at %d: %s", sizes, kind, at, msg)
				}
				vh.Note("%d", len(d.data))
			})
			r.Nontrivial(name, p)
		}
	}}
}

// long runs a recording over several clusters.
func long(r *vh.R) {
	for _, dur := range durs {
		sizes := make([]int, r.Pick(2000, 8000))
		for i := range sizes {
			sizes[i] = i % 7
		}
		r.Explore(vh.Opt{Delay: true, MaxSteps: 1 << 20}, func() {
			if _, key, msg := film(sizes, dur, good, 0); key != "" {
				vh.Fail(key, "%d frames lasting %v: %s", len(sizes), dur, msg)
			}
		})
		r.State(dur)
		r.Nontrivial(dur)
	}
}

// kindsOf checks the PCM and Opus flavours.
func flavours(r *vh.R) {
	for _, rate := range []int{8000, 48000} {
		for ch := 1; ch <= 2; ch++ {
			for kind := range 2 {
				r.Explore(vh.Delay(0), func() {
					d := &disk{}
					var want [][]byte
					var errs []error
					codec := "A_PCM/INT/LIT"
					if kind == 0 {
						w := webm.NewPCM16Writer(d, rate, ch, 20*time.Millisecond)
						p := make(msdk.PCM16Sample, rate/50*ch)
						store(w, 3, func(k int) msdk.PCM16Sample {
							var b []byte
							for i := range p {
								p[i] = int16(i*1000 + k)
								b = append(b, byte(p[i]), byte(uint16(p[i])>>8))
							}
							want = append(want, b)
							return p
						}, &errs)
					} else {
						codec = "A_OPUS"
						w := opus.NewWebmWriter(d, rate, ch, 20*time.Millisecond)
						store(w, 3, func(k int) opus.Sample {
							want = append(want, pattern(k, 40+k))
							return opus.Sample(slices.Clone(want[k]))
						}, &errs)
					}
					f, err := parse(d.data)
					ok := err == nil && len(errs) == 0 && d.closed == 1 && len(f.blocks) == 3 && f.codec == codec && f.rate == float64(rate) && int(f.channels) == ch && f.dur == 20e6
					for k := 0; ok && k < 3; k++ {
						ok = bytes.Equal(f.blocks[k].data, want[k]) && f.blocks[k].ms == int64(20*k)
					}
					if !ok {
						vh.Fail("flavour", "rate %d, %d channels, %s: %v, %v, closed %d times", rate, ch, codec, err, errs, d.closed)
					}
				})
				r.Nontrivial(rate, ch, kind)
				r.State(rate, ch, kind)
			}
		}
	}
}

func main() {
	some := []time.Duration{20 * time.Millisecond}
	vh.Main(vh.Check{ID: "C28", Level: "model_checking",
		Rule: "every sequence of up to 4 frames (thorough: 5) out of 8 sizes with every failing write, and every failing byte of some files; WebM: every sequence of 4 (thorough: 5) sizes with ten durations, every failing byte and write of recordings of 2 and 4 frames (thorough: 4 and 5), all schedules of its goroutines that deviate from a fixed one up to 3 times (thorough: 4-5)",
		Scenarios: []vh.Scenario{
			{Name: "raw", Run: rawFile},
			{Name: "raw-bytes", Run: rawBytes},
			{Name: "raw-odd", Run: rawOdd},
			{Name: "codec-frames", Run: func(r *vh.R) {
				codecFrames[g711.ULawSample](r, "u-law")
				codecFrames[g711.ALawSample](r, "A-law")
				codecFrames[g722.Sample](r, "G.722")
				codecFrames[opus.Sample](r, "Opus")
			}},
			{Name: "dump", Run: dumps},
			films("webm", 4, 5, vh.Delay(0), filmSizes, nil, durs),
			films("webm-close", 3, 5, vh.Delay(0), filmSizes, []int{badClose}, some),
			films("webm-fail-bytes", 2, 4, vh.Delay(0), []int{0, 3, 130}, []int{atByte, atByteOne}, some),
			films("webm-fail-calls", 4, 5, vh.Delay(0), []int{0, 3, 130}, []int{atCall, shortCall}, some),
			inter("webm-schedules-good", 2, good, 0, vh.Opt{Delay: true, Bound: 3}, vh.Opt{Delay: true, Bound: 5}),
			inter("webm-schedules-fail", 2, atByte, 3, vh.Opt{Delay: true, Bound: 3}, vh.Opt{Delay: true, Bound: 4}),
			inter("webm-schedules-short", 2, shortCall, 2, vh.Opt{Delay: true, Bound: 3}, vh.Opt{Delay: true, Bound: 4}),
			{Name: "webm-long", Run: long},
			{Name: "webm-flavours", Run: flavours},
		}})
}
