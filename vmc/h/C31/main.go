// C31: PCM conversions over every value, and PCM buffers and multi-writers over every bounded history.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"slices"
	"time"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/vh"
	"github.com/pion/webrtc/v4/pkg/media"
)

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return false
}

type pcm = msdk.PCM16Sample

const guard = 0x5a5a

// guarded returns a buffer of n samples inside a larger one, and a function telling whether the rest is intact.
func guarded(n int) (pcm, func() bool) {
	b := make(pcm, n+8)
	for i := range b {
		b[i] = guard
	}
	return b[4 : 4+n : 4+n], func() bool {
		for _, v := range append(slices.Clone(b[:4]), b[4+n:]...) {
			if v != guard {
				return false
			}
		}
		return true
	}
}

// average judges one stereo pair.
func average(l, r, m int) bool {
	d := l + r - 2*m
	return d >= -1 && d <= 1
}

func stereo(part int) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("stereo-%d", part), Run: func(r *vh.R) {
		src, dst := make(pcm, 2<<16), make(pcm, 1<<16)
		for i := range dst {
			src[2*i+1] = int16(i)
		}
		for k := part; k < 1<<16 && !r.Stop(); k += 8 {
			l := int(int16(k))
			for i := range dst {
				src[2*i] = int16(l)
			}
			msdk.StereoToMono(dst, src)
			for i, m := range dst {
				if !average(l, int(int16(i)), int(m)) {
					r.Fail("average", "%d and %d average to %d", l, int16(i), m)
					break
				}
			}
			r.Step(1 << 16)
			r.Case()
			r.State(k)
			r.Nontrivial(k)
		}
	}}
}

var edge = []int16{0, 1, -1, 2, 3, 255, 256, -256, 30000, -30000, 32766, 32767, -32767, -32768}

func shapes(r *vh.R) {
	// sizes, odd lengths, too small destinations, in place
	for n := 0; n <= 9; n++ {
		for extra := -3; extra <= 3; extra++ {
			for e := range edge {
				src := make(pcm, n)
				for i := range src {
					src[i] = edge[(i*5+e)%len(edge)]
				}
				keep := slices.Clone(src)
				r.Case()
				r.Step(2)
				r.State(n, extra, e)
				r.Nontrivial(n, extra, e)
				if size := 2*n + extra; size >= 0 {
					dst, ok := guarded(size)
					p := panics(func() { msdk.MonoToStereo(dst, src) })
					if p != (extra < 0) || !ok() || !slices.Equal(src, keep) {
						r.Fail("mono-to-stereo", "%v to a buffer of %d: panic %v, around intact %v, source %v", keep, size, p, ok(), src)
					}
					for i := 0; i < size && !p; i++ {
						if i < 2*n && dst[i] != keep[i/2] || i >= 2*n && dst[i] != guard {
							r.Fail("mono-to-stereo", "%v to a buffer of %d gives %v", keep, size, dst)
							break
						}
					}
				}
				if size := n/2 + extra; size >= 0 {
					dst, ok := guarded(size)
					p := panics(func() { msdk.StereoToMono(dst, src) })
					if p != (extra < 0) || !ok() || !slices.Equal(src, keep) {
						r.Fail("stereo-to-mono", "%v to a buffer of %d: panic %v, around intact %v, source %v", keep, size, p, ok(), src)
					}
					for i := 0; i < size && !p; i++ {
						if i < n/2 && !average(int(keep[2*i]), int(keep[2*i+1]), int(dst[i])) || i >= n/2 && dst[i] != guard {
							r.Fail("stereo-to-mono", "%v to a buffer of %d gives %v", keep, size, dst)
							break
						}
					}
				}
				// in place: the destination begins where the source does, and is as long or shorter
				for size := n / 2; size <= n; size++ {
					buf, ok := guarded(n)
					copy(buf, keep)
					if panics(func() { msdk.StereoToMono(buf[:size], buf) }) || !ok() {
						r.Fail("in-place", "%v in place: panic or wrote outside", keep)
						break
					}
					for i := 0; i < n; i++ {
						if i < n/2 && !average(int(keep[2*i]), int(keep[2*i+1]), int(buf[i])) || i >= n/2 && buf[i] != keep[i] {
							r.Fail("in-place", "%v in place gives %v", keep, buf)
							break
						}
					}
				}
			}
		}
	}
}

func bytesOf(r *vh.R) {
	all := make(pcm, 1<<16)
	for i := range all {
		all[i] = int16(i)
	}
	r.Case()
	out := make([]byte, 2<<16)
	if n, err := all.CopyTo(out); n != 2<<16 || err != nil || all.Size() != 2<<16 {
		r.Fail("bytes", "65536 samples copied to %d bytes, %v; size %d", n, err, all.Size())
	}
	for i := range all {
		if out[2*i] != byte(i) || out[2*i+1] != byte(i>>8) {
			r.Fail("bytes", "%d became % x", all[i], out[2*i:2*i+2])
			break
		}
		r.Step(1)
	}
	for n := 0; n <= 6; n++ {
		for size := 0; size <= 16; size++ {
			for cp := size; cp <= size+8; cp += 8 {
				r.Case()
				r.Step(1)
				r.State(n, size, cp)
				buf := bytes.Repeat([]byte{0xee}, 32)
				src := pcm(edge[:n])
				c, err := src.CopyTo(buf[8 : 8+size : 8+cp])
				want := bytes.Repeat([]byte{0xee}, 32)
				if size >= 2*n {
					for i, v := range src {
						want[8+2*i], want[9+2*i] = byte(v), byte(uint16(v)>>8)
					}
					if c != 2*n || err != nil {
						r.Fail("bytes", "%v to %d bytes: %d, %v", src, size, c, err)
					}
				} else if c != 0 || !errors.Is(err, io.ErrShortBuffer) {
					r.Fail("short", "%v to %d bytes: %d, %v", src, size, c, err)
				}
				if !bytes.Equal(buf, want) {
					r.Fail("bytes", "%v to %d bytes gives % x", src, size, buf)
				}
				if src.Size() != 2*n {
					r.Fail("bytes", "%v has size %d", src, src.Size())
				}
				r.Nontrivial(n, size, cp)
			}
		}
		buf, ok := guarded(n)
		buf.Clear()
		for _, v := range buf {
			if v != 0 {
				r.Fail("clear", "%v after clearing", buf)
			}
		}
		if !ok() {
			r.Fail("clear", "clearing %d samples touched others", n)
		}
	}
	pcm(nil).Clear()
}

// buffers runs every sequence of writes of small sizes, closes and changes of the caller's buffer.
func buffers(r *vh.R, kind string, n int) {
	ops := []string{"w0", "w1", "w2", "w3", "scribble", "close"}
	for _, pre := range []int{-1, 0, 2} {
		vh.Seqs(n, len(ops), func(seq []int) bool {
			r.Case()
			var buf pcm
			var frames []pcm
			var want pcm
			var wantFrames []pcm
			if pre >= 0 {
				buf = make(pcm, 0, 8)
				for i := 0; i < pre; i++ {
					buf = append(buf, 70)
					want = append(want, 70)
					frames = append(frames, pcm{70})
					wantFrames = append(wantFrames, pcm{70})
				}
			}
			var w msdk.PCM16Writer
			rate := 16000
			switch kind {
			case "frames":
				w = msdk.NewPCM16FrameWriter(&frames, rate)
			case "buffer":
				w = msdk.NewPCM16BufferWriter(&buf, rate)
			}
			mine := make(pcm, 0, 8)
			next := int16(1)
			closed := false
			var hist []string
			for _, o := range seq {
				hist = append(hist, ops[o])
				r.Step(1)
				var err error
				switch ops[o] {
				case "scribble":
					for i := range mine[:cap(mine)] {
						mine[:cap(mine)][i] = -9
					}
				case "close":
					if kind == "frames" {
						err = w.Close() // what a frame writer does after its close is left open
						closed = true
					} else if kind == "buffer" {
						err = w.Close()
						closed = true
					} else {
						err = buf.Close()
					}
				default:
					mine = mine[:0]
					for i := 0; i < o; i++ {
						mine = append(mine, next)
						next++
					}
					if closed && kind == "frames" {
						continue
					}
					if kind == "sample" {
						err = buf.WriteSample(mine)
					} else {
						err = w.WriteSample(mine)
					}
					if !closed {
						want = append(want, mine...)
						wantFrames = append(wantFrames, slices.Clone(mine))
					}
				}
				good := slices.Equal(buf, want)
				if kind == "frames" {
					good = slices.EqualFunc(frames, wantFrames, slices.Equal[pcm])
				}
				if err != nil || !good {
					r.Fail(kind, "%d before, %v: %v; holds %v %v, want %v", pre, hist, err, buf, frames, want)
					return !r.Stop()
				}
			}
			if w != nil && w.SampleRate() != rate {
				r.Fail("rate", "%s has rate %d", kind, w.SampleRate())
			}
			r.State(kind, fmt.Sprint(pre, seq))
			r.Nontrivial(kind, fmt.Sprint(pre, seq))
			return !r.Stop()
		})
	}
}

// reader reads every length in every sequence of sizes.
func reader(r *vh.R, n int) {
	for l := 0; l <= 7; l++ {
		vh.Seqs(n, 4, func(seq []int) bool {
			r.Case()
			src := make(pcm, l)
			for i := range src {
				src[i] = int16(i + 1)
			}
			keep := slices.Clone(src)
			rd := msdk.NewPCM16BufferReader(src)
			pos := 0
			for _, s := range seq {
				r.Step(1)
				buf, ok := guarded(s)
				c, err := rd.ReadSample(buf)
				want := min(s, l-pos)
				if c != want || err != nil && want > 0 || err != nil && !errors.Is(err, io.EOF) || !ok() || !slices.Equal(buf[:want], keep[pos:pos+want]) {
					r.Fail("reader", "%v of %d: read %d, %v: %v, want %v", seq, l, c, err, buf, keep[pos:pos+want])
					return !r.Stop()
				}
				for i := want; i < s; i++ {
					if buf[i] != guard {
						r.Fail("reader", "%v of %d: the rest of the caller's buffer was written: %v", seq, l, buf)
						return !r.Stop()
					}
				}
				pos += want
				for i := range buf {
					buf[i] = -1 // the caller's buffer is the caller's
				}
			}
			if !slices.Equal(src, keep) {
				r.Fail("reader", "the source changed to %v", src)
			}
			r.State(l, fmt.Sprint(seq))
			r.Nontrivial(l, fmt.Sprint(seq))
			return !r.Stop()
		})
	}
}

type sink struct {
	rate        int
	got         [][]int16
	closed      int
	bad, badEnd bool
	errW, errC  error
}

func (s *sink) String() string  { return "sink" }
func (s *sink) SampleRate() int { return s.rate }
func (s *sink) WriteSample(b pcm) error {
	s.got = append(s.got, slices.Clone(b))
	if s.bad {
		return s.errW
	}
	return nil
}
func (s *sink) Close() error {
	s.closed++
	if s.badEnd {
		return s.errC
	}
	return nil
}

func multi(r *vh.R) {
	for n := 0; n <= 4; n++ {
		// what each writer does at each of two writes and at close
		dims := make([]int, n)
		for i := range dims {
			dims[i] = 8
		}
		vh.Prod(dims, func(v []int) bool {
			r.Case()
			var ws []*sink
			var m msdk.MultiWriter[pcm]
			for i := range n {
				s := &sink{rate: 8000 * (i + 1), errW: fmt.Errorf("write %d", i), errC: fmt.Errorf("close %d", i)}
				ws = append(ws, s)
				m = append(m, s)
			}
			for k := 0; k < 2; k++ {
				some := false
				for i, s := range ws {
					s.bad = v[i]>>k&1 == 1
					some = some || s.bad
				}
				r.Step(1)
				frame := pcm{int16(k), 7, int16(-k)}
				err := m.WriteSample(frame)
				found := !some
				for i, s := range ws {
					found = found || s.bad && errors.Is(err, s.errW)
					if len(s.got) != k+1 || !slices.Equal(s.got[k], []int16{int16(k), 7, int16(-k)}) {
						r.Fail("fan-out", "writers failing as %v: writer %d holds %v after write %d", v, i, s.got, k)
					}
				}
				if (err != nil) != some || !found {
					r.Fail("error", "writers failing as %v: write %d returned %v", v, k, err)
				}
			}
			some := false
			for i, s := range ws {
				s.badEnd = v[i]>>2&1 == 1
				some = some || s.badEnd
			}
			err := m.Close()
			found := !some
			for i, s := range ws {
				found = found || s.badEnd && errors.Is(err, s.errC)
				if s.closed != 1 {
					r.Fail("close", "writers failing as %v: writer %d closed %d times", v, i, s.closed)
				}
			}
			if (err != nil) != some || !found {
				r.Fail("error", "writers failing as %v: close returned %v", v, err)
			}
			if rate := m.SampleRate(); n > 0 && rate != 8000 {
				r.Fail("rate", "%d writers: rate %d", n, rate)
			}
			_ = m.String()
			r.State(fmt.Sprint(n, v))
			r.Nontrivial(fmt.Sprint(n, v))
			return !r.Stop()
		})
	}
}

// large runs everything on long frames and long recordings.
func large(r *vh.R) {
	var lens []int
	for k := 4; k <= 17; k++ {
		lens = append(lens, 1<<k-1, 1<<k, 1<<k+1)
	}
	lens = append(lens, 960, 5760, 48000, 96000)
	val := func(i int) int16 { return int16(uint16(i*40503 + i>>16)) }
	for _, n := range lens {
		r.Case()
		r.State(n)
		src := make(pcm, n)
		for i := range src {
			src[i] = val(i)
		}
		bad := func(what string, i int) bool {
			r.Fail("large", "%d samples, %s: wrong at %d", n, what, i)
			return !r.Stop()
		}
		st, ok := guarded(2 * n)
		msdk.MonoToStereo(st, src)
		for i := range src {
			if st[2*i] != src[i] || st[2*i+1] != src[i] || !ok() {
				bad("mono to stereo", i)
				break
			}
		}
		mono, ok := guarded(n / 2)
		msdk.StereoToMono(mono, src)
		for i := range mono {
			if !average(int(src[2*i]), int(src[2*i+1]), int(mono[i])) || !ok() {
				bad("stereo to mono", i)
				break
			}
		}
		raw := make([]byte, 2*n)
		if c, err := src.CopyTo(raw); c != 2*n || err != nil || src.Size() != 2*n {
			bad("bytes", c)
		}
		for i := range src {
			if raw[2*i] != byte(src[i]) || raw[2*i+1] != byte(uint16(src[i])>>8) {
				bad("bytes", i)
				break
			}
		}
		mono.Clear()
		for i, v := range mono {
			if v != 0 {
				bad("clear", i)
				break
			}
		}
		got := &samples{}
		if err := msdk.FromSampleWriter[[]byte](got, 48000, time.Millisecond).WriteSample(raw); err != nil || len(got.got) != 1 || !bytes.Equal(got.got[0].Data, raw) {
			bad("sample writer", 0)
		}
		for _, k := range []int{1, 160, 1000, n} {
			if n/k > 5000 {
				continue
			}
			rd := msdk.NewPCM16BufferReader(slices.Clone(src))
			buf := make(pcm, k)
			for pos := 0; pos < n; {
				c, err := rd.ReadSample(buf)
				if c != min(k, n-pos) || err != nil || !slices.Equal(buf[:c], src[pos:pos+c]) {
					bad("reader", pos)
					break
				}
				pos += c
			}
		}
		r.Step(7)
		r.Nontrivial(n)
		if r.Stop() {
			return
		}
	}
	// long recordings, in frames of one size; looked at now and then
	for _, n := range []int{1, 160, 960, 1 << 16} {
		total := r.Pick(2_200_000, 20_000_000)
		if n == 1 {
			total = r.Pick(140000, 1_200_000)
		}
		for _, kind := range []string{"frames", "buffer", "sample"} {
			r.Case()
			var buf pcm
			var frames []pcm
			var w interface{ WriteSample(pcm) error } = &buf
			switch kind {
			case "frames":
				w = msdk.NewPCM16FrameWriter(&frames, 8000)
			case "buffer":
				w = msdk.NewPCM16BufferWriter(&buf, 8000)
			}
			frame := make(pcm, n)
			sum := 0
			for k := 0; k*n < total; k++ {
				for i := range frame {
					frame[i] = val(k*n + i)
				}
				if err := w.WriteSample(frame); err != nil {
					r.Fail(kind, "frame %d of %d samples: %v", k, n, err)
					return
				}
				clear(frame)
				sum += n
				if kind == "frames" && len(frames) != k+1 || kind != "frames" && len(buf) != sum {
					r.Fail(kind, "%d frames of %d samples written, holds %d frames, %d samples", k+1, n, len(frames), len(buf))
					return
				}
				r.Step(1)
			}
			for k, f := range frames {
				if len(f) != n {
					r.Fail(kind, "frame %d has %d samples, not %d", k, len(f), n)
					return
				}
				buf = append(buf, f...)
			}
			for i, v := range buf {
				if v != val(i) {
					r.Fail(kind, "frames of %d samples: sample %d of %d is %d", n, i, len(buf), v)
					return
				}
			}
			r.State(kind, n)
			r.Nontrivial(kind, n)
		}
	}
	// many writers, one or none of them failing
	for n := 1; n <= 70; n++ {
		for fail := -1; fail < n; fail++ {
			r.Case()
			var ws []*sink
			var m msdk.MultiWriter[pcm]
			for i := range n {
				s := &sink{rate: 8000, bad: i == fail, badEnd: i == fail, errW: fmt.Errorf("write %d", i), errC: fmt.Errorf("close %d", i)}
				ws, m = append(ws, s), append(m, s)
			}
			ew, ec := m.WriteSample(pcm{1, int16(n)}), m.Close()
			if fail < 0 && (ew != nil || ec != nil) || fail >= 0 && (!errors.Is(ew, ws[fail].errW) || !errors.Is(ec, ws[fail].errC)) {
				r.Fail("error", "%d writers, %d failing: %v, %v", n, fail, ew, ec)
			}
			for i, s := range ws {
				if len(s.got) != 1 || !slices.Equal(s.got[0], pcm{1, int16(n)}) || s.closed != 1 {
					r.Fail("fan-out", "%d writers, %d failing: writer %d got %v, closed %d times", n, fail, i, s.got, s.closed)
				}
			}
			r.Step(2)
			r.State(n, fail)
			if r.Stop() {
				return
			}
		}
	}
}

type samples struct {
	got []media.Sample
	bad error
}

func (s *samples) WriteSample(x media.Sample) error {
	s.got = append(s.got, x)
	return s.bad
}

func adapters(r *vh.R) {
	vh.Prod([]int{4, 4, 4, 2, 2, 2}, func(v []int) bool {
		r.Case()
		s := &samples{}
		w := msdk.FromSampleWriter[[]byte](s, 48000, 20*time.Millisecond)
		buf := make([]byte, 8)
		var want [][]byte
		for k, n := range v[:3] {
			for i := range buf {
				buf[i] = byte(k*16 + i + 1)
			}
			r.Step(1)
			s.bad = nil
			if v[3+k] == 1 {
				s.bad = fmt.Errorf("sample %d", k)
			}
			want = append(want, slices.Clone(buf[:n]))
			if err := w.WriteSample(buf[:n]); !errors.Is(err, s.bad) {
				r.Fail("samples", "%v: write %d returned %v", v, k, err)
			}
			clear(buf)
			if len(s.got) != k+1 {
				r.Fail("samples", "%v: %d samples after %d", v, len(s.got), k+1)
				return !r.Stop()
			}
			for i, x := range s.got {
				if !bytes.Equal(x.Data, want[i]) || x.Duration != 20*time.Millisecond {
					r.Fail("samples", "%v: sample %d is %v for %v, want %v", v, i, x.Data, x.Duration, want[i])
				}
			}
		}
		if w.Close() != nil || w.SampleRate() != 48000 {
			r.Fail("samples", "close or rate %d", w.SampleRate())
		}
		r.State(fmt.Sprint(v))
		r.Nontrivial(fmt.Sprint(v))
		return !r.Stop()
	})
	s := &sink{rate: 8000, errW: errors.New("w"), badEnd: true, errC: errors.New("c")}
	n := msdk.NopCloser[pcm](s)
	for k := 0; k < 4; k++ {
		r.Case()
		r.Step(1)
		s.bad = k%2 == 1
		if err := n.WriteSample(pcm{int16(k)}); (err != nil) != s.bad || len(s.got) != k+1 || s.got[k][0] != int16(k) {
			r.Fail("nop-closer", "write %d: %v, %v", k, err, s.got)
		}
		if n.Close() != nil || s.closed != 0 || n.SampleRate() != 8000 {
			r.Fail("nop-closer", "closed %d times", s.closed)
		}
	}
	if !panics(func() { msdk.NewPCM16BufferWriter(nil, 8000) }) {
		r.Fail("buffer", "accepted no buffer")
	}
}

// merged reports whether buf is whole frames, each writer's in order, at most once.
func merged(buf pcm, writers ...[]pcm) ([]int, bool) {
	at := make([]int, len(writers))
	for len(buf) > 0 {
		ok := false
		for i, fs := range writers {
			if at[i] < len(fs) && len(buf) >= len(fs[at[i]]) && slices.Equal(buf[:len(fs[at[i]])], fs[at[i]]) {
				buf = buf[len(fs[at[i]]):]
				at[i]++
				ok = true
				break
			}
		}
		if !ok {
			return at, false
		}
	}
	return at, true
}

func concurrent(name string, writers, frames int, closer bool) vh.Scenario {
	return vh.Scenario{Name: name, Race: true, Run: func(r *vh.R) {
		r.Explore(vh.Opt{Bound: -1}, func() {
			var buf pcm
			w := msdk.NewPCM16BufferWriter(&buf, 8000)
			var sent [][]pcm
			for i := range writers {
				var fs []pcm
				for k := range frames {
					v := int16(10*i + k + 1)
					fs = append(fs, pcm{v, v, v}[:2+k%2])
				}
				sent = append(sent, fs)
			}
			done := make([]int, writers)
			var joins []func()
			for i := range writers {
				joins = append(joins, vh.Spawn(fmt.Sprint("writer", i), func() {
					for _, f := range sent[i] {
						if err := w.WriteSample(f); err != nil {
							vh.Fail("error", "%v", err)
						}
						vh.Atomic(func() { done[i]++ })
					}
				}))
			}
			if closer {
				joins = append(joins, vh.Spawn("closer", func() {
					var before []int
					vh.Atomic(func() { before = slices.Clone(done) })
					w.Close()
					held := slices.Clone(buf) // nobody writes any more
					at, ok := merged(held, sent...)
					for i := range before {
						if ok && at[i] < before[i] {
							vh.Fail("lost", "writer %d had written %d frames, the buffer holds %v", i, before[i], held)
						}
					}
					if !ok {
						vh.Fail("mixed", "at close the buffer holds %v", held)
					}
					vh.Sleep(time.Millisecond)
					if !slices.Equal(held, buf) {
						vh.Fail("closed", "the buffer changed after the close: %v, %v", held, buf)
					}
				}))
			}
			for _, j := range joins {
				j()
			}
			at, ok := merged(buf, sent...)
			if !ok {
				vh.Fail("mixed", "the buffer holds %v", buf)
			}
			for i := range at {
				if !closer && at[i] != frames {
					vh.Fail("lost", "%d frames of writer %d: %v", at[i], i, buf)
				}
			}
			vh.Note("%v", buf)
		})
	}}
}

func main() {
	var sc []vh.Scenario
	for p := range 8 {
		sc = append(sc, stereo(p))
	}
	sc = append(sc, vh.Scenario{Name: "shapes", Run: shapes}, vh.Scenario{Name: "bytes", Run: bytesOf})
	for _, k := range []string{"frames", "buffer", "sample"} {
		sc = append(sc, vh.Scenario{Name: k, Run: func(r *vh.R) { buffers(r, k, r.Pick(6, 8)) }})
	}
	sc = append(sc,
		vh.Scenario{Name: "reader", Run: func(r *vh.R) { reader(r, r.Pick(6, 8)) }},
		vh.Scenario{Name: "multi", Run: multi},
		vh.Scenario{Name: "large", Run: large},
		vh.Scenario{Name: "adapters", Run: adapters},
		concurrent("two-writers", 2, 3, false),
		concurrent("three-writers", 3, 2, false),
		concurrent("close", 2, 2, true),
		concurrent("close-three", 3, 1, true),
	)
	vh.Main(vh.Check{ID: "C31", Level: "model_checking",
		Rule:      "all 2^32 stereo pairs; all sample values as bytes; every history of 6 (thorough: 8) buffer operations; every combination of failures of up to 4 writers; all interleavings of small programs on a buffer writer",
		Scenarios: sc})
}
