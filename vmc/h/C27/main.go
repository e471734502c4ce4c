// C27: audio travels encoder to RTP to decoder frame by frame.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"slices"

	prtp "github.com/pion/rtp"

	"github.com/livekit/protocol/logger"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/dtmf"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/opus"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/vh"
	"github.com/livekit/media-sdk/vh/sig"
)

var errOut = errors.New("refused")

// pcmSink takes decoded frames.
type pcmSink struct {
	rate   int
	got    []msdk.PCM16Sample
	fail   int
	closed int
}

func (s *pcmSink) String() string  { return "pcm" }
func (s *pcmSink) SampleRate() int { return s.rate }
func (s *pcmSink) Close() error    { s.closed++; return nil }
func (s *pcmSink) WriteSample(b msdk.PCM16Sample) error {
	s.got = append(s.got, append(msdk.PCM16Sample{}, b...))
	if len(s.got)-1 == s.fail {
		return errOut
	}
	for i := range b {
		b[i] = 0x7777
	}
	return nil
}
func (s *pcmSink) all() (out msdk.PCM16Sample) {
	for _, f := range s.got {
		out = append(out, f...)
	}
	return out
}

// codeSink takes encoded frames.
type codeSink[T ~[]byte] struct {
	rate   int
	got    [][]byte
	fail   int
	closed int
}

func (s *codeSink[T]) String() string  { return "codes" }
func (s *codeSink[T]) SampleRate() int { return s.rate }
func (s *codeSink[T]) Close() error    { s.closed++; return nil }
func (s *codeSink[T]) WriteSample(b T) error {
	s.got = append(s.got, append([]byte{}, b...))
	if len(s.got)-1 == s.fail {
		return errOut
	}
	for i := range b {
		b[i] = 0xee
	}
	return nil
}

type packet struct {
	h    prtp.Header
	data []byte
}

type rtpSink struct {
	got  []packet
	fail int
}

func (s *rtpSink) String() string { return "rtp" }
func (s *rtpSink) WriteRTP(h *prtp.Header, data []byte) (int, error) {
	s.got = append(s.got, packet{*h, append([]byte{}, data...)})
	if len(s.got)-1 == s.fail {
		return 0, errOut
	}
	return len(data), nil
}

// wave is a tone, or silence.
func wave(rate, n, from int, freq float64, amp float64) msdk.PCM16Sample {
	out := make(msdk.PCM16Sample, n)
	for i := range out {
		out[i] = int16(amp * math.Sin(2*math.Pi*freq*float64(from+i)/float64(rate)))
	}
	return out
}

func loud(s msdk.PCM16Sample) int {
	m := 0
	for _, v := range s {
		m = max(m, max(int(v), -int(v)))
	}
	return m
}

// bytesPerFrame of 20 ms for the codecs known here.
var bytesPerFrame = map[string]int{g711.ULawSDPName: 160, g711.ALawSDPName: 160, g722.SDPName: 160}

// overRTP sends frames over RTP with one codec; pattern tells tone (1), silence (0) or a loud tone (2) for each.
func overRTP(r *vh.R, c rtp.AudioCodec, typ byte, outRate int, pattern []int, fail int) {
	info := c.Info()
	desc := fmt.Sprintf("%s as %d, decoded at %d, frames %v, failing %d", info.SDPName, typ, outRate, pattern, fail)
	r.Case()
	r.State(desc)
	r.Guard("panic", desc, func() {
		rs := &rtpSink{fail: fail}
		st := rtp.NewSeqWriter(rs).NewStream(typ, info.RTPClockRate)
		w := c.EncodeRTP(st)
		if w.SampleRate() != info.SampleRate {
			r.Fail("rate", "%s: the encoder runs at %d", desc, w.SampleRate())
		}
		ps := &pcmSink{rate: outRate, fail: -1}
		if fail >= len(pattern) {
			ps.fail = fail - len(pattern)
		}
		hd := c.DecodeRTP(ps, typ)
		n := info.SampleRate / 50
		for i, p := range pattern {
			r.Step(2)
			in := wave(info.SampleRate, n, i*n, 400, []float64{0, 3000, 16000}[p])
			err := w.WriteSample(in)
			if i == fail {
				if !errors.Is(err, errOut) {
					r.Fail("error", "%s: refused packet %d, encoder returned %v", desc, i, err)
				}
				return
			}
			if err != nil || len(rs.got) != i+1 {
				r.Fail("packets", "%s: frame %d: %v, %d packets", desc, i, err, len(rs.got))
				return
			}
			k := rs.got[i]
			if k.h.PayloadType != typ || k.h.Timestamp-rs.got[0].h.Timestamp != uint32(i*info.RTPClockRate/50) || k.h.SequenceNumber-rs.got[0].h.SequenceNumber != uint16(i) {
				r.Fail("header", "%s: packet %d: %+v", desc, i, k.h)
				return
			}
			if b := bytesPerFrame[info.SDPName]; b == 0 || len(k.data) != b {
				r.Fail("size", "%s: packet %d has %d bytes", desc, i, len(k.data))
				return
			}
			h := k.h
			data := append([]byte{}, k.data...)
			err = hd.HandleRTP(&h, data)
			if len(ps.got) != i+1 {
				r.Fail("frames", "%s: packet %d: %v, %d frames", desc, i, err, len(ps.got))
				return
			}
			if i == ps.fail {
				if !errors.Is(err, errOut) {
					r.Fail("error", "%s: refused frame %d, decoder returned %v", desc, i, err)
				}
				return
			}
			if err != nil {
				r.Fail("error", "%s: packet %d: %v", desc, i, err)
			}
			f := ps.got[i]
			if len(f) != outRate/50 {
				r.Fail("duration", "%s: frame %d has %d samples", desc, i, len(f))
				return
			}
			// silence; after a tone the decoder's filters need the first part of a frame to settle
			quiet := p == 0
			x := f
			if i > 0 && pattern[i-1] != 0 {
				x = f[len(f)/2:]
			}
			if i > 1 && quiet && pattern[i-1] == 0 && pattern[i-2] != 0 {
				x = f
			}
			if quiet && loud(x) > 400 || quiet && allSilent(pattern[:i+1]) && loud(x) > 40 {
				r.Fail("silence", "%s: frame %d reaches %d", desc, i, loud(x))
			}
			if p > 0 && i > 0 && pattern[i-1] == p {
				amp, rest := sig.Fit(f, outRate, []float64{400})
				want := []float64{0, 3000, 16000}[p]
				if rest > 0.02 || amp[0] < want*0.8 || amp[0] > want*1.2 {
					r.Fail("tone", "%s: frame %d carries the tone at %.0f, the rest is %.4f", desc, i, amp[0], rest)
				}
			}
		}
		r.Nontrivial(desc)
	})
}

func allSilent(p []int) bool {
	for _, x := range p {
		if x != 0 {
			return false
		}
	}
	return true
}

// chunks: however the audio is cut into frames, the same codes and samples result, one frame each.
func chunks[T ~[]byte](r *vh.R, name string, rate, perByte int, enc func(msdk.WriteCloser[T]) msdk.PCM16Writer, dec func(msdk.PCM16Writer) msdk.WriteCloser[T], sizes []int, fail int) {
	desc := fmt.Sprintf("%s at %d, frames of %v samples, failing %d", name, rate, sizes, fail)
	r.Case()
	r.State(desc)
	r.Guard("panic", desc, func() {
		total := 0
		for _, n := range sizes {
			total += n
		}
		in := wave(rate, total, 0, 777, 9000)
		cs1, cs := &codeSink[T]{rate: rate, fail: -1}, &codeSink[T]{rate: rate, fail: fail}
		ps1, ps := &pcmSink{rate: rate, fail: -1}, &pcmSink{rate: rate, fail: fail}
		if total > 0 {
			if err := enc(cs1).WriteSample(append(msdk.PCM16Sample{}, in...)); err != nil {
				r.Fail("error", "%s: in one frame: %v", desc, err)
				return
			}
			if err := dec(ps1).WriteSample(append(T{}, cs1.got[0]...)); err != nil {
				r.Fail("error", "%s: in one frame: %v", desc, err)
				return
			}
		}
		e, d := enc(cs), dec(ps)
		if e.SampleRate() != rate || d.SampleRate() != rate {
			r.Fail("rate", "%s: rates %d, %d", desc, e.SampleRate(), d.SampleRate())
		}
		at := 0
		whole := ps1.all()
		for i, n := range sizes {
			r.Step(2)
			frame := append(msdk.PCM16Sample{}, in[at:at+n]...)
			err := e.WriteSample(frame)
			if len(cs.got) != i+1 || (err != nil) != (i == fail) || err != nil && !errors.Is(err, errOut) {
				r.Fail("encode", "%s: frame %d: %v, %d encoded", desc, i, err, len(cs.got))
				return
			}
			for j := range frame {
				if frame[j] != in[at+j] {
					r.Fail("input", "%s: the encoder changed its input", desc)
					return
				}
			}
			want := cs1.got0()[at/perByte : (at+n)/perByte]
			if !bytes.Equal(cs.got[i], want) {
				r.Fail("leak-encode", "%s: frame %d is encoded as %x, expected %x", desc, i, cs.got[i], want)
				return
			}
			err = d.WriteSample(append(T{}, want...))
			if len(ps.got) != i+1 || (err != nil) != (i == fail) || err != nil && !errors.Is(err, errOut) {
				r.Fail("decode", "%s: frame %d: %v, %d decoded", desc, i, err, len(ps.got))
				return
			}
			wp := whole[at : at+n]
			if !slices.Equal(ps.got[i], wp) {
				r.Fail("leak-decode", "%s: frame %d is decoded as %v, expected %v", desc, i, ps.got[i], wp)
				return
			}
			at += n
		}
		if e.Close() != nil || d.Close() != nil || cs.closed != 1 || ps.closed != 1 {
			r.Fail("close", "%s: closed %d and %d times", desc, cs.closed, ps.closed)
		}
		r.Nontrivial(desc)
	})
}

// odd writes G.722 frames some of which have an odd number of samples: those are completed by a sample of no sound
// or one like the last.
func odd(r *vh.R, sizes []int) {
	desc := fmt.Sprintf("G722 at 16000, frames of %v samples", sizes)
	r.Case()
	r.State(desc)
	r.Guard("panic", desc, func() {
		total := 0
		for _, n := range sizes {
			total += n
		}
		in := wave(16000, total, 0, 777, 9000)
		var refs [2]msdk.PCM16Sample
		at := 0
		for _, n := range sizes {
			for k := range refs {
				refs[k] = append(refs[k], in[at:at+n]...)
				if n%2 != 0 {
					refs[k] = append(refs[k], []int16{in[at+n-1], 0}[k])
				}
			}
			at += n
		}
		var want [2][]byte
		for k := range refs {
			cs := &codeSink[g722.Sample]{rate: 16000, fail: -1}
			if err := g722.Encode(cs).WriteSample(refs[k]); err != nil {
				r.Fail("error", "%s: in one frame: %v", desc, err)
				return
			}
			want[k] = cs.got[0]
		}
		cs := &codeSink[g722.Sample]{rate: 16000, fail: -1}
		e := g722.Encode(cs)
		at = 0
		buf := append(msdk.PCM16Sample{}, in...)
		for i, n := range sizes {
			r.Step(1)
			err := e.WriteSample(buf[at : at+n])
			if err != nil || len(cs.got) != i+1 || len(cs.got[i]) != (n+1)/2 {
				r.Fail("encode", "%s: frame %d: %v, %d encoded", desc, i, err, len(cs.got))
				return
			}
			at += n
		}
		for i := range in {
			if buf[i] != in[i] {
				r.Fail("input", "%s: the encoder changed its input, or what follows it", desc)
				return
			}
		}
		var got []byte
		for _, b := range cs.got {
			got = append(got, b...)
		}
		if !bytes.Equal(got, want[0]) && !bytes.Equal(got, want[1]) {
			r.Fail("leak-encode", "%s: encoded as %x, expected %x", desc, got, want[0])
		}
		r.Nontrivial(desc)
	})
}

func (s *codeSink[T]) got0() []byte {
	if len(s.got) == 0 {
		return nil
	}
	return s.got[0]
}

// band sends one tone with a codec and decodes it at any rate: all the codec's band is there, nothing else.
func band(r *vh.R, c rtp.AudioCodec, outRate int, freq float64) {
	info := c.Info()
	desc := fmt.Sprintf("%s decoded at %d, tone of %.0f Hz", info.SDPName, outRate, freq)
	r.Case()
	r.State(desc)
	r.Guard("panic", desc, func() {
		rs := &rtpSink{fail: -1}
		w := c.EncodeRTP(rtp.NewSeqWriter(rs).NewStream(info.RTPDefType, info.RTPClockRate))
		ps := &pcmSink{rate: outRate, fail: -1}
		hd := c.DecodeRTP(ps, info.RTPDefType)
		n := info.SampleRate / 50
		for i := range 25 {
			r.Step(2)
			if err := w.WriteSample(wave(info.SampleRate, n, i*n, freq, 8000)); err != nil || len(rs.got) != i+1 {
				r.Fail("packets", "%s: frame %d: %v, %d packets", desc, i, err, len(rs.got))
				return
			}
			h := rs.got[i].h
			if err := hd.HandleRTP(&h, rs.got[i].data); err != nil {
				r.Fail("error", "%s: packet %d: %v", desc, i, err)
				return
			}
		}
		out := ps.all()
		if len(out) > outRate/2 || len(out) < outRate*4/10 {
			r.Fail("duration", "%s: half a second became %d samples", desc, len(out))
			return
		}
		// 0.2 s in the middle
		x := out[outRate/10 : outRate*3/10]
		amp, rest := sig.Fit(x, outRate, []float64{freq})
		if amp[0] < 6000 || amp[0] > 10000 || rest > 0.1 {
			r.Fail("band", "%s: carried at %.0f, the rest is %.4f", desc, amp[0], rest)
		}
		r.Nontrivial(desc)
	})
}

// frames of any length, empty ones too, are one packet each with their bytes as payload, a frame of time apart.
func payloads(r *vh.R, sizes []int, fail int) {
	desc := fmt.Sprintf("frames of %v bytes, failing %d", sizes, fail)
	r.Case()
	r.State(desc)
	r.Guard("panic", desc, func() {
		rs := &rtpSink{fail: fail}
		m := rtp.NewMediaStreamOut[opus.Sample](rtp.NewSeqWriter(rs).NewStream(111, 48000), 48000)
		first, ts := uint32(0), uint32(0)
		for i, n := range sizes {
			r.Step(1)
			in := make(opus.Sample, n)
			for j := range in {
				in[j] = byte(i*31 + j)
			}
			err := m.WriteSample(in)
			if len(rs.got) != i+1 || (err != nil) != (i == fail) || err != nil && !errors.Is(err, errOut) {
				r.Fail("packets", "%s: frame %d: %v, %d packets", desc, i, err, len(rs.got))
				return
			}
			k := rs.got[i]
			if i == 0 {
				first = k.h.Timestamp
			}
			if !bytes.Equal(k.data, in) || k.h.PayloadType != 111 || k.h.Marker || k.h.Timestamp-first != ts {
				r.Fail("header", "%s: packet %d: %+v with %d bytes, want time %d", desc, i, k.h, len(k.data), ts)
				return
			}
			if i != fail {
				ts += 960
			}
		}
		r.Nontrivial(desc)
	})
}

// ---- Opus ----

var log = logger.GetLogger()

// encodeOpus encodes n frames of the given kinds and checks one packet per frame.
func encodeOpus(r *vh.R, rate, ch int, kinds, durs []int, fail int) [][]byte {
	desc := fmt.Sprintf("opus encoder at %d with %d channels, frames %v, durations %v, failing %d", rate, ch, kinds, durs, fail)
	cs := &codeSink[opus.Sample]{rate: rate, fail: fail}
	e, err := opus.Encode(cs, ch, log)
	if err != nil {
		r.Fail("encoder", "%s: %v", desc, err)
		return nil
	}
	if e.SampleRate() != rate {
		r.Fail("rate", "%s: rate %d", desc, e.SampleRate())
	}
	at := 0
	for i, k := range kinds {
		n := rate / 400 * durs[i]
		m := wave(rate, n, at, 400, []float64{0, 8000}[k])
		at += n
		in := m
		if ch == 2 {
			in = make(msdk.PCM16Sample, 2*n)
			for j, v := range m {
				in[2*j], in[2*j+1] = v, v
			}
		}
		err := e.WriteSample(in)
		r.Step(1)
		if len(cs.got) != i+1 || (err != nil) != (i == fail) || err != nil && !errors.Is(err, errOut) {
			r.Fail("encode", "%s: frame %d: %v, %d packets", desc, i, err, len(cs.got))
			return nil
		}
		if len(cs.got[i]) == 0 || len(cs.got[i]) > 1276*max(1, durs[i]/8) {
			r.Fail("encode", "%s: frame %d: packet of %d bytes", desc, i, len(cs.got[i]))
		}
	}
	if err := e.Close(); err != nil || cs.closed != 1 {
		r.Fail("close", "%s: %v, closed %d times", desc, err, cs.closed)
	}
	return cs.got
}

func stereo(p []byte) bool { return p[0]&4 != 0 }

func decodeOpus(r *vh.R, rate, outRate, ch, target int, kinds, durs []int, fail int) {
	desc := fmt.Sprintf("opus from %d with %d channels to %d with %d, frames %v, durations %v/400 s, failing %d", rate, ch, outRate, target, kinds, durs, fail)
	r.Case()
	r.State(desc)
	r.Guard("panic", desc, func() {
		pk := encodeOpus(r, rate, ch, kinds, durs, -1)
		if fail >= 0 {
			encodeOpus(r, rate, ch, kinds, durs, fail)
		}
		ps := &pcmSink{rate: outRate, fail: fail}
		d, err := opus.Decode(ps, target, log)
		if err != nil || d.SampleRate() != outRate {
			r.Fail("decoder", "%s: %v, %d", desc, err, d.SampleRate())
			return
		}
		for i, p := range pk {
			r.Step(1)
			keep := append([]byte{}, p...)
			err := d.WriteSample(p)
			if !bytes.Equal(p, keep) {
				r.Fail("input", "%s: the decoder changed its input", desc)
			}
			if len(ps.got) != i+1 || (err != nil) != (i == fail) || err != nil && !errors.Is(err, errOut) {
				r.Fail("decode", "%s: packet %d: %v, %d frames", desc, i, err, len(ps.got))
				return
			}
			n := outRate / 400 * durs[i] * target
			if len(ps.got[i]) != n {
				r.Fail("duration", "%s: frame %d has %d samples, want %d", desc, i, len(ps.got[i]), n)
				return
			}
			if allSilent(kinds[:i+1]) && loud(ps.got[i]) > 16 {
				r.Fail("silence", "%s: frame %d reaches %d", desc, i, loud(ps.got[i]))
			}
			if target == 2 {
				for j := 0; j < len(ps.got[i]); j += 2 {
					if a, b := ps.got[i][j], ps.got[i][j+1]; a != b && (ch == 1 || abs(int(a)-int(b)) > 600 && slices.Max(durs) <= 8) {
						r.Fail("channels", "%s: frame %d: %d left, %d right", desc, i, a, b)
						return
					}
				}
			}
			if i >= 4 && kinds[i] == 1 && kinds[i-1] == 1 && kinds[i-2] == 1 && kinds[i-3] == 1 && durs[i] == 8 {
				x := ps.got[i]
				if target == 2 {
					x = nil
					for j := 0; j < n; j += 2 {
						x = append(x, ps.got[i][j])
					}
				}
				amp, rest := sig.Fit(x, outRate, []float64{400})
				if rest > 0.15 || amp[0] < 4000 || amp[0] > 16000 {
					r.Fail("tone", "%s: frame %d carries the tone at %.0f, the rest is %.4f", desc, i, amp[0], rest)
				}
			}
		}
		if err := d.Close(); err != nil || ps.closed != 1 {
			r.Fail("close", "%s: %v, closed %d times", desc, err, ps.closed)
		}
		r.Nontrivial(desc)
	})
}

func abs(a int) int { return max(a, -a) }

// changes decodes runs of packets, alternately with one and two channels.
func changes(r *vh.R, out, target, first int, runs []int, pk [2][][]byte) {
	r.Case()
	desc := fmt.Sprintf("opus decoder at %d with %d channels, runs of %v packets beginning with %d channels", out, target, runs, first+1)
	r.Guard("panic", desc, func() {
		ps := &pcmSink{rate: out, fail: -1}
		d, err := opus.Decode(ps, target, log)
		if err != nil {
			r.Fail("decoder", "%s: %v", desc, err)
			return
		}
		at, ch := 0, first
		for i, n := range runs {
			for k := range n {
				r.Step(1)
				err := d.WriteSample(pk[ch][at%20])
				at++
				if err != nil || len(ps.got) != at || len(ps.got[at-1]) != out/50*target {
					r.Fail("good", "%s: packet %d: %v, %d frames", desc, at, err, len(ps.got))
					return
				}
				if k < 4 {
					continue
				}
				x := ps.got[at-1]
				for c := range target {
					var y msdk.PCM16Sample
					for j := c; j < len(x); j += target {
						y = append(y, x[j])
					}
					amp, rest := sig.Fit(y, out, []float64{400})
					if rest > 0.15 || amp[0] < 4000 || amp[0] > 16000 {
						r.Fail("tone", "%s: run %d: its packet %d carries the tone at %.0f in channel %d, the rest is %.4f", desc, i, k, amp[0], c, rest)
						return
					}
				}
			}
			ch = 1 - ch
		}
		r.State(out, target, first, fmt.Sprint(runs))
		r.Nontrivial(target, first, fmt.Sprint(runs))
	})
}

// corrupt runs histories over mono, stereo, corrupt and empty packets.
func corrupt(r *vh.R, rate, target int, hist []int, pk [2][]byte, bad [][]byte) {
	r.Case()
	desc := func() string {
		n := []string{"mono", "stereo", "corrupt mono", "corrupt stereo", "empty"}
		s := fmt.Sprintf("decoder at %d with %d channels:", rate, target)
		for _, h := range hist {
			s += " " + n[h]
		}
		return s
	}
	defer func() {
		if e := recover(); e != nil {
			r.Fail("panic", "%s: %v", desc(), e)
		}
	}()
	ps := &pcmSink{rate: rate, fail: -1}
	d, err := opus.Decode(ps, target, log)
	if err != nil {
		r.Fail("decoder", "%s: %v", desc(), err)
		return
	}
	run := 0
	for i, h := range hist {
		r.Step(1)
		n := len(ps.got)
		switch h {
		case 0, 1:
			err := d.WriteSample(pk[h])
			run = 0
			if err != nil || len(ps.got) != n+1 || len(ps.got[n]) != rate/50*target {
				r.Fail("good", "%s: packet %d: %v, %d frames before, %d after", desc(), i, err, n, len(ps.got))
				return
			}
			if target == 2 && h == 0 {
				for j := 0; j < len(ps.got[n]); j += 2 {
					if ps.got[n][j] != ps.got[n][j+1] {
						r.Fail("channels", "%s: packet %d: a mono packet differs left and right", desc(), i)
						return
					}
				}
			}
		case 2, 3:
			err := d.WriteSample(bad[h-2])
			run++
			if len(ps.got) != n {
				r.Fail("corrupt", "%s: packet %d produced a frame", desc(), i)
				return
			}
			if (err != nil) != (run > 5) {
				r.Fail("tolerance", "%s: packet %d, the %d. corrupt one in a row: %v", desc(), i, run, err)
				return
			}
		case 4:
			if err := d.WriteSample(nil); err != nil || len(ps.got) != n {
				r.Fail("empty", "%s: packet %d: %v, %d frames before, %d after", desc(), i, err, n, len(ps.got))
				return
			}
		}
	}
	r.State(target, rate, fmt.Sprint(hist))
	r.Nontrivial(fmt.Sprint(hist))
}

func main() {
	var sc []vh.Scenario
	sc = append(sc, vh.Scenario{Name: "rtp", Run: func(r *vh.R) {
		found := 0
		for _, c := range msdk.Codecs() {
			if c.Info().SDPName == dtmf.SDPName {
				continue
			}
			ac, ok := c.(rtp.AudioCodec)
			if !ok {
				r.Fail("codec", "%s is no audio codec", c.Info().SDPName)
				continue
			}
			found++
			rates := []int{8000}
			if c.Info().SDPName == g722.SDPName {
				rates = append(rates, 16000)
			}
			for _, out := range rates {
				for n := 1; n <= r.Pick(7, 9); n++ {
					vh.Seqs(n, 3, func(s []int) bool {
						overRTP(r, ac, c.Info().RTPDefType, out, s, -1)
						if n <= 4 {
							for f := 0; f < 2*n; f++ {
								overRTP(r, ac, 96+byte(f), out, s, f)
							}
						}
						return !r.Stop()
					})
				}
				overRTP(r, ac, 127, out, make([]int, 300), -1)
			}
		}
		if found != 3 {
			r.Fail("codecs", "%d audio codecs registered", found)
		}
	}})
	sc = append(sc, vh.Scenario{Name: "band", Run: func(r *vh.R) {
		for _, c := range msdk.Codecs() {
			ac, ok := c.(rtp.AudioCodec)
			if !ok || c.Info().SDPName == dtmf.SDPName {
				continue
			}
			for _, out := range []int{8000, 12000, 16000, 24000, 32000, 44100, 48000} {
				for f := 300; f < min(out, c.Info().SampleRate)*4/10; f += r.Pick(700, 100) {
					band(r, ac, out, float64(f))
				}
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "payloads", Run: func(r *vh.R) {
		list := []int{0, 1, 160, 1199, 1200, 1201, 1500}
		for n := 1; n <= r.Pick(4, 6); n++ {
			vh.Seqs(n, len(list), func(s []int) bool {
				var z []int
				for _, x := range s {
					z = append(z, list[x])
				}
				for f := -1; f < n && (f < 0 || n <= 3); f++ {
					payloads(r, z, f)
				}
				return !r.Stop()
			})
		}
	}})
	sc = append(sc, vh.Scenario{Name: "odd-sizes", Run: func(r *vh.R) {
		list := []int{1, 3, 160, 161, 441, 2}
		for n := 1; n <= r.Pick(4, 6); n++ {
			vh.Seqs(n, len(list), func(s []int) bool {
				var z []int
				for _, x := range s {
					z = append(z, list[x])
				}
				odd(r, z)
				return !r.Stop()
			})
		}
	}})
	sc = append(sc, vh.Scenario{Name: "sizes", Run: func(r *vh.R) {
		for n := 1; n <= r.Pick(5, 6); n++ {
			for _, sizes := range [][]int{{2, 4, 160, 320, 6}, {1, 3, 80, 160, 161}} {
				vh.Seqs(n, len(sizes), func(s []int) bool {
					var z []int
					for _, x := range s {
						z = append(z, sizes[x])
					}
					for f := -1; f < n; f++ {
						if f >= 0 && n > 3 {
							break
						}
						if sizes[0] == 2 {
							chunks[g722.Sample](r, "G722", 16000, 2, g722.Encode, g722.Decode, z, f)
						} else {
							chunks[g722.Sample](r, "G722", 8000, 1, g722.Encode, g722.Decode, z, f)
							chunks[g711.ULawSample](r, "PCMU", 8000, 1, g711.EncodeULaw, g711.DecodeULaw, z, f)
							chunks[g711.ALawSample](r, "PCMA", 8000, 1, g711.EncodeALaw, g711.DecodeALaw, z, f)
						}
					}
					return !r.Stop()
				})
			}
		}
	}})
	// calls of some minutes
	sc = append(sc, vh.Scenario{Name: "long", Run: func(r *vh.R) {
		for _, n := range []int{1, 2, 160, 320, 960} {
			z := make([]int, r.Pick(10000, 100000)/(1+n/320))
			for i := range z {
				z[i] = n
			}
			if n > 1 {
				chunks[g722.Sample](r, "G722", 16000, 2, g722.Encode, g722.Decode, z, -1)
			}
			chunks[g722.Sample](r, "G722", 8000, 1, g722.Encode, g722.Decode, z, -1)
			chunks[g711.ULawSample](r, "PCMU", 8000, 1, g711.EncodeULaw, g711.DecodeULaw, z, -1)
			chunks[g711.ALawSample](r, "PCMA", 8000, 1, g711.EncodeALaw, g711.DecodeALaw, z, -1)
		}
		for ch := 1; ch <= 2; ch++ {
			for tg := 1; tg <= 2; tg++ {
				var k, d []int
				for i := range r.Pick(3000, 30000) {
					k, d = append(k, min(i, 1)), append(d, 8)
				}
				decodeOpus(r, 48000, []int{48000, 16000}[tg-1], ch, tg, k, d, -1)
			}
		}
	}})
	rates := []int{8000, 12000, 16000, 24000, 48000}
	sc = append(sc, vh.Scenario{Name: "opus", Run: func(r *vh.R) {
		for _, rate := range rates {
			for _, out := range rates {
				for ch := 1; ch <= 2; ch++ {
					for tg := 1; tg <= 2; tg++ {
						for n := 1; n <= r.Pick(3, 4); n++ {
							vh.Seqs(n, 2, func(s []int) bool {
								for f := -1; f < n; f++ {
									decodeOpus(r, rate, out, ch, tg, s, []int{8, 8, 8, 8}[:n], f)
								}
								return !r.Stop()
							})
						}
						var k, d []int
						for range 60 {
							k, d = append(k, 1), append(d, 8)
						}
						decodeOpus(r, rate, out, ch, tg, k, d, -1)
						decodeOpus(r, rate, out, ch, tg, make([]int, 60), d, -1)
					}
				}
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "opus-sizes", Run: func(r *vh.R) {
		ds := []int{1, 8, 2, 24, 4, 48, 16, 32, 40}[:r.Pick(6, 9)]
		for _, rate := range []int{8000, 48000} {
			for ch := 1; ch <= 2; ch++ {
				for tg := 1; tg <= 2; tg++ {
					for n := 1; n <= r.Pick(4, 5); n++ {
						vh.Seqs(n, len(ds), func(s []int) bool {
							var z, k []int
							for _, x := range s {
								z = append(z, ds[x])
								k = append(k, len(k)%2)
							}
							decodeOpus(r, rate, rate, ch, tg, k, z, -1)
							return !r.Stop()
						})
					}
				}
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "opus-corrupt", Run: func(r *vh.R) {
		for _, rate := range []int{48000, 8000} {
			var pk [2][]byte
			for ch := 1; ch <= 2; ch++ {
				for _, p := range encodeOpus(r, rate, ch, []int{1, 1, 1, 1}, []int{8, 8, 8, 8}, -1) {
					if stereo(p) == (ch == 2) {
						pk[ch-1] = p
					}
				}
				if pk[ch-1] == nil {
					r.Fail("encode", "no packet with %d channels at %d", ch, rate)
					return
				}
			}
			// code 3 packets without frames: not valid for any mode
			bad := [][]byte{{0x0b, 0x00}, {0x0f, 0x00}}
			for tg := 1; tg <= 2; tg++ {
				for n := 1; n <= r.Pick(6, 8); n++ {
					vh.Seqs(n, 5, func(s []int) bool {
						corrupt(r, rate, tg, s, pk, bad)
						return !r.Stop()
					})
				}
				// longer ones around the limit: a few runs of corrupt packets with something between them
				for a := 3; a <= 8; a++ {
					for b := 3; b <= 8; b++ {
						for mid := 0; mid < 5; mid++ {
							for k := 2; k <= 3; k++ {
								for first := 0; first < 5; first++ {
									h := []int{first}
									for range a {
										h = append(h, k)
									}
									h = append(h, mid)
									for i := range b {
										h = append(h, 2+(k+i)%2)
									}
									corrupt(r, rate, tg, append(h, 0, 1), pk, bad)
								}
							}
						}
					}
				}
			}
		}
	}})
	// runs of mono and stereo packets of one tone: after a change the decoder carries on as a stream
	sc = append(sc, vh.Scenario{Name: "opus-changes", Run: func(r *vh.R) {
		for _, rate := range []int{48000, 16000} {
			var pk [2][][]byte
			for ch := 1; ch <= 2; ch++ {
				var k, d []int
				for range 24 {
					k, d = append(k, 1), append(d, 8)
				}
				for _, p := range encodeOpus(r, rate, ch, k, d, -1) {
					if stereo(p) == (ch == 2) {
						pk[ch-1] = append(pk[ch-1], p)
					}
				}
				if len(pk[ch-1]) < 20 {
					r.Fail("encode", "%d packets with %d channels at %d", len(pk[ch-1]), ch, rate)
					return
				}
			}
			lens := []int{1, 2, 6}
			for _, out := range []int{rate, 48000 - rate + 16000} {
				for tg := 1; tg <= 2; tg++ {
					for n := 1; n <= r.Pick(3, 5); n++ {
						vh.Seqs(n, len(lens)*2, func(s []int) bool {
							for i := 1; i < n; i++ {
								if s[i]%2 == s[i-1]%2 {
									return true
								}
							}
							var runs []int
							for _, x := range s {
								runs = append(runs, lens[x/2])
							}
							changes(r, out, tg, s[0]%2, append(runs, 6), pk)
							return !r.Stop()
						})
					}
				}
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "channels", Run: func(r *vh.R) {
		for _, ch := range []int{-1, 0, 1, 2, 3} {
			r.Case()
			r.Step(1)
			r.State(ch)
			r.Nontrivial(ch)
			d, err := opus.Decode(&pcmSink{rate: 48000, fail: -1}, ch, log)
			if (err == nil) != (ch == 1 || ch == 2) || (d == nil) != (err != nil) {
				r.Fail("channels", "decoder with %d channels: %v", ch, err)
			}
		}
	}})
	vh.Main(vh.Check{ID: "C27", Level: "model_checking",
		Rule:      "every sequence of up to seven tone and silence frames over RTP for every registered codec; every sequence of frame sizes; Opus at all rates and channel counts; every sequence of up to six mono, stereo, corrupt and empty packets",
		Scenarios: sc})
}
