// C26: G.711 companding is exact.
package main

import (
	"bytes"
	"errors"
	"fmt"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/vh"
)

// ulaw and alaw give the standard value of a code, in 16-bit scale.
func ulaw(c byte) int {
	c = ^c
	seg, m := int(c>>4)&7, int(c)&15
	v := ((2*m+33)<<seg - 33) * 4
	if c&0x80 != 0 {
		return -v
	}
	return v
}

func alaw(c byte) int {
	c ^= 0x55
	seg, m := int(c>>4)&7, int(c)&15
	v := (2*m + 1) * 8
	if seg > 0 {
		v = (2*m + 33) << (seg - 1) * 8
	}
	if c&0x80 == 0 {
		return -v
	}
	return v
}

type law struct {
	name   string
	val    func(byte) int
	enc    func([]byte, []int16)
	dec    func([]int16, []byte)
	encS   func(msdk.PCM16Sample) []byte
	decS   func([]byte) msdk.PCM16Sample
	writer func(s *sink) (pcm func(msdk.PCM16Sample) error, code func([]byte) error, closers [2]func() error, rates [2]int)
}

var errOut, errClose = errors.New("refused"), errors.New("close failed")

// sink takes codes or samples.
type sink struct {
	codes  [][]byte
	pcm    []msdk.PCM16Sample
	fail   int
	closed int
	rate   int
}

func (s *sink) String() string  { return "sink" }
func (s *sink) SampleRate() int { return s.rate }
func (s *sink) Close() error    { s.closed++; return errClose }

type codeSink[T ~[]byte] struct{ *sink }

func (s codeSink[T]) WriteSample(b T) error {
	s.codes = append(s.codes, append([]byte{}, b...))
	if len(s.codes)-1 == s.fail {
		return errOut
	}
	for i := range b {
		b[i] = 0xee
	}
	return nil
}

type pcmSink struct{ *sink }

func (s pcmSink) WriteSample(b msdk.PCM16Sample) error {
	s.pcm = append(s.pcm, append(msdk.PCM16Sample{}, b...))
	if len(s.pcm)-1 == s.fail {
		return errOut
	}
	for i := range b {
		b[i] = 77
	}
	return nil
}

var laws = []law{
	{"u-law", ulaw, g711.EncodeULawTo, g711.DecodeULawTo,
		func(p msdk.PCM16Sample) []byte { var s g711.ULawSample; s.Encode(p); return s },
		func(b []byte) msdk.PCM16Sample { return g711.ULawSample(b).Decode() },
		func(s *sink) (func(msdk.PCM16Sample) error, func([]byte) error, [2]func() error, [2]int) {
			e, d := g711.EncodeULaw(codeSink[g711.ULawSample]{s}), g711.DecodeULaw(pcmSink{s})
			return e.WriteSample, func(b []byte) error { return d.WriteSample(b) }, [2]func() error{e.Close, d.Close}, [2]int{e.SampleRate(), d.SampleRate()}
		}},
	{"A-law", alaw, g711.EncodeALawTo, g711.DecodeALawTo,
		func(p msdk.PCM16Sample) []byte { var s g711.ALawSample; s.Encode(p); return s },
		func(b []byte) msdk.PCM16Sample { return g711.ALawSample(b).Decode() },
		func(s *sink) (func(msdk.PCM16Sample) error, func([]byte) error, [2]func() error, [2]int) {
			e, d := g711.EncodeALaw(codeSink[g711.ALawSample]{s}), g711.DecodeALaw(pcmSink{s})
			return e.WriteSample, func(b []byte) error { return d.WriteSample(b) }, [2]func() error{e.Close, d.Close}, [2]int{e.SampleRate(), d.SampleRate()}
		}},
}

func abs(a int) int { return max(a, -a) }

func companding(r *vh.R) {
	for _, l := range laws {
		vals := make([]int, 256)
		for c := range vals {
			r.Case()
			r.Step(1)
			r.State(l.name, c)
			out := []int16{0, 0, 0}
			l.dec(out, []byte{byte(c), byte(c)})
			vals[c] = int(out[0])
			if w := l.val(byte(c)); int(out[0]) != w || int(out[1]) != w || out[2] != 0 {
				r.Fail("decode", "%s code %#x decodes to %v, standard value %d", l.name, c, out, w)
			}
			if s := l.decS([]byte{byte(c)}); len(s) != 1 || int(s[0]) != l.val(byte(c)) {
				r.Fail("decode", "%s code %#x decodes to %v", l.name, c, s)
			}
			// coming back
			b := []byte{0, 0xee}
			l.enc(b, out[:1])
			back := []int16{0}
			l.dec(back, b[:1])
			if back[0] != out[0] || b[1] != 0xee {
				r.Fail("again", "%s code %#x, value %d, is encoded as %#x, value %d", l.name, c, out[0], b, back[0])
			}
		}
		// nearest returns the best distance of the code values from a sample
		best := func(v int) int {
			m := 1 << 30
			for _, x := range vals {
				m = min(m, abs(x-v))
			}
			return m
		}
		prev := -1 << 30
		for v := -32768; v < 32768; v++ {
			r.Case()
			r.Step(1)
			b := []byte{0}
			l.enc(b, []int16{int16(v)})
			d := l.val(b[0])
			if d < prev {
				r.Fail("monotone", "%s: %d is encoded as value %d, the sample below as %d", l.name, v, d, prev)
			}
			prev = d
			// samples are taken with a resolution of 14 bits: one of the four with the same upper bits is meant
			ok := false
			for i := 0; i < 4 && !ok; i++ {
				w := v&^3 + i
				ok = abs(d-w) == best(w)
			}
			if !ok {
				r.Fail("nearest", "%s: %d is encoded as %#x, value %d; the nearest value is %d away", l.name, v, b[0], d, best(v))
			}
			if s := l.encS(msdk.PCM16Sample{int16(v)}); len(s) != 1 || s[0] != b[0] {
				r.Fail("sample", "%s: %d is encoded as %x by the sample type, %x otherwise", l.name, v, s, b)
			}
			if v%16 == 0 {
				r.State(l.name, v)
			}
			r.Nontrivial(l.name, b[0])
		}
	}
}

// history writes frames of the given sizes through encoder and decoder.
func history(r *vh.R, l law, sizes []int, fail int) {
	desc := fmt.Sprintf("%s frames of %v, failing write %d", l.name, sizes, fail)
	r.Case()
	r.State(desc)
	r.Guard("panic", desc, func() {
		s := &sink{fail: fail, rate: 8000}
		enc, dec, cl, rates := l.writer(s)
		if rates != [2]int{8000, 8000} {
			r.Fail("rate", "%s: rates %v", desc, rates)
		}
		k := 0
		for i, n := range sizes {
			r.Step(2)
			in := make(msdk.PCM16Sample, n)
			for j := range in {
				in[j] = int16(k*k*31 - 20000 + k*97)
				k++
			}
			want := make([]byte, n)
			l.enc(want, in)
			keep := append(msdk.PCM16Sample{}, in...)
			err := enc(in)
			if (err != nil) != (i == fail) || err != nil && !errors.Is(err, errOut) {
				r.Fail("error", "%s: encoding frame %d returned %v", desc, i, err)
			}
			if fmt.Sprint(in) != fmt.Sprint(keep) {
				r.Fail("input", "%s: the encoder changed its input", desc)
			}
			if len(s.codes) != i+1 || !bytes.Equal(s.codes[i], want) {
				r.Fail("encode-frame", "%s: %d frames after frame %d: %x, want %x", desc, len(s.codes), i, s.codes[len(s.codes)-1], want)
				return
			}
			codes := append([]byte{}, want...)
			wp := make(msdk.PCM16Sample, n)
			for j, c := range codes {
				wp[j] = int16(l.val(c))
			}
			err = dec(codes)
			if (err != nil) != (i == fail) || err != nil && !errors.Is(err, errOut) {
				r.Fail("error", "%s: decoding frame %d returned %v", desc, i, err)
			}
			if !bytes.Equal(codes, want) {
				r.Fail("input", "%s: the decoder changed its input", desc)
			}
			if len(s.pcm) != i+1 || fmt.Sprint(s.pcm[i]) != fmt.Sprint(wp) {
				r.Fail("decode-frame", "%s: %d frames after frame %d: %v, want %v", desc, len(s.pcm), i, s.pcm[len(s.pcm)-1], wp)
				return
			}
		}
		for i, c := range cl {
			if err := c(); !errors.Is(err, errClose) || s.closed != i+1 {
				r.Fail("close", "%s: close returned %v, %d closed", desc, err, s.closed)
			}
		}
		r.Nontrivial(desc)
	})
}

func main() {
	vh.Main(vh.Check{ID: "C26", Level: "model_checking",
		Rule: "every code and every 16-bit sample of both laws against the standard's formula; every sequence of up to five (thorough: six) frame sizes through encoder and decoder, with every failing write",
		Scenarios: []vh.Scenario{
			{Name: "companding", Run: companding},
			{Name: "frames", Run: func(r *vh.R) {
				sizes := []int{0, 1, 2, 3, 7, 160, 161}
				for _, l := range laws {
					for n := 1; n <= r.Pick(5, 6); n++ {
						vh.Seqs(n, len(sizes), func(s []int) bool {
							var z []int
							for _, x := range s {
								z = append(z, sizes[x])
							}
							for fail := -1; fail < n; fail++ {
								if fail < 0 || n < 5 {
									history(r, l, z, fail)
								}
							}
							return !r.Stop()
						})
					}
				}
			}},
			{Name: "helpers", Run: func(r *vh.R) {
				for n := 0; n < 20; n++ {
					for m := 0; m < 20; m++ {
						r.Case()
						r.Step(1)
						r.State(n, m)
						src := bytes.Repeat([]byte{9}, n)
						for k, f := range []interface {
							Size() int
							CopyTo([]byte) (int, error)
						}{g711.ULawSample(src), g711.ALawSample(src)} {
							dst := make([]byte, m)
							c, err := f.CopyTo(dst)
							if f.Size() != n || m < n && (err == nil || c != 0 || !bytes.Equal(dst, make([]byte, m))) || m >= n && (err != nil || c != n || !bytes.Equal(dst[:n], src) || !bytes.Equal(dst[n:], make([]byte, m-n))) {
								r.Fail("copy", "law %d: %d bytes copied into %d: %d, %v", k, n, m, c, err)
							}
						}
						r.Nontrivial(n, m)
					}
				}
			}},
		}})
}
