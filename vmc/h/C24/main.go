// C24: the DTMF sender emits well-formed event trains for every digit string.
package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	prtp "github.com/pion/rtp"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/dtmf"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/vh"
	"github.com/livekit/media-sdk/vh/sig"
)

const ms = time.Millisecond
const frame = 20 * ms

var errOut = errors.New("output failed")

// keypad: event code and tone pair of each digit.
var keypad = map[byte]struct {
	code byte
	f    []float64
}{
	'1': {1, []float64{697, 1209}}, '2': {2, []float64{697, 1336}}, '3': {3, []float64{697, 1477}}, 'a': {12, []float64{697, 1633}},
	'4': {4, []float64{770, 1209}}, '5': {5, []float64{770, 1336}}, '6': {6, []float64{770, 1477}}, 'b': {13, []float64{770, 1633}},
	'7': {7, []float64{852, 1209}}, '8': {8, []float64{852, 1336}}, '9': {9, []float64{852, 1477}}, 'c': {14, []float64{852, 1633}},
	'*': {10, []float64{941, 1209}}, '0': {0, []float64{941, 1336}}, '#': {11, []float64{941, 1477}}, 'd': {15, []float64{941, 1633}},
}

type af struct {
	at   time.Duration
	data msdk.PCM16Sample
}

type pkt struct {
	at   time.Duration
	h    prtp.Header
	data []byte
}

type out struct {
	rate    int
	calls   int // to either output
	failAt  int // call that fails, -1: none
	failA   int // audio call that fails
	failE   int // event call that fails
	delay   time.Duration
	audio   []af
	pkts    []pkt
	dead    bool
	afterEr bool
}

type audioOut struct {
	*out
	rtp *rtp.Stream
}

func (o audioOut) String() string  { return "audio" }
func (o audioOut) SampleRate() int { return o.rate }
func (o audioOut) WriteSample(s msdk.PCM16Sample) error {
	o.afterEr = o.afterEr || o.dead
	o.audio = append(o.audio, af{vh.Since0(), append(msdk.PCM16Sample(nil), s...)})
	if o.rtp != nil {
		if err := o.rtp.WritePayload([]byte{1, 2}, false); err != nil {
			return err
		}
	}
	if o.delay > 0 {
		vh.Sleep(o.delay)
	}
	if len(o.audio)-1 == o.failA {
		o.dead = true
		return errOut
	}
	for i := range s {
		s[i] = 77 // the buffer may be used by the writer until it returns
	}
	return nil
}

type eventOut struct{ *out }

func (o eventOut) String() string { return "events" }
func (o eventOut) WriteRTP(h *prtp.Header, data []byte) (int, error) {
	if h.PayloadType != 101 {
		return len(data), nil
	}
	o.afterEr = o.afterEr || o.dead
	o.pkts = append(o.pkts, pkt{vh.Since0(), *h, append([]byte(nil), data...)})
	if len(o.pkts)-1 == o.failE {
		o.dead = true
		return 0, errOut
	}
	return len(data), nil
}

type conf struct {
	digits       string
	audio, event bool
	rate         int
	start        uint32
	failA, failE int
	delay        time.Duration
	cancel       time.Duration // -1: never
	deadline     bool          // cancel through a deadline
	share        bool          // the audio leaves through a stream of the same RTP writer
	used         int           // packets written to the event stream before
	skip         bool          // ... as delays, without packets
}

func (c conf) String() string {
	return fmt.Sprintf("digits %q, audio %v at %d, events %v from %d, shared %v, used before %d, delays %v, failing audio write %d, event %d, cancelled at %v, slow writes %v", c.digits, c.audio, c.rate, c.event, c.start, c.share, c.used, c.skip, c.failA, c.failE, c.cancel, c.delay)
}

// plan lists the expected frames: index into digits for a tone, -1 for silence.
func plan(digits string) (fr []int) {
	add := func(v, n int) {
		for ; n > 0; n-- {
			fr = append(fr, v)
		}
	}
	for i := range digits {
		if digits[i] == 'w' {
			add(-1, 25)
		} else {
			add(i, 13)
			add(-1, 13)
		}
	}
	return fr
}

func run(c conf) {
	o := &out{rate: c.rate, failA: c.failA, failE: c.failE, delay: c.delay}
	ctx := context.Background()
	var done []func()
	switch {
	case c.cancel == 0:
		cx, cancel := context.WithCancel(ctx)
		cancel()
		ctx = cx
	case c.cancel > 0 && c.deadline:
		cx, cancel := context.WithTimeout(ctx, c.cancel)
		ctx = cx
		done = append(done, cancel)
	case c.cancel > 0:
		cx, cancel := context.WithCancel(ctx)
		ctx = cx
		done = append(done, vh.Spawn("canceller", func() { vh.Sleep(c.cancel); cancel() }))
	}
	var a msdk.Writer[msdk.PCM16Sample]
	var ev, voice *rtp.Stream
	if c.event {
		w := rtp.NewSeqWriter(eventOut{o})
		ev = w.NewStreamWithDur(101, 160)
		if c.share {
			voice = w.NewStreamWithDur(0, 160)
			for i := uint32(0); i < c.start/160; i++ {
				voice.WritePayload([]byte{0}, false)
			}
			c.start = voice.GetCurrentTimestamp()
		}
		for i := range c.used {
			if c.skip {
				ev.DelayN(1)
			} else if i%5 == 4 {
				ev.WritePayloadAtCurrent([]byte{0}, false)
				ev.DelayN(1)
			} else {
				ev.WritePayload([]byte{0}, false)
			}
		}
		o.pkts = nil
	}
	if c.audio {
		a = audioOut{o, voice}
	}
	err := dtmf.Write(ctx, a, ev, c.start, c.digits)
	ret := vh.Since0()
	for _, d := range done {
		d()
	}
	check(c, o, err, ret)
}

func check(c conf, o *out, err error, ret time.Duration) {
	fr := plan(c.digits)
	total := time.Duration(len(fr)) * frame
	if o.afterEr {
		vh.Fail("after-error", "%v: writes after the error", c)
	}
	// the expected end
	limit := total + frame
	exp := error(nil)
	failed := c.failA >= 0 && len(o.audio) > c.failA || c.failE >= 0 && len(o.pkts) > c.failE
	if failed {
		exp = errOut
	} else if c.cancel >= 0 && (c.cancel < limit || c.cancel == limit && err != nil) {
		exp = context.Canceled
		if c.deadline {
			exp = context.DeadlineExceeded
		}
	}
	if !errors.Is(err, exp) || exp == nil && err != nil {
		vh.Fail("result", "%v: returned %v at %v, want %v", c, err, ret, exp)
		return
	}
	switch exp {
	case nil:
		if ret < total || ret > limit+c.delay {
			vh.Fail("end", "%v: returned at %v, %d frames", c, ret, len(fr))
		}
	case errOut:
		if n := len(o.audio); c.failA >= 0 && (n != c.failA+1 || ret != o.audio[n-1].at+c.delay) {
			vh.Fail("at-once", "%v: audio write %d failed, returned at %v after %d", c, c.failA, ret, n)
		}
		if n := len(o.pkts); c.failE >= 0 && (n != c.failE+1 || ret != o.pkts[n-1].at) {
			vh.Fail("at-once", "%v: event %d failed, returned at %v after %d", c, c.failE, ret, n)
		}
	default:
		if ret < c.cancel || ret > c.cancel+c.delay {
			vh.Fail("at-once", "%v: returned at %v", c, ret)
		}
	}
	// how many frames there must be
	lo, hi := len(fr), len(fr)
	switch exp {
	case nil:
	case errOut:
		lo, hi = 0, len(fr) // decided by the counts above
		if c.failA >= 0 {
			lo, hi = c.failA+1, c.failA+1
		}
	default:
		hi = int(c.cancel / frame)
		lo = int((c.cancel - 1) / frame)
		if c.cancel == 0 {
			lo = 0
		}
		hi, lo = min(hi, len(fr)), min(lo, len(fr))
	}
	frames := hi
	if c.audio {
		frames = len(o.audio)
		if frames < lo || frames > hi {
			vh.Fail("frames", "%v: %d audio frames, want %d..%d", c, frames, lo, hi)
			return
		}
		for i, f := range o.audio {
			if f.at != time.Duration(i+1)*frame {
				vh.Fail("cadence", "%v: audio frame %d written at %v", c, i, f.at)
				return
			}
			if len(f.data) != c.rate/50 {
				vh.Fail("frame-size", "%v: audio frame %d has %d samples", c, i, len(f.data))
				return
			}
		}
		for i := 0; i < frames; {
			j := i
			var x []int16
			for j < frames && fr[j] == fr[i] {
				x = append(x, o.audio[j].data...)
				j++
			}
			if fr[i] < 0 {
				for _, v := range x {
					if v != 0 {
						vh.Fail("silence", "%v: frames %d..%d are not silent", c, i, j)
						return
					}
				}
			} else if j-i == 13 {
				amp, rest := sig.Fit(x, c.rate, keypad[c.digits[fr[i]]].f)
				if rest > 1e-3 || amp[0] < 500 || amp[1] < 500 || amp[0] > 2*amp[1] || amp[1] > 2*amp[0] {
					vh.Fail("tone", "%v: digit %c: tones %v of strength %v, the rest is %.4f", c, c.digits[fr[i]], keypad[c.digits[fr[i]]].f, amp, rest)
					return
				}
			} else if x[len(x)/2] == 0 && x[len(x)/2+1] == 0 && x[len(x)/2-1] == 0 {
				vh.Fail("tone", "%v: digit %c is silent", c, c.digits[fr[i]])
				return
			}
			i = j
		}
	}
	if !c.event {
		return
	}
	// the expected events
	type exev struct {
		at  int // frame
		di  int
		j   int
		end bool
	}
	var want []exev
	for i, d := range fr {
		if d < 0 {
			continue
		}
		j := 0
		for k := i - 1; k >= 0 && fr[k] == d; k-- {
			j++
		}
		e := exev{i, d, j, j == 12}
		want = append(want, e)
		if e.end {
			want = append(want, e, e)
		}
	}
	nlo, nhi := len(want), len(want)
	if exp != nil {
		nlo, nhi = 0, 0
		for _, e := range want {
			if e.at < lo {
				nlo++
			}
			if e.at < hi {
				nhi++
			}
		}
		if c.failE >= 0 && exp == errOut {
			nlo, nhi = c.failE+1, c.failE+1
		} else if exp == errOut {
			// the event of the frame that failed may be left out
			nlo = 0
			for _, e := range want {
				if e.at < c.failA {
					nlo++
				}
			}
			nhi = nlo // nothing after the failed write
		}
	}
	if n := len(o.pkts); n < nlo || n > nhi {
		vh.Fail("events", "%v: %d events, want %d..%d", c, n, nlo, nhi)
		return
	}
	var ts uint32
	prev := -1
	for i, p := range o.pkts {
		w := want[i]
		if p.at != time.Duration(w.at+1)*frame+c.delay {
			vh.Fail("event-time", "%v: event packet %d sent at %v, want frame %d", c, i, p.at, w.at)
			return
		}
		if w.di != prev {
			if prev >= 0 && int32(p.h.Timestamp-ts) < 2080 {
				vh.Fail("next-time", "%v: digit %d has timestamp %d, the one before %d", c, w.di, p.h.Timestamp, ts)
				return
			}
			if prev < 0 && (int32(p.h.Timestamp-c.start) < 0 || w.di == 0 && p.h.Timestamp != c.start) {
				vh.Fail("first-time", "%v: first timestamp %d", c, p.h.Timestamp)
				return
			}
			ts, prev = p.h.Timestamp, w.di
		} else if p.h.Timestamp != ts {
			vh.Fail("same-time", "%v: event packet %d has timestamp %d, the first %d", c, i, p.h.Timestamp, ts)
			return
		}
		if p.h.PayloadType != 101 || p.h.Marker != (w.j == 0) {
			vh.Fail("marker", "%v: event packet %d: %+v, frame %d of its digit", c, i, p.h, w.j)
			return
		}
		if len(p.data) != 4 {
			vh.Fail("payload", "%v: event packet %d: % x", c, i, p.data)
			return
		}
		code, end, dur := p.data[0], p.data[1]>>7 != 0, int(p.data[2])<<8|int(p.data[3])
		if code != keypad[c.digits[w.di]].code || end != w.end || dur != 160*(w.j+1) || p.data[1]&0x40 != 0 {
			vh.Fail("payload", "%v: event packet %d: code %d, end %v, duration %d (% x), frame %d of digit %c", c, i, code, end, dur, p.data, w.j, c.digits[w.di])
			return
		}
	}
	if exp == nil && len(o.pkts) > 0 {
		vh.Note("sent")
	}
}

func main() {
	none := conf{audio: true, event: true, rate: 8000, failA: -1, failE: -1, cancel: -1}
	var sc []vh.Scenario
	exec := func(r *vh.R, c conf, bound int) {
		r.Explore(vh.Opt{Bound: bound, MaxTime: time.Minute}, func() { run(c) })
		r.Trace()
		r.State(c.String())
		if len(c.digits) > 0 {
			r.Nontrivial(c.digits, c.cancel, c.failA, c.failE)
		}
	}
	strs := func(name, alphabet string, lo, n int, rates []int, th bool) {
		sc = append(sc, vh.Scenario{Name: name, Thorough: th, Run: func(r *vh.R) {
			for k := lo; k <= n; k++ {
				vh.Seqs(k, len(alphabet), func(s []int) bool {
					d := ""
					for _, x := range s {
						d += alphabet[x : x+1]
					}
					for _, rate := range rates {
						for m := 0; m < 4; m++ {
							if rate != rates[0] && m&1 == 0 {
								continue
							}
							c := none
							c.digits, c.rate, c.audio, c.event = d, rate, m&1 != 0, m&2 != 0
							c.start = []uint32{0, 12345, 1 << 31, 3000000000}[(len(d)+m)%4]
							exec(r, c, 0)
						}
					}
					return !r.Stop()
				})
			}
		}})
	}
	const pad = "0123456789*#abcdw"
	strs("digits", pad, 0, 2, []int{8000}, false)
	strs("rates", pad, 1, 1, []int{16000, 44100, 48000, 24000}, false)
	strs("strings", "15#w", 3, 4, []int{8000}, false)
	strs("all-three", pad, 3, 3, []int{8000}, false)
	strs("strings-5", "15#w", 5, 5, []int{8000}, true)
	strs("all-four", pad, 4, 4, []int{8000}, true)
	sc = append(sc, vh.Scenario{Name: "with-voice", Run: func(r *vh.R) {
		long := ""
		for i := range 70 {
			long += pad[i%len(pad) : i%len(pad)+1]
		}
		for _, start := range []uint32{0, 160, 16000} {
			for i := 0; i <= len(long); i++ {
				for _, share := range []bool{true, false} {
					c := none
					c.digits, c.start, c.share = long[:i], start, share
					exec(r, c, 0)
				}
			}
			vh.Seqs(2, len(pad), func(s []int) bool {
				c := none
				c.digits, c.start, c.share = string([]byte{pad[s[0]], pad[s[1]]}), start, true
				exec(r, c, 0)
				return !r.Stop()
			})
		}
	}})
	sc = append(sc, vh.Scenario{Name: "long", Run: func(r *vh.R) {
		for _, n := range []int{20, 64, 100, 255, 300, 700} {
			for p := 1; p < 6; p++ {
				d := ""
				for i := range n {
					d += []string{"w", pad[i%len(pad) : i%len(pad)+1]}[min(i%p, 1)]
				}
				for _, s := range []string{d + "5", "5" + d, strings.Repeat("0123456789*#abcd", n/16) + d} {
					c := none
					c.digits, c.start, c.audio = s, uint32(160*n), n < 200
					r.Explore(vh.Opt{Bound: 0, MaxTime: 2 * time.Hour, MaxSteps: 1 << 22}, func() { run(c) })
					r.Trace()
					r.State(s)
					r.Nontrivial(s)
				}
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "used", Run: func(r *vh.R) {
		// the event stream was used before, and is set back by less than what makes it catch up
		for _, d := range []string{"1", "w5", "#9", ""} {
			for used := 1; used <= 60; used++ {
				lo := max(0, used-25) * 160
				for _, start := range []int{lo, lo + 1, lo + 80, lo + 160, used*160 - 1, used * 160, used*160 + 1, used*160 + 4000, 1 << 30} {
					for _, skip := range []bool{false, true} {
						c := none
						c.digits, c.start, c.used, c.skip = d, uint32(start), used, skip
						exec(r, c, 0)
					}
				}
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "errors", Run: func(r *vh.R) {
		for _, d := range []string{"1w5", "w", "55"} {
			for m := 1; m < 4; m++ {
				for k := 0; k < 90; k++ {
					c := none
					c.digits, c.audio, c.event = d, m&1 != 0, m&2 != 0
					if c.audio {
						c.failA = k
						exec(r, c, 0)
						c.failA = -1
					}
					if c.event {
						c.failE = k
						exec(r, c, 0)
					}
				}
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "cancel", Run: func(r *vh.R) {
		for _, d := range []string{"1w5", "", "#"} {
			for m := 0; m < 4; m++ {
				for t := 0; t <= (len(plan(d))+2)*2; t++ {
					for _, dl := range []bool{false, true} {
						c := none
						c.digits, c.audio, c.event = d, m&1 != 0, m&2 != 0
						c.cancel, c.deadline = time.Duration(t)*frame/2, dl && t > 0
						b := 0
						if t%2 == 0 {
							b = -1
						}
						exec(r, c, b)
					}
				}
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "slow", Run: func(r *vh.R) {
		for _, dl := range []time.Duration{1, 5 * ms, 19 * ms} {
			vh.Seqs(2, len(pad), func(s []int) bool {
				c := none
				c.digits, c.delay = string([]byte{pad[s[0]], pad[s[1]]}), dl
				exec(r, c, 0)
				return !r.Stop()
			})
		}
	}})
	vh.Main(vh.Check{ID: "C24", Level: "model_checking",
		Rule:      "every digit string up to the stated length for every set of outputs, every failing write and every instant of cancellation, in virtual time, frame by frame and packet by packet",
		Scenarios: sc})
}
