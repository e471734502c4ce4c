// C19: the RTP jitter handler and the read loop forward packets faithfully.
package main

import (
	"errors"
	"fmt"
	"io"
	"sort"
	"time"

	"github.com/livekit/protocol/logger"
	"github.com/pion/interceptor"
	prtp "github.com/pion/rtp"

	"github.com/livekit/media-sdk/jitter"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/vh"
)

const (
	lat = 60 * time.Millisecond
	eps = 20 * time.Microsecond
)

type got struct {
	i       int
	at      time.Duration
	content string
}

type sink struct {
	base   uint16
	got    []got
	err    func(k int) error
	errs   int
	closed int
	late   bool
}

func describe(h *prtp.Header, payload []byte) string {
	return fmt.Sprintf("v%d m%v pt%d seq%d ts%d ssrc%d csrc%v ext%q payload %q", h.Version, h.Marker, h.PayloadType, h.SequenceNumber, h.Timestamp, h.SSRC, h.CSRC, h.GetExtension(1), payload)
}

func (s *sink) String() string { return "sink" }
func (s *sink) HandleRTP(h *prtp.Header, payload []byte) error {
	var err error
	at := time.Duration(0)
	vh.Atomic(func() {
		at = vh.Since0()
		s.got = append(s.got, got{int(int16(h.SequenceNumber - s.base)), at, describe(h, payload)})
		s.late = s.late || s.closed > 0
		if s.err != nil {
			if err = s.err(len(s.got)); err != nil {
				s.errs++
			}
		}
	})
	for i := range payload { // its own copy, to do with as it likes
		payload[i] = '#'
	}
	return err
}
func (s *sink) Close() { vh.Atomic(func() { s.closed++ }) }

type tally struct {
	handle func(h *prtp.Header, p []byte)
	close  func()
}

func (t *tally) String() string { return "tally" }
func (t *tally) HandleRTP(h *prtp.Header, p []byte) error {
	vh.Atomic(func() { t.handle(h, p) })
	return nil
}
func (t *tally) Close() { vh.Atomic(t.close) }

type readerFunc func() (*prtp.Packet, interceptor.Attributes, error)

func (f readerFunc) ReadRTP() (*prtp.Packet, interceptor.Attributes, error) { return f() }

// packet is packet i of the stream, its parts in memory of its own.
func packet(base uint16, i int, copyNo int) (*prtp.Header, []byte) {
	h := &prtp.Header{Version: 2, Marker: i%2 == 0, PayloadType: []uint8{8, 0, 127, 101}[i&3], SequenceNumber: base + uint16(i), Timestamp: uint32(5000 + 160*i), SSRC: 77}
	h.CSRC = []uint32{uint32(i)}
	ext := []byte(fmt.Sprintf("x%d", i))
	h.SetExtension(1, ext)
	if i%4 == 3 { // a packet need not carry anything
		return h, []byte{}
	}
	return h, []byte(fmt.Sprintf("payload-%d", i))
}

// ref is the reference: what is buffered (with its arrival) and what was handed on.
type ref struct {
	started bool
	last    int
	buf     map[int]time.Duration
	out     []got
	// packets given up, packets dropped
	lost, dropped uint64
}

func (f *ref) contiguous(now time.Duration) {
	for {
		if _, ok := f.buf[f.last+1]; !ok {
			return
		}
		f.last++
		delete(f.buf, f.last)
		f.out = append(f.out, got{i: f.last, at: now})
	}
}

func (f *ref) push(i int, now time.Duration) {
	f.advance(now)
	switch {
	case !f.started:
		f.started, f.last = true, i
		f.out = append(f.out, got{i: i, at: now})
	case i <= f.last:
		f.dropped++
		return // late or already handed on
	default:
		if _, dup := f.buf[i]; dup {
			f.dropped++
		} else {
			f.buf[i] = now
		}
	}
	f.contiguous(now)
}

// advance releases packets behind gaps: one that waited for the latency, with all ahead of it gone.
func (f *ref) advance(now time.Duration) {
	for len(f.buf) > 0 {
		var ks []int
		for k := range f.buf {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		due := max(f.buf[ks[0]]+lat, f.out[len(f.out)-1].at)
		if due > now {
			return
		}
		f.lost += uint64(ks[0] - f.last - 1)
		f.last = ks[0]
		delete(f.buf, ks[0])
		f.out = append(f.out, got{i: ks[0], at: due})
		f.contiguous(due)
	}
}

func compare(s *sink, f *ref, what string) {
	for k := 0; k < len(s.got) || k < len(f.out); k++ {
		if k >= len(s.got) {
			vh.Fail("missing", "%s: packet %d was due at %v and was not handed on", what, f.out[k].i, f.out[k].at)
		}
		if k >= len(f.out) {
			vh.Fail("early", "%s: packet %d was handed on at %v", what, s.got[k].i, s.got[k].at)
		}
		g, o := s.got[k], f.out[k]
		if g.i != o.i {
			vh.Fail("other", "%s: packet %d was handed on, due was %d", what, g.i, o.i)
		}
		if d := g.at - o.at; d > eps || d < -eps {
			vh.Fail("when", "%s: packet %d was handed on at %v, due was %v", what, g.i, g.at, o.at)
		}
		h, p := packet(s.base, g.i, 0)
		if want := describe(h, p); g.content != want {
			vh.Fail("content", "%s: packet %d arrived as %s, was %s", what, g.i, g.content, want)
		}
	}
}

var errSink = errors.New("handler failed")

type reader struct {
	n    int
	k    int
	bad  error
	gate chan struct{}
}

func (r *reader) ReadRTP() (*prtp.Packet, interceptor.Attributes, error) {
	if r.k >= r.n {
		return nil, nil, r.bad
	}
	h, p := packet(10, r.k, 0)
	r.k++
	return &prtp.Packet{Header: *h, Payload: p}, nil, nil
}

func main() {
	var sc []vh.Scenario
	for _, base := range []uint16{10, 65533} {
		for _, d := range [][]time.Duration{{0}, {0, 35 * time.Millisecond}, {0, 25 * time.Millisecond, 61 * time.Millisecond}, {0, 40 * time.Millisecond, 61 * time.Millisecond, 3 * time.Hour}} {
			q, t := 5, 6
			if len(d) == 1 {
				q, t = 6, 7
			}
			if len(d) >= 3 {
				q, t = 4, 5
			}
			sc = append(sc, vh.Scenario{Name: fmt.Sprintf("histories-%d-delays-%d", base, len(d)), Run: func(r *vh.R) {
				r.Explore(vh.Opt{Bound: 0, Slop: 1, MaxTime: 30 * time.Hour}, func() {
					s := &sink{base: base}
					f := &ref{buf: map[int]time.Duration{}}
					// the buffer's options, in either order
					var told [2]uint64
					opts := []jitter.Option{jitter.WithLogger(logger.GetLogger()), jitter.WithPacketLossHandler(func(lost, dropped uint64) { told = [2]uint64{lost, dropped} })}
					if base > 10 {
						opts[0], opts[1] = opts[1], opts[0]
					}
					h := rtp.HandleJitter(s, opts...)
					losses := func(what string) {
						if want := [2]uint64{f.lost, f.dropped}; told != want {
							vh.Fail("losses", "%s: lost and dropped packets are %v, the loss handler was last told %v", what, want, told)
						}
					}
					vh.Settle()
					buf := make([]byte, 64)
					what := ""
					n := r.Pick(q, t)
					for k := 0; k < n; k++ {
						i := 0
						if k > 0 {
							i = vh.Choose(6, "packet")
						}
						vh.Sleep(d[vh.Choose(len(d), "delay")] + time.Duration(1013+17*k))
						vh.Settle()
						what += fmt.Sprintf(" push %d at %v", i, vh.Since0())
						hd, p := packet(base, i, k)
						pl := buf[:copy(buf, p)]
						if err := h.HandleRTP(hd, pl); err != nil {
							vh.Fail("error", "%s: %v", what, err)
						}
						// the caller reuses everything it passed
						for x := range buf {
							buf[x] = 'Z'
						}
						copy(hd.GetExtension(1), "ZZ")
						hd.CSRC[0] = 99
						hd.SequenceNumber, hd.Timestamp, hd.SSRC = 1, 2, 3
						f.push(i, vh.Since0())
						vh.Sleep(3)
						vh.Settle()
						f.advance(vh.Since0())
						compare(s, f, what)
						losses(what)
					}
					vh.Sleep(time.Second)
					vh.Settle()
					f.advance(vh.Since0())
					compare(s, f, what+" waiting")
					losses(what + " waiting")
					if s.closed != 0 {
						vh.Fail("close", "closed before Close")
					}
					h.Close()
					vh.Settle()
					if s.closed != 1 || s.late || vh.LiveCount() != 0 {
						vh.Fail("close", "%s: Close closed the handler %d times, left %v", what, s.closed, vh.Live())
					}
					vh.Note("%d", len(s.got))
				})
			}})
		}
	}
	// the wrapped handler fails on some packets
	sc = append(sc, vh.Scenario{Name: "errors", Run: func(r *vh.R) {
		r.Explore(vh.Opt{Bound: 0, Slop: 1}, func() {
			pat := vh.Choose(1<<r.Pick(4, 5), "failing packets")
			s := &sink{base: 10}
			s.err = func(k int) error {
				if pat&(1<<(k-1)) != 0 {
					return fmt.Errorf("packet %d: %w", k, errSink)
				}
				return nil
			}
			h := rtp.HandleJitter(s)
			vh.Settle()
			reported := 0
			unreported := false // an error happened that no call reported yet
			for k := 0; k < r.Pick(4, 5); k++ {
				i := 0
				if k > 0 {
					i = vh.Choose(5, "packet")
				}
				if vh.Choose(2, "wait") == 1 {
					before := s.errs
					vh.Sleep(70 * time.Millisecond)
					vh.Settle()
					unreported = unreported || s.errs > before
				}
				hd, p := packet(10, i, k)
				before := s.errs
				err := h.HandleRTP(hd, p)
				unreported = unreported || s.errs > before
				if err != nil {
					reported++
					if !errors.Is(err, errSink) {
						vh.Fail("error", "%v", err)
					}
					if reported > s.errs {
						vh.Fail("error", "%d errors reported, %d happened", reported, s.errs)
					}
					unreported = false // others may have been dropped with it
				} else if unreported {
					vh.Fail("unreported", "the handler failed and the call after it reported nothing")
				}
				vh.Sleep(1013)
			}
			h.Close()
			vh.Settle()
			if s.closed != 1 {
				vh.Fail("close", "closed %d times", s.closed)
			}
		})
	}})
	// two goroutines push, the timer runs
	conc := func(name string, q, t int, a, b []int, wait time.Duration, closer bool) {
		sc = append(sc, vh.Scenario{Name: name, Race: true, Run: func(r *vh.R) {
			r.Explore(vh.Opt{Bound: r.Pick(q, t), Slop: 1}, func() {
				s := &sink{base: 10}
				h := rtp.HandleJitter(s)
				hd, p := packet(10, 0, 0)
				h.HandleRTP(hd, p)
				vh.Settle()
				run := func(l []int) func() {
					return func() {
						for _, i := range l {
							hd, p := packet(10, i, 0)
							h.HandleRTP(hd, p)
						}
					}
				}
				j1, j2 := vh.Spawn("a", run(a)), vh.Spawn("b", run(b))
				if closer {
					vh.Spawn("close", h.Close)()
				}
				j1()
				j2()
				vh.Sleep(wait)
				vh.Settle()
				last := -1
				var o []int
				for _, g := range s.got {
					if g.i <= last {
						vh.Fail("order", "packet %d after %d", g.i, last)
					}
					last = g.i
					o = append(o, g.i)
					hd, p := packet(10, g.i, 0)
					if g.content != describe(hd, p) {
						vh.Fail("content", "packet %d arrived as %s", g.i, g.content)
					}
				}
				want := map[int]bool{0: true}
				for _, i := range append(append([]int{}, a...), b...) {
					want[i] = true
				}
				if !closer && len(o) != len(want) {
					vh.Fail("lost", "packets handed on: %v", o)
				}
				if !closer {
					h.Close()
				}
				vh.Settle()
				if s.closed != 1 || vh.LiveCount() != 0 {
					vh.Fail("close", "closed %d times, left %v", s.closed, vh.Live())
				}
				vh.Note("%v", o)
			})
		}})
	}
	conc("two-pushers", -1, -1, []int{1}, []int{2}, lat+time.Millisecond, false)
	conc("two-pushers-gap", -1, -1, []int{2, 1}, []int{3}, 2*lat, false)
	conc("pusher-vs-close", -1, -1, []int{2}, []int{1}, 2*lat, true)
	// the read loop
	sc = append(sc, vh.Scenario{Name: "loop", Run: func(r *vh.R) {
		for n := 0; n <= 6; n++ {
			for fail := 0; fail <= n; fail++ {
				for x := 0; x < 6; x++ {
					jit, end := x%2 == 1, []error{errors.New("read failed"), io.EOF, io.ErrClosedPipe}[x/2]
					r.Case()
					s := &sink{base: 10}
					s.err = func(k int) error {
						if k == fail {
							return errSink
						}
						return nil
					}
					rd := &reader{n: n, bad: end}
					var err error
					if jit {
						rr := n
						r.Explore(vh.Opt{Bound: 0, Slop: 1}, func() {
							*s = sink{base: 10, err: s.err}
							*rd = reader{n: rr, bad: rd.bad}
							err = rtp.HandleLoop(rd, rtp.HandleJitter(s))
							vh.Settle()
							if vh.LiveCount() != 0 {
								vh.Fail("leak", "%v", vh.Live())
							}
						})
					} else {
						err = rtp.HandleLoop(rd, s)
					}
					want, handled := rd.bad, n
					if fail > 0 {
						want, handled = errSink, fail
					}
					if err != want {
						r.Fail("loop-error", "%d packets, handler fails at %d: %v, want %v", n, fail, err, want)
					}
					if len(s.got) != handled || rd.k != handled {
						r.Fail("loop-stop", "%d packets, handler fails at %d: %d read, %d handled", n, fail, rd.k, len(s.got))
					}
					for i, g := range s.got {
						h, p := packet(10, i, 0)
						if g.content != describe(h, p) {
							r.Fail("loop-content", "packet %d was handed on as %s", i, g.content)
						}
					}
					if s.closed != 1 || s.late {
						r.Fail("loop-close", "%d packets, handler fails at %d: closed %d times", n, fail, s.closed)
					}
					r.Trace()
				}
			}
		}
		// a handler that must not be closed
		s := &sink{base: 10}
		rtp.HandleLoop(&reader{n: 2, bad: errSink}, rtp.NewNopCloser(s))
		if s.closed != 0 || len(s.got) != 2 {
			r.Fail("nopcloser", "closed %d times, handled %d", s.closed, len(s.got))
		}
		var f rtp.HandlerFunc
		if err := f.HandleRTP(&prtp.Header{}, nil); err != nil {
			r.Fail("nil-func", "%v", err)
		}
		f = func(h *prtp.Header, payload []byte) error { return s.HandleRTP(h, payload) }
		h, p := packet(10, 3, 0)
		if err := f.HandleRTP(h, p); err != nil || len(s.got) != 3 {
			r.Fail("func", "%v", err)
		}
		var b rtp.Buffer
		h, p = packet(10, 4, 0)
		keep := describe(h, p)
		b.WriteRTP(h, p)
		p[0] = 'X'
		h.SequenceNumber++
		if len(b) != 1 || describe(&b[0].Header, b[0].Payload) != keep {
			r.Fail("buffer", "the packet buffer shares its packets with the caller")
		}
	}})
	// a long call: as many packets as there are sequence numbers, and more
	sc = append(sc, vh.Scenario{Name: "loop-long", Run: func(r *vh.R) {
		for m := range 3 {
			// through a jitter handler; on their own; on their own with numbers in no order, some twice
			jit := m == 0
			seq := func(i int) uint16 {
				if m == 2 {
					i = i * i >> 4
				}
				return uint16(10 + i)
			}
			n := r.Pick(70000, 140000)
			r.Case()
			k, closed := 0, 0
			h := &tally{handle: func(h *prtp.Header, p []byte) {
				if h.SequenceNumber != seq(k) || h.Timestamp != uint32(160*k) || len(p) != 1 || p[0] != byte(k>>3) {
					vh.Fail("loop-content", "packet %d was handed on as %v %v", k, *h, p)
				}
				k++
			}, close: func() { closed++ }}
			i := 0
			rd := readerFunc(func() (*prtp.Packet, interceptor.Attributes, error) {
				if i == n {
					return nil, nil, io.EOF
				}
				p := &prtp.Packet{Header: prtp.Header{Version: 2, SequenceNumber: seq(i), Timestamp: uint32(160 * i)}, Payload: []byte{byte(i >> 3)}}
				i++
				return p, nil, nil
			})
			r.Explore(vh.Opt{Bound: 0, MaxSteps: 1 << 24}, func() {
				k, closed, i = 0, 0, 0
				var err error
				if jit {
					err = rtp.HandleLoop(rd, rtp.HandleJitter(h))
				} else {
					err = rtp.HandleLoop(rd, h)
				}
				if err != io.EOF || k != n || closed != 1 {
					vh.Fail("loop-stop", "%d packets: %d handed on, closed %d times, %v", n, k, closed, err)
				}
			})
			r.Trace()
			r.State(m)
			r.Nontrivial(m)
		}
	}})
	// the loop stops at the first error also while packets wait for a gap
	sc = append(sc, vh.Scenario{Name: "loop-panic", Run: func(r *vh.R) {
		r.Case()
		s := &sink{base: 10, err: func(int) error { panic("handler panics") }}
		func() {
			defer func() { recover() }()
			rtp.HandleLoop(&reader{n: 2, bad: errSink}, s)
		}()
		if s.closed != 1 {
			r.Fail("loop-close", "after a panic of the handler it was closed %d times", s.closed)
		}
	}})
	vh.Main(vh.Check{ID: "C19", Level: "model_checking",
		Rule:        "every arrival history of a bounded number of packets under virtual time compared with a reference, the caller's memory overwritten after each call; every pattern of handler errors; every read-loop run of up to 6 packets",
		Assumptions: []string{"streams of up to 6 packets, the first one arriving first"},
		Scenarios:   sc})
}
