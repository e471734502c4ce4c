// C13: packets of all streams of a sequence writer leave with gapless numbers and one SSRC.
package main

import (
	"errors"
	"fmt"
	"strings"
	"sync"

	prtp "github.com/pion/rtp"

	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/vh"
)

var errSink = errors.New("refused")

type pkt struct {
	h       prtp.Header
	payload string
	refused bool
}

// sink records every packet it is given. Its lock is a scheduling point within each write.
type sink struct {
	mu      sync.Mutex
	busy    bool
	overlap bool
	got     []pkt
	refuse  func(i int) bool
	dirty   bool // overwrites its arguments' fields
}

func (s *sink) String() string { return "sink" }
func (s *sink) WriteRTP(h *prtp.Header, payload []byte) (int, error) {
	vh.Atomic(func() {
		s.overlap = s.overlap || s.busy
		s.busy = true
	})
	p := pkt{h: *h, payload: string(payload)}
	s.mu.Lock()
	i := len(s.got)
	s.got = append(s.got, p)
	p.refused = s.refuse != nil && s.refuse(i)
	s.got[i].refused = p.refused
	s.mu.Unlock()
	vh.Atomic(func() { s.busy = false })
	if p.refused {
		return i % 2 * (len(payload) + 12), fmt.Errorf("packet %d: %w", i, errSink)
	}
	return len(payload), nil
}

// judge checks the sequence as it reached the sink. want looks a payload up.
func judge(fail func(key, f string, a ...any), s *sink, want map[string]prtp.Header) {
	seq := uint16(0)
	if s.overlap {
		fail("overlap", "two packets were written at the same time")
	}
	for i, p := range s.got {
		if p.h.Version != 2 || p.h.SSRC != s.got[0].h.SSRC {
			fail("header", "packet %d: version %d, SSRC %x, first packet's %x", i, p.h.Version, p.h.SSRC, s.got[0].h.SSRC)
		}
		if p.h.SequenceNumber != seq {
			fail("sequence", "packet %d has number %d, want %d", i, p.h.SequenceNumber, seq)
			return
		}
		if p.h.Padding || p.h.Extension || len(p.h.CSRC) != 0 || len(p.h.Extensions) != 0 {
			fail("header", "packet %d: %+v", i, p.h)
		}
		w, ok := want[p.payload]
		if !ok || w.PayloadType != p.h.PayloadType || w.Marker != p.h.Marker || w.Timestamp != p.h.Timestamp {
			fail("mixed-up", "packet %d: type %d marker %v time %d payload %q, written type %d marker %v time %d (known %v)",
				i, p.h.PayloadType, p.h.Marker, p.h.Timestamp, p.payload, w.PayloadType, w.Marker, w.Timestamp, ok)
		}
		if !p.refused {
			seq++
		}
	}
}

var types = []byte{0, 96, 101}
var durs = []uint32{160, 160, 160}

func main() {
	var sc []vh.Scenario
	ops := []string{"0", "0m", "0c", "1", "1c", "2m", "ev", "d0", "x0", "x1c", "xev", "1mc"} // x: refused, m: marker, c: at the current time
	sequence := func(r *vh.R, seq []int) bool {
		var hist []string
		for _, o := range seq {
			hist = append(hist, ops[o])
		}
		r.Case()
		ok := r.Guard("panic", fmt.Sprint(hist), func() {
			s := &sink{}
			refuseNext := false
			s.refuse = func(int) bool { return refuseNext }
			w := rtp.NewSeqWriter(s)
			var st []*rtp.Stream
			for i, t := range types {
				st = append(st, w.NewStreamWithDur(t, durs[i]))
			}
			want := map[string]prtp.Header{}
			for k, o := range hist {
				refuseNext = o[0] == 'x'
				if refuseNext {
					o = o[1:]
				}
				payload := []byte(fmt.Sprintf("%d-%s", k, o))
				if k == 1 {
					payload = nil
				}
				key := string(payload)
				n := len(s.got)
				var err error
				var before, after uint32
				i := -1
				switch {
				case o == "d0":
					st[0].Delay(40)
					continue
				case o == "ev":
					ev := rtp.Event{Type: 77, Timestamp: uint32(k) * 1000, Payload: payload, Marker: k%2 == 0}
					want[key] = prtp.Header{PayloadType: ev.Type, Timestamp: ev.Timestamp, Marker: ev.Marker}
					err = w.WriteEvent(&ev)
				default:
					i = int(o[0] - '0')
					m := len(o) > 1 && o[1] == 'm'
					before = st[i].GetCurrentTimestamp()
					want[key] = prtp.Header{PayloadType: types[i], Timestamp: before, Marker: m}
					if o[len(o)-1] == 'c' {
						err = st[i].WritePayloadAtCurrent(payload, m)
					} else {
						err = st[i].WritePayload(payload, m)
					}
					after = st[i].GetCurrentTimestamp()
				}
				for x := range payload {
					payload[x] = 'Z'
				}
				if (err != nil) != refuseNext || (err != nil && !errors.Is(err, errSink)) {
					r.Fail("error", "%v: step %d returned %v, refused %v", hist, k, err, refuseNext)
				}
				if len(s.got) != n+1 {
					r.Fail("packets", "%v: step %d produced %d packets", hist, k, len(s.got)-n)
				}
				if i >= 0 && refuseNext && after != before {
					r.Fail("consumed", "%v: step %d was refused, but the timestamp went from %d to %d", hist, k, before, after)
				}
			}
			judge(func(key, f string, a ...any) { r.Fail(key, "%v: %s", hist, fmt.Sprintf(f, a...)) }, s, want)
			r.Step(len(hist))
			for _, p := range s.got {
				if p.refused {
					r.Nontrivial()
					break
				}
			}
		})
		r.Trace()
		return ok && !r.Stop()
	}
	sc = append(sc, vh.Scenario{Name: "sequences", Run: func(r *vh.R) {
		for n := 1; n <= r.Pick(5, 6); n++ {
			if !vh.Seqs(n, len(ops), func(q []int) bool { return sequence(r, q) }) {
				return
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "wrap", Run: func(r *vh.R) {
		// across the end of the 16-bit numbers, refusals of every pattern of 4 around it
		for pat := 0; pat < 16; pat++ {
			for _, at := range []int{65533, 65535, 65536, 131070} {
				r.Case()
				s := &sink{}
				s.refuse = func(i int) bool { return i >= at && i < at+4 && pat&(1<<(i-at)) != 0 }
				w := rtp.NewSeqWriter(s)
				a, b := w.NewStream(0, 8000), w.NewStreamWithDur(96, 160)
				want := map[string]prtp.Header{}
				for i := 0; i < at+8; i++ {
					st, t := a, byte(0)
					if i%2 == 1 {
						st, t = b, 96
					}
					p := fmt.Sprint(i)
					want[p] = prtp.Header{PayloadType: t, Timestamp: st.GetCurrentTimestamp(), Marker: i%3 == 0}
					st.WritePayload([]byte(p), i%3 == 0)
				}
				judge(func(key, f string, a ...any) { r.Fail(key, "wrap: %s", fmt.Sprintf(f, a...)) }, s, want)
				r.Step(len(s.got))
				r.Trace()
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "payloads", Run: func(r *vh.R) {
		// payloads of every size, small and large ones one after the other
		for n := 0; n <= r.Pick(9000, 70000); n++ {
			r.Case()
			s := &sink{}
			w := rtp.NewSeqWriter(s)
			st := w.NewStream(0, 8000)
			m := rtp.NewMediaStreamOut[frame](st, 8000)
			want := map[string]prtp.Header{}
			for i, sz := range []int{n, 5000 - n%5000, n + 1} {
				p := strings.Repeat(string(rune('a'+i)), sz) + fmt.Sprint(i)
				want[p] = prtp.Header{PayloadType: 0, Timestamp: uint32(160 * i), Marker: i == 1}
				switch i {
				case 0:
					m.WriteSample(frame(p))
				default:
					st.WritePayload([]byte(p), i == 1)
				}
			}
			judge(func(key, f string, a ...any) { r.Fail(key, "payloads of %d bytes and more: %s", n, fmt.Sprintf(f, a...)) }, s, want)
			if len(s.got) != 3 {
				r.Fail("packets", "payloads of %d bytes and more: %d packets", n, len(s.got))
			}
			r.Step(3)
			if r.Stop() {
				return
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "media-stream", Run: func(r *vh.R) {
		for typ := 0; typ < 256; typ++ {
			for _, clock := range []int{8000, 16000, 48000, 90000} {
				r.Case()
				s := &sink{}
				w := rtp.NewSeqWriter(s)
				m := rtp.NewMediaStreamOut[frame](w.NewStream(byte(typ), clock), 16000)
				want := map[string]prtp.Header{}
				for i := 0; i < 4; i++ {
					p := fmt.Sprintf("p%d", i)
					want[p] = prtp.Header{PayloadType: byte(typ), Timestamp: uint32(i * clock / 50)}
					if err := m.WriteSample(frame(p)); err != nil {
						r.Fail("error", "type %d: %v", typ, err)
					}
				}
				judge(func(key, f string, a ...any) { r.Fail(key, "media stream type %d: %s", typ, fmt.Sprintf(f, a...)) }, s, want)
				if len(s.got) != 4 || m.SampleRate() != 16000 {
					r.Fail("packets", "%d packets, rate %d", len(s.got), m.SampleRate())
				}
				r.Trace()
			}
		}
	}})
	type prog struct {
		stream int // -1: raw events
		n      int
		at     bool
	}
	conc := func(name string, q, t int, progs []prog, refuse uint) {
		sc = append(sc, vh.Scenario{Name: name, Race: true, Run: func(r *vh.R) {
			r.Explore(vh.Opt{Bound: r.Pick(q, t)}, func() {
				s := &sink{}
				if refuse != 0 {
					s.refuse = func(i int) bool { return refuse&(1<<i) != 0 }
				}
				w := rtp.NewSeqWriter(s)
				var st []*rtp.Stream
				for _, t := range types {
					st = append(st, w.NewStreamWithDur(t, 160))
				}
				want := map[string]prtp.Header{}
				errs := 0
				var js []func()
				for i, p := range progs {
					js = append(js, vh.Spawn(fmt.Sprintf("w%d", i), func() {
						for k := 0; k < p.n; k++ {
							pl := fmt.Sprintf("%d/%d", i, k)
							h := prtp.Header{Marker: (i+k)%2 == 0}
							var err error
							if p.stream < 0 {
								h.PayloadType, h.Timestamp = byte(70+i), uint32(k*7+i)
								vh.Atomic(func() { want[pl] = h })
								err = w.WriteEvent(&rtp.Event{Type: h.PayloadType, Timestamp: h.Timestamp, Marker: h.Marker, Payload: []byte(pl)})
							} else {
								h.PayloadType = types[p.stream]
								vh.Atomic(func() { want[pl] = h })
								if p.at {
									err = st[p.stream].WritePayloadAtCurrent([]byte(pl), h.Marker)
								} else {
									err = st[p.stream].WritePayload([]byte(pl), h.Marker)
								}
							}
							if err != nil {
								vh.Atomic(func() { errs++ })
							}
						}
					}))
				}
				for _, j := range js {
					j()
				}
				// timestamps of a stream: each successful incrementing packet takes the next step
				next := map[byte]uint32{}
				last := map[string]int{}
				refused, total := 0, 0
				for i, p := range s.got {
					var a, k int
					fmt.Sscanf(p.payload, "%d/%d", &a, &k)
					if progs[a].stream >= 0 {
						if p.h.Timestamp != next[p.h.PayloadType] {
							vh.Fail("timestamp", "packet %d of type %d has time %d, want %d", i, p.h.PayloadType, p.h.Timestamp, next[p.h.PayloadType])
						}
						if !p.refused && !progs[a].at {
							next[p.h.PayloadType] += 160
						}
						h := want[p.payload]
						h.Timestamp = p.h.Timestamp
						want[p.payload] = h
					}
					key := fmt.Sprint(a)
					if l, ok := last[key]; ok && l >= k {
						vh.Fail("order", "writer %d: packet %d after %d", a, k, l)
					}
					last[key] = k
					if p.refused {
						refused++
					}
				}
				for _, p := range progs {
					total += p.n
				}
				if errs != refused || len(s.got) != total {
					vh.Fail("error", "%d packets refused, %d errors returned, %d of %d packets written", refused, errs, len(s.got), total)
				}
				judge(vh.Fail, s, want)
				var o string
				for _, p := range s.got {
					o += p.payload + " "
				}
				vh.Note("%s", o)
			})
		}})
	}
	conc("two-streams", -1, -1, []prog{{stream: 0, n: 3}, {stream: 1, n: 3}}, 0)
	conc("two-streams-refused", -1, -1, []prog{{stream: 0, n: 2}, {stream: 1, n: 2}}, 0b1010)
	conc("one-stream-two-writers", -1, -1, []prog{{stream: 0, n: 3}, {stream: 0, n: 3}}, 0)
	conc("one-stream-refused", -1, -1, []prog{{stream: 0, n: 2}, {stream: 0, n: 2}}, 0b0101)
	conc("stream-vs-event", -1, -1, []prog{{stream: 0, n: 2, at: true}, {stream: -1, n: 3}}, 0b100)
	conc("three-writers", -1, -1, []prog{{stream: 0, n: 2}, {stream: 1, n: 1}, {stream: -1, n: 1}}, 0b10)
	conc("three-on-one", 2, -1, []prog{{stream: 2, n: 2}, {stream: 2, n: 1}, {stream: 2, n: 2}}, 0)
	vh.Main(vh.Check{ID: "C13", Level: "model_checking",
		Rule:      "every bounded sequence of writes and refusals over three streams and raw events; every interleaving of small concurrent writers",
		Scenarios: sc})
}

type frame []byte

func (f frame) Size() int                    { return len(f) }
func (f frame) CopyTo(b []byte) (int, error) { return copy(b, f), nil }
