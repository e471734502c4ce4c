// Package jref holds media streams for the jitter checks and a reference of what a jitter buffer
// has to do with them, written over unbounded sequence numbers and an explicit clock.
package jref

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/pion/rtp"
)

// Depack reads sample boundaries from test packets: payload[0] is 1 on a sample start, the marker
// bit is set on the end. With PadIsSample, packets without payload are samples of their own (audio).
type Depack struct{ PadIsSample bool }

func (d *Depack) Unmarshal(b []byte) ([]byte, error) { return b, nil }
func (d *Depack) IsPartitionHead(p []byte) bool {
	if len(p) == 0 {
		return d.PadIsSample
	}
	return p[0]&1 != 0
}
func (d *Depack) IsPartitionTail(marker bool, p []byte) bool {
	if len(p) == 0 {
		return d.PadIsSample
	}
	return marker
}

// Pkt is one packet of a stream.
type Pkt struct {
	Idx        int // position; the sequence number is Base+Idx modulo 2^16
	Start, End bool
	Pad        bool
	Sample     int // index of the sample it belongs to, -1 for none
}

// Stream is a sequence of packets.
type Stream struct {
	Name    string
	Base    uint16
	Pkts    []Pkt
	Samples [][]int // packets of each sample without padding
	D       *Depack
}

// Make builds a stream from a layout: digits are samples of that many packets, p a padding packet
// between samples, q a padding packet that is a sample of its own for audio, letters a..i a sample of
// 1..9 packets with a padding packet inside after the first one, J a jump of 5000 numbers, K the smallest jump (3000
// ahead), M the largest one (32767 ahead), L the largest gap that is no jump (2999 ahead).
func Make(layout string, base uint16, padIsSample bool) *Stream {
	s := &Stream{Name: fmt.Sprintf("%s@%d", layout, base), Base: base, D: &Depack{PadIsSample: padIsSample}}
	idx := 0
	for _, c := range layout {
		switch {
		case c >= '1' && c <= '9':
			n := int(c - '0')
			var sm []int
			for i := 0; i < n; i++ {
				s.Pkts = append(s.Pkts, Pkt{Idx: idx, Start: i == 0, End: i == n-1, Sample: len(s.Samples)})
				sm = append(sm, idx)
				idx++
			}
			s.Samples = append(s.Samples, sm)
		case c >= 'a' && c <= 'i':
			n := int(c-'a') + 1
			var sm []int
			for i := 0; i < n; i++ {
				s.Pkts = append(s.Pkts, Pkt{Idx: idx, Start: i == 0, End: i == n-1, Sample: len(s.Samples)})
				sm = append(sm, idx)
				idx++
				if i == 0 {
					s.Pkts = append(s.Pkts, Pkt{Idx: idx, Pad: true, Sample: len(s.Samples)})
					idx++
				}
			}
			s.Samples = append(s.Samples, sm)
		case c == 'p':
			s.Pkts = append(s.Pkts, Pkt{Idx: idx, Pad: true, Start: padIsSample, End: padIsSample, Sample: -1})
			idx++
		case c == 'J':
			idx += 5000
		case c == 'K':
			idx += 2999
		case c == 'L':
			idx += 2998
		case c == 'M':
			idx += 32766
		}
	}
	return s
}

// Packet builds the i-th packet; copy tells repeated pushes apart in Timestamp only when asked for.
func (s *Stream) Packet(i int) *rtp.Packet {
	p := s.Pkts[i]
	pk := &rtp.Packet{Header: rtp.Header{Version: 2, PayloadType: 96, SSRC: 0x1234,
		SequenceNumber: s.Base + uint16(p.Idx), Timestamp: uint32(1000 + p.Idx*3), Marker: p.End && !p.Pad}}
	if p.Pad {
		pk.Padding = true
		pk.PaddingSize = 4
		pk.Payload = []byte{}
		return pk
	}
	f := byte(0)
	if p.Start {
		f = 1
	}
	pk.Payload = []byte{f, byte(p.Idx >> 8), byte(p.Idx), 0x5a}
	return pk
}

// Same compares a delivered packet with the i-th one of the stream.
func (s *Stream) Same(i int, got *rtp.Packet) string {
	if got == nil {
		return "nil packet"
	}
	w := s.Packet(i)
	g := got.Header
	if g.SequenceNumber != w.SequenceNumber || g.Timestamp != w.Timestamp || g.Marker != w.Marker || g.PayloadType != w.PayloadType || g.SSRC != w.SSRC || g.Padding != w.Padding {
		return fmt.Sprintf("header %+v, want %+v", g, w.Header)
	}
	if string(got.Payload) != string(w.Payload) {
		return fmt.Sprintf("payload %x, want %x", got.Payload, w.Payload)
	}
	return ""
}

// Index finds the packet with a sequence number, -1 if there is none.
func (s *Stream) Index(seq uint16) int {
	for i, p := range s.Pkts {
		if s.Base+uint16(p.Idx) == seq {
			return i
		}
	}
	return -1
}

// Out is one delivered sample.
type Out struct {
	Pkts []int // stream positions (indexes into Pkts)
	At   time.Duration
}

func (o Out) String() string { return fmt.Sprintf("%v@%v", o.Pkts, o.At) }

type held struct {
	i    int // index into Pkts
	idx  int
	arr  time.Duration
	jump bool
}

// Ref is the reference buffer. Times are offsets from the start of the run.
type Ref struct {
	S   *Stream
	Lat time.Duration
	now time.Duration

	Init bool
	prev int
	buf  []held

	Out                                                  []Out
	Pushed, Padding, Ignored, Lost, Dropped, Popped, Smp int
	Loss                                                 int // changes of lost or dropped
}

// Clone returns a copy that goes its own way.
func (r Ref) Clone() Ref {
	r.buf = append([]held(nil), r.buf...)
	r.Out = append([]Out(nil), r.Out...)
	return r
}

func (r *Ref) Size() int { return len(r.buf) }

// complete returns the number of packets of the sample the buffer starts with, 0 if not complete.
func (r *Ref) complete() int {
	if len(r.buf) == 0 || !r.S.Pkts[r.buf[0].i].Start {
		return 0
	}
	for k := range r.buf {
		if k > 0 && r.buf[k].idx != r.buf[k-1].idx+1 {
			return 0
		}
		if r.S.Pkts[r.buf[k].i].End {
			return k + 1
		}
	}
	return 0
}

func (r *Ref) dropHead() {
	h := r.buf[0]
	if r.Init && !h.jump {
		r.Lost += h.idx - r.prev - 1
	}
	r.prev = h.idx
	r.buf = r.buf[1:]
	r.Dropped++
}

// Push is a packet arriving (arr is its stated arrival time).
func (r *Ref) Push(i int, arr time.Duration) {
	p := r.S.Pkts[i]
	r.Pushed++
	if p.Pad {
		r.Padding++
		if !r.Init {
			r.Ignored++
			return
		}
	}
	late := r.Init && p.Idx <= r.prev
	dup := false
	for _, h := range r.buf {
		dup = dup || h.idx == p.Idx
	}
	if late || dup {
		if p.Pad {
			r.Ignored++
		} else {
			r.Dropped++
		}
	} else {
		before := r.prev // the last number before it
		for _, h := range r.buf {
			if h.idx < p.Idx {
				before = h.idx
			}
		}
		jump := r.Init && p.Start && p.Idx-before >= 3000
		r.buf = append(r.buf, held{i: i, idx: p.Idx, arr: arr, jump: jump})
		sort.Slice(r.buf, func(a, b int) bool { return r.buf[a].idx < r.buf[b].idx })
	}
	r.release()
}

// release hands out what is due.
func (r *Ref) release() {
	for {
		for len(r.buf) > 0 && r.complete() == 0 && r.buf[0].arr+r.Lat < r.now {
			r.dropHead()
		}
		n := r.complete()
		if n == 0 {
			return
		}
		h := r.buf[0]
		if !r.Init || h.idx == r.prev+1 || h.jump {
		} else if h.arr+r.Lat <= r.now {
			r.Lost += h.idx - r.prev - 1
		} else {
			return
		}
		r.pop(n)
	}
}

func (r *Ref) pop(n int) {
	o := Out{At: r.now}
	for _, h := range r.buf[:n] {
		if !r.S.Pkts[h.i].Pad {
			o.Pkts = append(o.Pkts, h.i)
		}
		r.prev = h.idx
	}
	r.buf = r.buf[n:]
	r.Popped += n
	r.Smp++
	r.Init = true
	if len(o.Pkts) > 0 {
		r.Out = append(r.Out, o)
	}
}

// Flush hands out every complete sample and discards the rest.
func (r *Ref) Flush() {
	for len(r.buf) > 0 {
		if n := r.complete(); n > 0 {
			h := r.buf[0]
			if r.Init && !h.jump {
				r.Lost += h.idx - r.prev - 1
			}
			r.pop(n)
		} else {
			r.dropHead()
		}
	}
}

// Advance lets time pass up to t.
func (r *Ref) Advance(t time.Duration) {
	for len(r.buf) > 0 {
		d := r.buf[0].arr + r.Lat + 1
		if d < r.now {
			d = r.now
		}
		if d > t {
			break
		}
		r.now = d
		n := len(r.buf)
		r.release()
		if len(r.buf) == n {
			break
		}
	}
	r.now = t
}

func (r *Ref) String() string {
	var b strings.Builder
	for _, h := range r.buf {
		fmt.Fprintf(&b, "%d ", h.idx)
	}
	return fmt.Sprintf("prev=%d buffered=[%s] pushed=%d lost=%d dropped=%d popped=%d", r.prev, b.String(), r.Pushed, r.Lost, r.Dropped, r.Popped)
}
