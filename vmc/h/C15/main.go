// C15: an RTP session delivers each SSRC's packets in order and intact.
package main

import (
	"errors"
	"fmt"
	"strings"

	prtp "github.com/pion/rtp"

	"github.com/livekit/protocol/logger"

	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/vh"
)

// packet is one distinguishable packet; every second one has extensions and contributing sources.
func packet(ssrc uint32, n int, size int) *prtp.Packet {
	p := &prtp.Packet{Header: prtp.Header{
		Version: 2, Marker: n%2 == 1, PayloadType: []uint8{0, 127, 8, 72, 96}[n%5], SequenceNumber: uint16(65534 + n), Timestamp: uint32(1000*n) - 2000, SSRC: ssrc,
	}, Payload: make([]byte, size)}
	for i := range p.Payload {
		p.Payload[i] = byte(n*31 + i + int(ssrc))
	}
	if n%2 == 0 && size > 0 { // pion/rtp refuses some header extensions when nothing follows them
		p.CSRC = []uint32{uint32(n) + 5, 77}
		p.SetExtension(1, []byte(fmt.Sprintf("e%d-%d", ssrc, n)))
		p.SetExtension(2, []byte{byte(n)})
	}
	return p
}

// ids are the streams' sources, the extreme ones among them.
var ids = map[byte]uint32{'A': 0, 'B': 0xffffffff, 'C': 'C'}

func raw(p *prtp.Packet) []byte {
	b, err := p.Marshal()
	if err != nil {
		panic(err)
	}
	return b
}

func show(h *prtp.Header) string {
	var e strings.Builder
	for _, id := range h.GetExtensionIDs() {
		fmt.Fprintf(&e, " %d=%q", id, h.GetExtension(id))
	}
	return fmt.Sprintf("v%d p%v m%v pt%d seq%d ts%d ssrc%d csrc%v ext%v:%s", h.Version, h.Padding, h.Marker, h.PayloadType, h.SequenceNumber, h.Timestamp, h.SSRC, h.CSRC, h.Extension, e.String())
}

// read is one packet as a reader got it; headers are looked at only at the end.
type read struct {
	h prtp.Header
	b []byte
	n int
}

func readOne(s rtp.ReadStream, size int) (*read, error) {
	r := &read{b: make([]byte, size)}
	for i := range r.b {
		r.b[i] = 0xEE
	}
	n, err := s.ReadRTP(&r.h, r.b)
	if err != nil {
		return nil, err
	}
	r.n = n
	return r, nil
}

// match tells which of the packets r is, -1 if it is none of them.
func match(fail func(key, f string, a ...any), r *read, want []*prtp.Packet) int {
	for i, p := range want {
		if p.SequenceNumber != r.h.SequenceNumber || p.SSRC != r.h.SSRC {
			continue
		}
		n := min(len(r.b), len(p.Payload))
		if show(&p.Header) != show(&r.h) {
			fail("header", "packet %d: header is %s, was sent as %s", i, show(&r.h), show(&p.Header))
		}
		if r.n != n || string(r.b[:min(r.n, len(r.b))]) != string(p.Payload[:n]) {
			fail("payload", "packet %d: got %d bytes %x, sent %x", i, r.n, r.b, p.Payload)
		}
		for _, x := range r.b[min(n, len(r.b)):] {
			if x != 0xEE {
				fail("payload", "packet %d: the reader's buffer was written past the payload", i)
				break
			}
		}
		return i
	}
	fail("invented", "a packet was delivered that was not sent: %s", show(&r.h))
	return -1
}

// order checks what one reader got: received packets in order, none twice.
func order(fail func(key, f string, a ...any), got []*read, want []*prtp.Packet) []int {
	last := -1
	var ids []int
	for _, r := range got {
		i := match(fail, r, want)
		if i >= 0 && i <= last {
			fail("order", "packet %d after packet %d", i, last)
		}
		last = i
		ids = append(ids, i)
	}
	return ids
}

func vfail(key, f string, a ...any) { vh.Fail(key, f, a...) }

func newSession(c *conn) rtp.Session { return rtp.NewSession(logger.GetLogger(), c) }

type feed struct {
	ssrc  uint32
	bad   string // instead of a packet
	sizes int
}

var badPackets = map[string][]byte{
	"empty":     {},
	"short":     {0x80, 0, 0, 1},
	"truncated": raw(packet(1, 2, 4))[:15],
	"big":       append(raw(packet(1, 99, 0)), make([]byte, 1500)...),
	"zeros":     make([]byte, 1600),
	"padding":   {0xA0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1, 9, 200},
}

func main() {
	var sc []vh.Scenario

	// sequential: streams are created by their first packet; reads happen when packets are waiting
	sc = append(sc, vh.Scenario{Name: "sequences", Run: func(r *vh.R) {
		kinds := []string{"A", "B", "C", "empty", "short", "truncated", "big", "padding", "failure", "zeros"}
		for n := 1; n <= r.Pick(5, 6); n++ {
			if !vh.Seqs(n, len(kinds), func(q []int) bool {
				var hist []string
				for _, x := range q {
					hist = append(hist, kinds[x])
				}
				r.Case()
				ok := r.Guard("panic", fmt.Sprint(hist), func() {
					c := newConn()
					c.readErr = errRead
					sent := map[uint32][]*prtp.Packet{}
					var firsts []int64 // what accepts return, -1 for a failure
					for i, k := range hist {
						if k == "failure" {
							firsts = append(firsts, -1)
							c.q <- nil
							continue
						}
						if b, bad := badPackets[k]; bad {
							c.q <- b
							continue
						}
						ssrc := ids[k[0]]
						p := packet(ssrc, i, max(0, 20*i-20)) // the first ones empty
						if len(sent[ssrc]) == 0 {
							firsts = append(firsts, int64(ssrc))
						}
						sent[ssrc] = append(sent[ssrc], p)
						c.q <- raw(p)
					}
					s := newSession(c)
					st := map[uint32]rtp.ReadStream{}
					for _, want := range firsts {
						str, ssrc, err := s.AcceptStream()
						if want == -1 && errors.Is(err, errTemp) {
							continue
						}
						if err != nil || int64(ssrc) != want {
							r.Fail("accept", "%v: accepted %d %v, want %d", hist, ssrc, err, want)
							return
						}
						st[ssrc] = str
					}
					for k := 0; k < 2; k++ {
						if _, ssrc, err := s.AcceptStream(); !errors.Is(err, errRead) {
							r.Fail("accept", "%v: accepted %d, error %v", hist, ssrc, err)
							return
						}
					}
					for ssrc, want := range sent {
						var got []*read
						for i := range want {
							x, err := readOne(st[ssrc], []int{64, 3, 0, 200}[i%4])
							if err != nil {
								r.Fail("read", "%v: %v", hist, err)
								return
							}
							got = append(got, x)
						}
						ids := order(func(key, f string, a ...any) { r.Fail(key, "%v: %s", hist, fmt.Sprintf(f, a...)) }, got, want)
						if len(ids) != len(want) || ids[len(ids)-1] != len(want)-1 {
							r.Fail("lost", "%v: stream %x delivered %v", hist, ssrc, ids)
						}
					}
					s.Close()
					for ssrc := range sent {
						if _, err := readOne(st[ssrc], 10); err == nil {
							r.Fail("twice", "%v: stream %x delivers another packet", hist, ssrc)
						}
					}
				})
				r.Step(n)
				r.Trace()
				return ok && !r.Stop()
			}) {
				return
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "many-streams", Run: func(r *vh.R) {
		// n streams starting in turn, their packets in turn or one stream after the other, read in either order
		for n := 1; n <= r.Pick(70, 300); n++ {
			for x := 0; x < 4; x++ {
				r.Case()
				c := newConn()
				c.readErr = errRead
				s := newSession(c)
				want := make([][]*prtp.Packet, n)
				put := func(i, k int) {
					p := packet(uint32(i)*0x10001+3, k, 10+k)
					want[i] = append(want[i], p)
					c.q <- raw(p)
				}
				st := make([]rtp.ReadStream, n)
				for i := range n {
					put(i, 0)
					str, ssrc, err := s.AcceptStream()
					if err != nil || ssrc != uint32(i)*0x10001+3 {
						r.Fail("accept", "stream %d of %d: accepted %x %v", i, n, ssrc, err)
						return
					}
					st[i] = str
				}
				for j := range 3 * n {
					i, k := j%n, 1+j/n
					if x%2 == 1 {
						i, k = j/3, 1+j%3
					}
					put(i, k)
					if j%50 == 49 || j == 3*n-1 {
						s.AcceptStream() // until there is nothing more
					}
				}
				for j := range n {
					i := j
					if x/2 == 1 {
						i = n - 1 - j
					}
					var got []*read
					for range want[i] {
						y, err := readOne(st[i], 100)
						if err != nil {
							r.Fail("read", "stream %d of %d: %v", i, n, err)
							return
						}
						got = append(got, y)
					}
					if ids := order(func(key, f string, a ...any) { r.Fail(key, "stream %d of %d: %s", i, n, fmt.Sprintf(f, a...)) }, got, want[i]); len(ids) != 4 {
						r.Fail("lost", "stream %d of %d delivered %v", i, n, ids)
					}
				}
				s.Close()
				r.Step(4 * n)
				r.Trace()
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "sizes", Run: func(r *vh.R) {
		// every packet size around the MTU and every buffer size around the payload
		for size := 0; size <= 1520; size++ {
			r.Case()
			c := newConn()
			c.readErr = errRead
			p := packet(5, 1, max(0, size-12))
			b := raw(p)
			if size < 12 {
				b = b[:size]
			}
			c.q <- b
			c.q <- raw(packet(6, 3, 8))
			s := newSession(c)
			st, ssrc, err := s.AcceptStream()
			if want := map[bool]uint32{true: 5, false: 6}[size >= 12 && size <= rtp.MTUSize]; err != nil || ssrc != want {
				r.Fail("mtu", "packet of %d bytes: accepted stream %d %v", size, ssrc, err)
				continue
			}
			if ssrc == 5 {
				x, err := readOne(st, max(0, len(p.Payload)+[]int{0, -1, 1, -7, 100}[size%5]))
				if err != nil {
					r.Fail("read", "packet of %d bytes: %v", size, err)
					continue
				}
				match(func(key, f string, a ...any) { r.Fail(key, "packet of %d bytes: %s", size, fmt.Sprintf(f, a...)) }, x, []*prtp.Packet{p})
			}
			r.Trace()
		}
	}})
	sc = append(sc, vh.Scenario{Name: "unread", Run: func(r *vh.R) {
		// k packets while nobody reads, some reads, more packets
		for k := 1; k <= 14; k++ {
			for reads := 0; reads <= k; reads++ {
				for more := 0; more <= 6; more++ {
					r.Case()
					c := newConn()
					c.readErr = errRead
					s := newSession(c)
					var want []*prtp.Packet
					n := 0
					put := func(m int) {
						for range m {
							p := packet(9, n, 10+n)
							want = append(want, p)
							c.q <- raw(p)
							n++
						}
					}
					put(k)
					st, _, err := s.AcceptStream()
					if err != nil {
						r.Fail("accept", "%v", err)
						return
					}
					s.AcceptStream()
					var got []*read
					rd := func() {
						x, err := readOne(st, 100)
						if err != nil {
							r.Fail("read", "%v", err)
							return
						}
						got = append(got, x)
					}
					reads := min(reads, 10)
					for range reads {
						rd()
					}
					put(more)
					s.AcceptStream()
					// what must still be there: the first ten of the k, and of the others as many as fit with them
					kept := min(k, 10)
					must := kept + min(more, 10-(kept-reads))
					if k > 10 {
						must = 10 // the others may have been taken by more room, in order
					}
					for i := len(got); i < must; i++ {
						rd()
					}
					ids := order(func(key, f string, a ...any) {
						r.Fail(key, "%d packets, %d reads, %d packets: %s", k, reads, more, fmt.Sprintf(f, a...))
					}, got, want)
					for i, id := range ids {
						if id != i {
							r.Fail("lost", "%d packets, %d reads, %d packets: delivered %v", k, reads, more, ids)
							break
						}
					}
					r.Step(k + more)
					r.Trace()
				}
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "write", Run: func(r *vh.R) {
		for size := 0; size <= 1500; size++ {
			r.Case()
			c := newConn()
			s := newSession(c)
			w, err := s.OpenWriteStream()
			if err != nil {
				r.Fail("open", "%v", err)
				return
			}
			// a larger packet first: its rest must not show
			for i, p := range []*prtp.Packet{packet(1, 2, 700), packet(2, size, size), packet(3, 4, 5)} {
				if _, err := w.WriteRTP(&p.Header, p.Payload); err != nil {
					r.Fail("write", "%v", err)
				}
				if len(c.out) != i+1 || string(c.out[i]) != string(raw(p)) {
					r.Fail("write", "payload of %d bytes: %d datagrams, last one %x, want %x", len(p.Payload), len(c.out), c.out[len(c.out)-1], raw(p))
					return
				}
			}
			// the connection refuses a packet: it is reported, and the packet is not sent again
			for k := 0; k < 2; k++ {
				c.writeErr = errRead
				p := packet(1, 5+k, 11*k)
				if _, err := w.WriteRTP(&p.Header, p.Payload); !errors.Is(err, errRead) {
					r.Fail("write", "a write error is not reported: %v", err)
				}
				if len(c.out) != 4+2*k || string(c.out[3+2*k]) != string(raw(p)) {
					r.Fail("write", "a packet the connection refused was tried %d times", len(c.out)-3-2*k)
					return
				}
				c.writeErr = nil
				p = packet(3, 6+k, 7+k)
				if _, err := w.WriteRTP(&p.Header, p.Payload); err != nil || len(c.out) != 5+2*k || string(c.out[4+2*k]) != string(raw(p)) {
					r.Fail("write", "after a refused packet: %v, %d datagrams", err, len(c.out))
					return
				}
			}
			r.Trace()
		}
	}})
	// concurrent: the acceptor and the readers
	type prog struct {
		in      string // one letter per packet, lower case: malformed
		readers []int  // readers per stream, each reading the stream's number of packets divided by it
		size    int
	}
	conc := func(name string, q, t int, in string, perStream int, size int) {
		sc = append(sc, vh.Scenario{Name: name, Race: true, Run: func(r *vh.R) {
			r.Explore(vh.Opt{Bound: r.Pick(q, t)}, func() {
				c := newConn()
				sent := map[uint32][]*prtp.Packet{}
				for i, k := range in {
					switch {
					case k == 'x':
						c.q <- badPackets["short"]
					case k == 'y':
						c.q <- badPackets["big"]
					default:
						p := packet(ids[byte(k)], i, 6+i)
						sent[p.SSRC] = append(sent[p.SSRC], p)
						c.q <- raw(p)
					}
				}
				s := newSession(c)
				got := map[uint32][][]*read{}
				var accepted []uint32
				var readers []func()
				acc := vh.Spawn("accept", func() {
					for {
						st, ssrc, err := s.AcceptStream()
						if err != nil {
							return
						}
						dup := false
						vh.Atomic(func() {
							for _, a := range accepted {
								dup = dup || a == ssrc
							}
							accepted = append(accepted, ssrc)
							got[ssrc] = make([][]*read, perStream)
						})
						if dup {
							vh.Fail("accept", "stream %d was handed out twice", ssrc)
							continue
						}
						per := len(sent[ssrc]) / perStream
						for i := range perStream {
							j := vh.Spawn(fmt.Sprintf("read%d-%d", ssrc, i), func() {
								for range per {
									x, err := readOne(st, size)
									if err != nil {
										vh.Fail("read", "read failed: %v", err)
										return
									}
									vh.Atomic(func() { got[ssrc][i] = append(got[ssrc][i], x) })
								}
							})
							vh.Atomic(func() { readers = append(readers, j) })
						}
					}
				})
				vh.Settle()
				for _, j := range readers {
					j()
				}
				s.Close()
				acc()
				if len(accepted) != len(sent) {
					vh.Fail("accept", "streams handed out: %v", accepted)
				}
				for ssrc, lists := range got {
					seen := map[int]bool{}
					for _, l := range lists {
						ids := order(vfail, l, sent[ssrc])
						for _, id := range ids {
							if seen[id] {
								vh.Fail("twice", "packet %d was delivered twice", id)
							}
							seen[id] = true
						}
						vh.Note("%d:%v ", ssrc, ids)
					}
					if len(seen) != len(sent[ssrc])/perStream*perStream {
						vh.Fail("lost", "stream %d: %d of %d packets delivered", ssrc, len(seen), len(sent[ssrc]))
					}
				}
			})
		}})
	}
	conc("one-stream", -1, -1, "AAA", 1, 50)
	conc("one-stream-long", -1, -1, "AAAAA", 1, 50)
	conc("one-stream-short-buffer", -1, -1, "AAA", 1, 3)
	conc("two-streams", -1, -1, "ABAB", 1, 50)
	conc("malformed", -1, -1, "xAyABx", 1, 50)
	conc("two-streams-long", -1, -1, "ABAABB", 1, 50)
	conc("three-streams", -1, -1, "ABCAxCB", 1, 8)
	conc("six", -1, -1, "AAyAAxAA", 1, 9)
	conc("two-readers", -1, -1, "AAAA", 2, 50)
	sc = append(sc, vh.Scenario{Name: "writers", Race: true, Run: func(r *vh.R) {
		r.Explore(vh.Opt{Bound: -1}, func() {
			c := newConn()
			s := newSession(c)
			var js []func()
			want := map[string]bool{}
			for i := 0; i < 3; i++ {
				w, _ := s.OpenWriteStream()
				ps := []*prtp.Packet{packet(uint32(i), 2+i, 20+i), packet(uint32(i), 7+i, 5)}
				for _, p := range ps {
					want[string(raw(p))] = true
				}
				js = append(js, vh.Spawn(fmt.Sprintf("w%d", i), func() {
					for _, p := range ps {
						w.WriteRTP(&p.Header, p.Payload)
					}
				}))
			}
			for _, j := range js {
				j()
			}
			for _, b := range c.out {
				if !want[string(b)] {
					vh.Fail("write", "datagram %x was not written", b)
				}
				delete(want, string(b))
			}
			if len(want) != 0 {
				vh.Fail("write", "%d packets did not go out", len(want))
			}
		})
	}})
	vh.Main(vh.Check{ID: "C15", Level: "model_checking",
		Rule:        "every bounded sequence of good and malformed packets; every packet size; every interleaving of acceptor and readers on small packet sequences",
		Assumptions: []string{"the connection delivers datagrams whole, like net.UDPConn"},
		Scenarios:   sc})
}
