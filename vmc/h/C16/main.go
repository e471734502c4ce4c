// C16: closing an RTP session unblocks everyone.
package main

import (
	"errors"
	"fmt"

	prtp "github.com/pion/rtp"

	"github.com/livekit/protocol/logger"

	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/vh"
)

var errClose = errors.New("close failed")

func raw(ssrc uint32, n int) []byte {
	p := &prtp.Packet{Header: prtp.Header{Version: 2, SSRC: ssrc, SequenceNumber: uint16(n)}, Payload: []byte{byte(n), byte(ssrc), 3}}
	b, err := p.Marshal()
	if err != nil {
		panic(err)
	}
	return b
}

// prog is a concurrent program: an acceptor, readers on each stream it is given, closers and writers.
type prog struct {
	in       string // one letter per packet
	early    int    // packets handled before the others start
	readers  int    // readers per stream
	reads    int    // reads per reader, 0: until an error
	accepts  int    // acceptors
	closers  int
	writer   bool
	readErr  bool // the connection breaks instead of blocking
	closeErr bool
}

func run(p prog) {
	c := newConn()
	if p.readErr {
		c.readErr = errRead
	}
	if p.closeErr {
		c.closeErr = errClose
	}
	sent := map[uint32]int{}
	for i, k := range p.in {
		c.q <- raw(uint32(k), i)
		sent[uint32(k)]++
	}
	s := rtp.NewSession(logger.GetLogger(), c)
	closing := false // some close call has begun
	closed := false  // some close call has returned
	var js []func()
	add := func(j func()) { vh.Atomic(func() { js = append(js, j) }) }
	delivered := map[string]bool{}
	reader := func(name string, st rtp.ReadStream, ssrc uint32) func() {
		return vh.Spawn(name, func() {
			last := -1
			for k := 0; p.reads == 0 || k < p.reads; k++ {
				var h prtp.Header
				buf := make([]byte, 100)
				n, err := st.ReadRTP(&h, buf)
				if err != nil {
					if !closing {
						vh.Fail("read-error", "a read failed before close: %v", err)
					}
					return
				}
				i := int(h.SequenceNumber)
				key := fmt.Sprint(ssrc, i)
				dup := false
				vh.Atomic(func() { dup = delivered[key]; delivered[key] = true })
				if n != 3 || h.SSRC != ssrc || i >= len(p.in) || uint32(p.in[i]) != ssrc || buf[0] != byte(i) || buf[1] != byte(ssrc) || buf[2] != 3 || i <= last || dup {
					vh.Fail("not-received", "a read returned %d bytes %x, header %+v, which is no (new) packet received for stream %d", n, buf[:5], h, ssrc)
				}
				last = i
			}
		})
	}
	var streams []rtp.ReadStream
	accept := func(n int) {
		for range n {
			st, ssrc, err := s.AcceptStream()
			if err != nil {
				if p.readErr && !closing && !errors.Is(err, errRead) {
					vh.Fail("accept-error", "the connection failed with %v, accept returned %v", errRead, err)
				}
				if !p.readErr && !closing {
					vh.Fail("accept-error", "an accept failed before close: %v", err)
				}
				return
			}
			vh.Atomic(func() { streams = append(streams, st) })
			for i := range p.readers {
				add(reader(fmt.Sprintf("read%d-%d", ssrc, i), st, ssrc))
			}
		}
	}
	for i := range p.accepts {
		add(vh.Spawn(fmt.Sprintf("accept%d", i), func() { accept(100) }))
	}
	if p.early > 0 {
		vh.Settle()
	}
	var errs []error
	closeOnce := func() {
		vh.Atomic(func() { closing = true })
		err := s.Close()
		vh.Atomic(func() { closed = true; errs = append(errs, err) })
	}
	for i := range p.closers {
		add(vh.Spawn(fmt.Sprintf("close%d", i), func() {
			closeOnce()
			if _, _, err := s.AcceptStream(); err == nil {
				vh.Fail("accept-after-close", "an accept after close succeeded")
			}
		}))
	}
	if p.writer {
		add(vh.Spawn("write", func() {
			w, err := s.OpenWriteStream()
			if err == nil {
				w.WriteRTP(&prtp.Header{Version: 2}, []byte{1})
			}
		}))
	}
	if p.closers == 0 {
		vh.Settle()
		closeOnce()
	}
	for i := 0; ; i++ {
		var j func()
		vh.Atomic(func() {
			if i < len(js) {
				j = js[i]
			}
		})
		if j == nil {
			break
		}
		j() // an execution in which it stays blocked is reported as a deadlock
	}
	if !closed {
		vh.Fail("close", "close did not return")
	}
	closeOnce()
	if c.closes != 1 {
		vh.Fail("close", "the connection was closed %d times", c.closes)
	}
	n := 0
	for _, e := range errs {
		if e != nil {
			n++
			if !errors.Is(e, errClose) {
				vh.Fail("close-error", "close returned %v", e)
			}
		}
	}
	if p.closeErr != (n > 0) {
		vh.Fail("close-error", "closing the connection failed: %v, %d closes returned an error", p.closeErr, n)
	}
	// afterwards nothing blocks
	for k := 0; k < 2; k++ {
		if _, _, err := s.AcceptStream(); err == nil {
			vh.Fail("accept-after-close", "an accept after close succeeded")
		}
	}
	for _, st := range streams {
		for k := 0; ; k++ {
			var h prtp.Header
			if _, err := st.ReadRTP(&h, make([]byte, 10)); err != nil {
				break
			}
			if delivered[fmt.Sprint(h.SSRC, int(h.SequenceNumber))] || k > len(p.in) {
				vh.Fail("not-received", "a read after close returns packet %d again", h.SequenceNumber)
				break
			}
			delivered[fmt.Sprint(h.SSRC, int(h.SequenceNumber))] = true
		}
	}
	if l := vh.LiveCount(); l > 1 {
		vh.Fail("goroutine", "goroutines left: %v", vh.Live())
	}
	vh.Note("%d streams, %d delivered", len(streams), len(delivered))
}

func main() {
	var sc []vh.Scenario
	add := func(name string, q, t int, p prog) {
		sc = append(sc, vh.Scenario{Name: name, Race: true, Run: func(r *vh.R) {
			r.Explore(vh.Opt{Bound: r.Pick(q, t)}, func() { run(p) })
		}})
	}
	add("idle", -1, -1, prog{closers: 2, accepts: 1})
	add("idle-two-acceptors", -1, -1, prog{closers: 1, accepts: 2})
	add("no-acceptor", -1, -1, prog{closers: 3})
	add("close-error", -1, -1, prog{closers: 2, accepts: 1, closeErr: true})
	add("one-reader", -1, -1, prog{in: "A", early: 1, readers: 1, accepts: 1, closers: 1})
	add("one-reader-two-packets", -1, -1, prog{in: "AA", readers: 1, accepts: 1, closers: 1})
	add("reader-stops", -1, -1, prog{in: "AA", readers: 1, reads: 1, accepts: 1, closers: 1})
	add("three-packets-early", -1, -1, prog{in: "AAA", early: 1, readers: 1, reads: 2, accepts: 1, closers: 1})
	add("two-readers", -1, -1, prog{in: "AA", early: 1, readers: 2, accepts: 1, closers: 1})
	add("two-streams", -1, -1, prog{in: "ABA", readers: 1, accepts: 1, closers: 1})
	add("two-closers", -1, -1, prog{in: "AA", readers: 1, accepts: 1, closers: 2})
	add("two-acceptors", -1, -1, prog{in: "A", readers: 1, accepts: 2, closers: 1})
	add("three-packets", -1, -1, prog{in: "AAA", readers: 1, accepts: 1, closers: 1})
	add("three-packets-two-reads", -1, -1, prog{in: "AAA", readers: 1, reads: 2, accepts: 1, closers: 1})
	add("two-readers-two-packets", -1, -1, prog{in: "AA", readers: 2, reads: 1, accepts: 1, closers: 1})
	add("close-after-all", -1, -1, prog{in: "AAB", readers: 1, accepts: 1})
	add("broken", -1, -1, prog{in: "A", readers: 1, accepts: 2, readErr: true})
	add("broken-vs-close", -1, -1, prog{in: "A", readers: 1, accepts: 1, closers: 2, readErr: true})
	add("writer", -1, -1, prog{in: "A", accepts: 1, closers: 1, writer: true})
	// many streams, acceptors, readers and closers, in one order only
	sc = append(sc, vh.Scenario{Name: "many", Run: func(r *vh.R) {
		r.Explore(vh.Opt{Bound: 0, Delay: true, MaxSteps: 100000}, func() {
			readers := 1 + vh.Choose(3, "readers")
			n := 1 + vh.Choose([]int{26, 20, 13}[readers-1], "streams")
			in := "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[:n]
			if vh.Choose(2, "more packets") == 1 {
				in += in
			}
			p := prog{in: in, readers: readers, accepts: 1 + vh.Choose(5, "acceptors")}
			if p.closers = 3 * vh.Choose(4, "closers"); p.closers > 0 {
				p.early = 1
			}
			p.closeErr = vh.Choose(2, "failing") == 1
			run(p)
		})
	}})
	vh.Main(vh.Check{ID: "C16", Level: "model_checking",
		Rule:        "every interleaving (up to the stated bounds) of acceptors, readers, writers and closers of a session; a blocked goroutine is a deadlock",
		Assumptions: []string{"closing the connection makes its pending and later reads fail, like net.UDPConn"},
		Scenarios:   sc})
}
