// C32: a negotiated call carries audio and digits from one endpoint to the other.
package main

import (
	"context"
	"fmt"
	"net/netip"
	"slices"
	"time"

	"github.com/pion/interceptor"
	prtp "github.com/pion/rtp"

	"github.com/livekit/protocol/logger"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/dtmf"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/mixer"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/sdp"
	"github.com/livekit/media-sdk/srtp"
	"github.com/livekit/media-sdk/vh"
)

const (
	frameDur = 20 * time.Millisecond
	latency  = 60 * time.Millisecond
	slack    = time.Millisecond
)

var names = []string{g711.ULawSDPName, g711.ALawSDPName, g722.SDPName}

func enable(mask int, dt bool) {
	for i, n := range names {
		msdk.CodecSetEnabled(n, mask&(1<<i) != 0)
	}
	msdk.CodecSetEnabled(dtmf.SDPName, dt)
}

// frame is audio as it reached an endpoint's listener.
type frame struct {
	s  msdk.PCM16Sample
	at time.Duration
}

// sink takes decoded audio.
type sink struct {
	rate int
	got  []frame
	tee  msdk.PCM16Writer
}

func (s *sink) String() string  { return "sink" }
func (s *sink) SampleRate() int { return s.rate }
func (s *sink) Close() error    { return nil }
func (s *sink) WriteSample(b msdk.PCM16Sample) error {
	c := slices.Clone(b)
	var tee msdk.PCM16Writer
	vh.Atomic(func() { s.got = append(s.got, frame{c, vh.Since0()}); tee = s.tee })
	if tee != nil {
		if err := tee.WriteSample(b); err != nil {
			vh.Fail("tee", "%v", err)
		}
	}
	clear(b)
	return nil
}

// sent is one packet on its way.
type sent struct {
	seq     uint16
	typ     byte
	marker  bool
	payload []byte
	wire    []byte
}

// side is one endpoint in a call.
type side struct {
	name   string
	conf   *sdp.MediaConfig
	c      *conn
	s      rtp.Session
	ws     rtp.WriteStream
	audio  *rtp.Stream
	enc    msdk.PCM16Writer
	events *rtp.Stream
	out    []sent // packets written, in order
	mute   bool
	seq    *rtp.SeqWriter
	sink   *sink
	digits []byte
	ssrcs  int
	joins  []func()
	down   bool
}

func (s *side) String() string { return s.name }

// WriteRTP sends a packet by the session and remembers it.
func (s *side) WriteRTP(h *prtp.Header, p []byte) (int, error) {
	if s.mute {
		return len(p), nil
	}
	keep := sent{seq: h.SequenceNumber, typ: h.PayloadType, marker: h.Marker, payload: slices.Clone(p)}
	n, err := s.ws.WriteRTP(h, p)
	vh.Atomic(func() {
		if len(s.c.out) == len(s.out)+1 {
			keep.wire = s.c.out[len(s.out)]
		}
		s.out = append(s.out, keep)
	})
	return n, err
}

func check(err error, what string) {
	if err != nil {
		vh.Fail("setup", "%s: %v", what, err)
	}
}

// start opens a side's session and its streams, and begins to receive.
func start(name string, conf *sdp.MediaConfig) *side {
	s := &side{name: name, conf: conf, c: newConn()}
	var err error
	if conf.Crypto != nil {
		s.s, err = srtp.NewSession(logger.GetLogger(), s.c, conf.Crypto)
		check(err, name)
	} else {
		s.s = rtp.NewSession(logger.GetLogger(), s.c)
	}
	s.ws, err = s.s.OpenWriteStream()
	check(err, name)
	codec := conf.Audio.Codec
	seq := rtp.NewSeqWriter(s)
	s.seq = seq
	s.audio = seq.NewStream(conf.Audio.Type, codec.Info().RTPClockRate)
	s.enc = codec.EncodeRTP(s.audio)
	if conf.Audio.DTMFType != 0 {
		s.events = seq.NewStream(conf.Audio.DTMFType, dtmf.SampleRate)
	}
	s.sink = &sink{rate: codec.Info().SampleRate}
	mux := rtp.NewMux(nil)
	mux.Register(conf.Audio.Type, codec.DecodeRTP(s.sink, conf.Audio.Type))
	if conf.Audio.DTMFType != 0 {
		mux.Register(conf.Audio.DTMFType, rtp.HandlerFunc(func(h *prtp.Header, p []byte) error {
			if ev, ok := dtmf.DecodeRTP(h, p); ok {
				vh.Atomic(func() { s.digits = append(s.digits, ev.Digit) })
			}
			return nil
		}))
	}
	s.joins = append(s.joins, vh.Spawn(name+"-accept", func() {
		for {
			st, _, err := s.s.AcceptStream()
			if err != nil {
				if !read(&s.down) {
					vh.Fail("accept", "%s: %v", name, err)
				}
				return
			}
			many := 0
			vh.Atomic(func() { s.ssrcs++; many = s.ssrcs })
			if many > 1 {
				vh.Fail("ssrc", "%s: %d streams", name, many)
			}
			h := rtp.HandleJitter(rtp.NewNopCloser(mux))
			j := vh.Spawn(name+"-read", func() {
				err := rtp.HandleLoop(&reader{st: st}, h)
				if !read(&s.down) {
					vh.Fail("read", "%s: %v", name, err)
				}
			})
			vh.Atomic(func() { s.joins = append(s.joins, j) })
		}
	}))
	return s
}

func read(b *bool) (v bool) {
	vh.Atomic(func() { v = *b })
	return v
}

// skip lets some packets of the call go nowhere, before it begins.
func (s *side) skip(n int) {
	s.mute = true
	for range n {
		if err := s.seq.WriteEvent(&rtp.Event{}); err != nil {
			vh.Fail("write", "%s: %v", s.name, err)
		}
	}
	s.mute = false
}

func (s *side) hangup() {
	vh.Atomic(func() { s.down = true })
	if err := s.s.Close(); err != nil {
		vh.Fail("close", "%s: %v", s.name, err)
	}
	for i := 0; i < len(s.joins); i++ {
		s.joins[i]()
	}
}

// setup of a call
type setup struct {
	ma, mb   int // codecs enabled on either side
	dta, dtb bool
	ea, eb   sdp.Encryption
}

func (s setup) String() string {
	return fmt.Sprintf("codecs %03b and %03b, DTMF %v and %v, encryption %d and %d", s.ma, s.mb, s.dta, s.dtb, s.ea, s.eb)
}

var (
	ipA = netip.MustParseAddr("10.1.2.3")
	ipB = netip.MustParseAddr("192.0.2.77")
)

// negotiate exchanges the descriptions as texts. It returns nil if there is nothing in common.
func negotiate(s setup) (a, b *sdp.MediaConfig) {
	enable(s.ma, s.dta)
	offer, err := sdp.NewOffer(ipA, 5004, s.ea)
	check(err, "offer")
	t1, err := offer.SDP.Marshal()
	check(err, "offer")
	enable(s.mb, s.dtb)
	o2, err := sdp.ParseOffer(t1)
	check(err, "offer")
	ans, cb, err := o2.Answer(ipB, 7000, s.eb)
	possible := s.ma&s.mb != 0 && (s.eb != sdp.EncryptionRequire || s.ea != sdp.EncryptionNone)
	if !possible {
		if err == nil {
			vh.Fail("impossible", "%v: answered", s)
		}
		return nil, nil
	}
	check(err, "answer")
	t2, err := ans.SDP.Marshal()
	check(err, "answer")
	enable(s.ma, s.dta)
	a2, err := sdp.ParseAnswer(t2)
	check(err, "answer")
	ca, err := a2.Apply(offer, s.ea)
	if s.ea == sdp.EncryptionRequire && s.eb == sdp.EncryptionNone {
		if err == nil {
			vh.Fail("impossible", "%v: applied", s)
		}
		return nil, nil
	}
	check(err, "apply")
	return ca, cb
}

func call(s setup) (a, b *side) {
	ca, cb := negotiate(s)
	if ca == nil {
		return nil, nil
	}
	crypt := s.ea != sdp.EncryptionNone && s.eb != sdp.EncryptionNone
	if (ca.Crypto != nil) != crypt || (cb.Crypto != nil) != crypt {
		vh.Fail("crypto", "%v: encrypting %v and %v", s, ca.Crypto != nil, cb.Crypto != nil)
	}
	if ca.Audio.Type != cb.Audio.Type || ca.Audio.DTMFType != cb.Audio.DTMFType || ca.Audio.Codec.Info().SDPName != cb.Audio.Codec.Info().SDPName {
		vh.Fail("negotiated", "%v: %+v and %+v", s, ca.Audio, cb.Audio)
	}
	return start("a", ca), start("b", cb)
}

// reader reads packets from a stream, its memory used again for every packet.
type reader struct {
	st  rtp.ReadStream
	buf [1500]byte
	p   prtp.Packet
}

func (r *reader) ReadRTP() (*prtp.Packet, interceptor.Attributes, error) {
	n, err := r.st.ReadRTP(&r.p.Header, r.buf[:])
	if err != nil {
		return nil, nil, err
	}
	r.p.Payload = r.buf[:n]
	return &r.p, nil, nil
}

// level of the audio in frame i.
func level(i int) int16 { return int16(1000 + 1500*(i%20)) }

// talk writes frame i of the side's own audio.
func (s *side) talk(i int) {
	n := s.conf.Audio.Codec.Info().SampleRate / 50
	f := make(msdk.PCM16Sample, n)
	for k := range f {
		f[k] = level(i)
		if k&8 != 0 {
			f[k] = -f[k]
		}
	}
	if err := s.enc.WriteSample(f); err != nil {
		vh.Fail("write", "%s: frame %d: %v", s.name, i, err)
	}
	clear(f)
}

// arrival of a packet at the other side
type arrival struct {
	i  int
	at time.Duration
}

// path carries packets from one side to the other, some of them not in the best way.
type path struct {
	from, to *side
	fate     func(i int) int
	next     int
	held     []struct{ i, due int }
	arrived  []arrival
}

const (
	good = iota
	lost
	twice
	late1 // after the next packet
	late2 // after the one after it
	fates
)

var fateNames = []string{"good", "lost", "twice", "after the next", "after two"}

func (p *path) deliver(i int) {
	p.to.c.put(p.from.out[i].wire)
	vh.Settle()
	p.arrived = append(p.arrived, arrival{i, vh.Since0()})
}

// carry delivers what was written since the last call.
func (p *path) carry() {
	for ; p.next < len(p.from.out); p.next++ {
		i := p.next
		if p.from.out[i].wire == nil {
			vh.Fail("datagram", "%s: packet %d did not leave as one datagram", p.from.name, i)
		}
		switch p.fate(i) {
		case good:
			p.deliver(i)
		case twice:
			p.deliver(i)
			p.deliver(i)
		case late1:
			p.held = append(p.held, struct{ i, due int }{i, i + 1})
		case late2:
			p.held = append(p.held, struct{ i, due int }{i, i + 2})
		}
		p.release(i)
	}
}

func (p *path) release(upto int) {
	for k := 0; k < len(p.held); {
		if h := p.held[k]; h.due <= upto {
			p.held = slices.Delete(p.held, k, k+1)
			p.deliver(h.i)
		} else {
			k++
		}
	}
}

// end of the path: judge what the listener got.
func (p *path) judge(what string) {
	p.release(1 << 30)
	vh.Sleep(300 * time.Millisecond)
	vh.Settle()
	// those that arrived, in order; what precedes the first arrival is gone
	var order []int
	first := map[int]time.Duration{}
	for _, a := range p.arrived {
		if len(order) > 0 && a.i < p.arrived[0].i || slices.Contains(order, a.i) {
			continue
		}
		order = append(order, a.i)
		first[a.i] = a.at
	}
	slices.Sort(order)
	typ := p.to.conf.Audio.Type
	ref := &sink{rate: p.to.sink.rate}
	dec := p.to.conf.Audio.Codec.DecodeRTP(ref, typ)
	var at []int
	var digits []byte
	for _, i := range order {
		o := p.from.out[i]
		switch {
		case o.typ == typ:
			at = append(at, i)
			if err := dec.HandleRTP(&prtp.Header{Version: 2, PayloadType: typ}, slices.Clone(o.payload)); err != nil {
				vh.Fail("decode", "%s: %v", what, err)
			}
		case o.marker && len(o.payload) == 4 && o.payload[0] < 16:
			digits = append(digits, "0123456789*#abcd"[o.payload[0]])
		}
	}
	got := p.to.sink.got
	for k := range max(len(got), len(at)) {
		if k >= len(got) {
			vh.Fail("lost", "%s, at %s: the audio of packet %d did not come out", what, p.to.name, at[k])
		}
		if k >= len(at) {
			vh.Fail("extra", "%s, at %s: %d frames came out, %d arrived", what, p.to.name, len(got), len(at))
		}
		if !slices.Equal(got[k].s, ref.got[k].s) {
			vh.Fail("audio", "%s, at %s: the audio of packet %d came out as %v, is %v", what, p.to.name, at[k], got[k].s[:8], ref.got[k].s[:8])
		}
		// it may wait for a packet missing in front of it, or of one of those it waits with
		due := first[at[k]]
		for _, i := range order {
			if i < at[k] {
				due = max(due, first[i])
			}
		}
		if t := got[k].at; t > due+latency+slack || t < first[at[k]] {
			vh.Fail("latency", "%s, at %s: the audio of packet %d, arrived at %v, came out at %v", what, p.to.name, at[k], first[at[k]], t)
		}
	}
	if string(digits) != string(p.to.digits) {
		vh.Fail("digits", "%s, at %s: digits %q, want %q", what, p.to.name, p.to.digits, digits)
	}
	vh.Note("%v %q", order, digits)
}

// frames checks that the audio is what was spoken, when nothing was lost.
func (p *path) frames(n int, what string) {
	got := p.to.sink.got
	if len(got) != n {
		vh.Fail("frames", "%s, at %s: %d frames of %d", what, p.to.name, len(got), n)
	}
	for i, f := range got {
		if len(f.s) != p.to.sink.rate/50 {
			vh.Fail("frames", "%s, at %s: frame %d has %d samples", what, p.to.name, i, len(f.s))
		}
		// the middle of the frame, filters have settled
		m := 0
		for _, v := range f.s[len(f.s)/2:] {
			m = max(m, int(v), -int(v))
		}
		if w := int(level(i)); m < w*2/3 || m > w*3/2+50 {
			vh.Fail("frames", "%s, at %s: frame %d reaches %d, was spoken at %d", what, p.to.name, i, m, w)
		}
	}
}

func lossless(int) int { return good }

func done(a, b *side) {
	a.hangup()
	b.hangup()
	vh.Settle()
	if n := vh.LiveCount(); n > 1 {
		vh.Fail("goroutine", "goroutines left: %v", vh.Live())
	}
}

// mixed tells whether out consists of the frames of x and those of y, every one of them once and in order, added up.
// The last tail frames of x may be missing.
func mixed(out []frame, x, y []frame, tail int) bool {
	type at struct{ k, i, j int }
	seen := map[at]bool{}
	var try func(a at) bool
	try = func(a at) bool {
		if a.k == len(out) {
			return a.i >= len(x)-tail && a.j == len(y)
		}
		if seen[a] {
			return false
		}
		seen[a] = true
		for d := range 4 {
			di, dj := d&1, d>>1
			if a.i+di > len(x) || a.j+dj > len(y) {
				continue
			}
			ok := true
			for n, v := range out[a.k].s {
				w := 0
				if di > 0 {
					w += int(x[a.i].s[n])
				}
				if dj > 0 {
					w += int(y[a.j].s[n])
				}
				if int(v) != max(-0x7fff, min(0x7fff, w)) {
					ok = false
					break
				}
			}
			if ok && try(at{a.k + 1, a.i + di, a.j + dj}) {
				return true
			}
		}
		return false
	}
	return try(at{})
}

func levels(f []frame) (l []int16) {
	for _, f := range f {
		l = append(l, f.s[0])
	}
	return l
}

// conference has two callers mixed, and the sum sent to a third one. The packets of the first caller have the given fates.
func conference(what string, codecs [3]int, enc sdp.Encryption, n int, start [2]time.Duration, fate func(i int) int, tail int) {
	var in, out [3]*side
	for i := range in {
		in[i], out[i] = call(setup{1 << codecs[i], 7, false, false, enc, enc})
	}
	rate := in[2].conf.Audio.Codec.Info().SampleRate
	mix := &sink{rate: rate}
	mix.tee = out[2].enc
	var opt []mixer.MixerOptions
	if tail > 0 { // room for what a missing packet holds up
		opt = append(opt, mixer.WithInputBufferFrames(10))
	}
	m, err := mixer.NewMixer(mix, frameDur, 1, opt...)
	check(err, "mixer")
	var paths []*path
	var members []*mixer.Input
	for i := range 2 {
		inp := m.NewInput()
		out[i].sink.tee = inp
		members = append(members, inp)
		f := lossless
		if i == 0 {
			f = fate
		}
		paths = append(paths, &path{from: in[i], to: out[i], fate: f})
	}
	last := &path{from: out[2], to: in[2], fate: lossless}
	const step = 5 * time.Millisecond
	for t := time.Duration(0); t < frameDur*time.Duration(n)+max(start[0], start[1])+6*frameDur; t += step {
		for i := range 2 {
			if d := t - start[i]; d >= 0 && d%frameDur == 0 && d/frameDur < time.Duration(n) {
				in[i].talk(i*10 + int(d/frameDur))
			}
			paths[i].carry()
		}
		vh.Settle()
		last.carry()
		vh.Sleep(step)
	}
	for i := range 2 {
		paths[i].judge(what)
	}
	for _, inp := range members {
		check(inp.Close(), "input")
	}
	m.Stop()
	vh.Settle()
	last.carry()
	last.judge(what)
	x, y := out[0].sink.got, out[1].sink.got
	if !mixed(mix.got, x, y, tail) {
		vh.Fail("mix", "%s: %v and %v became %v", what, levels(x), levels(y), levels(mix.got))
	}
	if len(last.arrived) != len(mix.got) || len(in[2].sink.got) != len(mix.got) {
		vh.Fail("mix", "%s: %d frames were mixed, %d left, %d were heard", what, len(mix.got), len(last.arrived), len(in[2].sink.got))
	}
	for i := range in {
		in[i].hangup()
		out[i].hangup()
	}
	vh.Settle()
	if n := vh.LiveCount(); n > 1 {
		vh.Fail("goroutine", "goroutines left: %v", vh.Live())
	}
}

func main() {
	var sc []vh.Scenario
	encs := []sdp.Encryption{sdp.EncryptionNone, sdp.EncryptionAllow, sdp.EncryptionRequire}
	sc = append(sc, vh.Scenario{Name: "settings", Run: func(r *vh.R) {
		n := r.Pick(4, 10)
		for ma := 0; ma < 8; ma++ {
			for mb := 0; mb < 8; mb++ {
				for d := 0; d < 4; d++ {
					for _, ea := range encs {
						for _, eb := range encs {
							s := setup{ma, mb, d&1 != 0, d&2 != 0, ea, eb}
							talk := false
							r.Explore(vh.Delay(0), func() {
								a, b := call(s)
								if a == nil {
									return
								}
								talk = true
								ab, ba := &path{from: a, to: b, fate: lossless}, &path{from: b, to: a, fate: lossless}
								for i := range n {
									a.talk(i)
									b.talk(i + 7)
									ab.carry()
									ba.carry()
									vh.Sleep(frameDur)
								}
								ab.judge(s.String())
								ba.judge(s.String())
								ab.frames(n, s.String())
								done(a, b)
							})
							r.State(s)
							if talk {
								r.Nontrivial(s)
							}
							if r.Stop() {
								return
							}
						}
					}
				}
			}
		}
	}})
	// every fate of every one of the first packets
	network := func(name string, codec int, enc sdp.Encryption, q, t int, pace time.Duration, skip int) {
		sc = append(sc, vh.Scenario{Name: name, Run: func(r *vh.R) {
			n := r.Pick(q, t)
			s := setup{1 << codec, 7, true, true, enc, enc}
			r.Explore(vh.Opt{Bound: 0, Delay: true, MaxSteps: 20000 + 8*skip}, func() {
				a, b := call(s)
				a.skip(skip)
				what := ""
				p := &path{from: a, to: b}
				p.fate = func(i int) int {
					if i >= n || i == 0 && skip > 0 && enc != sdp.EncryptionNone {
						return good // a receiver that joins after the wrap cannot know of it
					}
					f := vh.Choose(fates, "fate")
					what += fmt.Sprintf(" %d: %s;", i, fateNames[f])
					return f
				}
				back := &path{from: b, to: a, fate: lossless}
				for i := range n + 3 {
					a.talk(i)
					p.carry()
					if i%2 == 0 {
						b.talk(i / 2)
						back.carry()
					}
					vh.Sleep(pace)
				}
				p.judge(name + what)
				back.judge(name + what)
				back.frames((n+4)/2, name)
				done(a, b)
			})
		}})
	}
	network("network-pcmu", 0, sdp.EncryptionNone, 6, 8, frameDur, 0)
	network("network-pcma-encrypted", 1, sdp.EncryptionRequire, 5, 7, frameDur, 0)
	network("network-g722-encrypted", 2, sdp.EncryptionAllow, 5, 7, frameDur, 0)
	network("network-g722-burst", 2, sdp.EncryptionNone, 5, 7, 0, 0)
	network("network-wrap", 0, sdp.EncryptionNone, 4, 6, frameDur, 65534)
	network("network-wrap-encrypted", 0, sdp.EncryptionRequire, 4, 6, frameDur, 65534)
	// digits together with the audio of their tones, every single packet of them faulty in every way
	for _, enc := range []sdp.Encryption{sdp.EncryptionNone, sdp.EncryptionRequire} {
		sc = append(sc, vh.Scenario{Name: fmt.Sprintf("digits-%d", enc), Run: func(r *vh.R) {
			strs := []string{"1", "#d", "2w2", "0*"}
			if r.Thorough() {
				strs = append(strs, "123", "w9", "aA5", "77w7")
			}
			for _, digits := range strs {
				for codec := range names {
					if enc != sdp.EncryptionNone && codec == 1 {
						continue
					}
					for k := -1; k < 200; k++ {
						total := 0
						for f := 1; f < fates; f++ {
							r.Case()
							what := fmt.Sprintf("digits %q by %s, packet %d %s", digits, names[codec], k, fateNames[f])
							r.Explore(vh.Delay(0), func() {
								a, b := call(setup{1 << codec, 7, true, true, enc, enc})
								p := &path{from: a, to: b, fate: func(i int) int {
									if i == k {
										return f
									}
									return good
								}}
								a.talk(0)
								p.carry()
								over := false
								j := vh.Spawn("dial", func() {
									err := dtmf.Write(context.Background(), a.enc, a.events, a.audio.GetCurrentTimestamp(), digits)
									if err != nil {
										vh.Fail("dial", "%v", err)
									}
									vh.Atomic(func() { over = true })
								})
								for !read(&over) {
									vh.Sleep(frameDur / 2)
									vh.Settle()
									p.carry()
								}
								j()
								p.carry()
								p.judge(what)
								if k < 0 {
									var want []byte
									for _, d := range []byte(digits) {
										if d != 'w' && d != 'A' {
											want = append(want, d)
										}
									}
									if string(b.digits) != string(want) {
										vh.Fail("digits", "%s: got %q", what, b.digits)
									}
								}
								total = len(a.out)
								done(a, b)
							})
							if r.Stop() {
								return
							}
							if k < 0 {
								break
							}
						}
						r.State(digits, codec, k)
						r.Nontrivial(digits, codec, k)
						if k >= total-1 {
							break
						}
						if !r.Thorough() && k >= 0 {
							k += len(digits) // every second or third one
						}
					}
				}
			}
		}})
	}
	// two callers mixed and heard by a third
	for _, enc := range []sdp.Encryption{sdp.EncryptionNone, sdp.EncryptionRequire} {
		sc = append(sc, vh.Scenario{Name: fmt.Sprintf("conference-%d", enc), Run: func(r *vh.R) {
			n := r.Pick(10, 14)
			for _, codecs := range [][3]int{{0, 0, 0}, {0, 1, 1}, {1, 0, 0}, {2, 2, 2}} {
				for d0 := range r.Pick(5, 9) {
					for d1 := range r.Pick(5, 9) {
						start := [2]time.Duration{time.Duration(d0) * 5 * time.Millisecond, time.Duration(d1) * 5 * time.Millisecond}
						for k := range n - 2 { // what comes late has packets after it
							for f := good; f < fates; f++ {
								if k > 0 && f == good {
									continue
								}
								tail := 5
								if f == good || f == twice {
									tail = 0
								}
								what := fmt.Sprintf("codecs %v, starting at %v, packet %d %s", codecs, start, k, fateNames[f])
								r.Explore(vh.Delay(0), func() {
									conference(what, codecs, enc, n, start, func(i int) int {
										if i == k {
											return f
										}
										return good
									}, tail)
								})
								r.State(what)
								r.Nontrivial(what)
								if r.Stop() {
									return
								}
							}
						}
					}
				}
			}
		}})
	}
	// schedules of a short call
	schedules := func(name string, codec int, enc sdp.Encryption, q, t vh.Opt) {
		sc = append(sc, vh.Scenario{Name: name, Race: true, Run: func(r *vh.R) {
			o := q
			if r.Thorough() {
				o = t
			}
			r.Explore(o, func() {
				a, b := call(setup{1 << codec, 1 << codec, false, false, enc, enc})
				j1 := vh.Spawn("talk-a", func() { a.talk(0); a.talk(1) })
				j2 := vh.Spawn("talk-b", func() { b.talk(0) })
				j1()
				j2()
				ab, ba := &path{from: a, to: b}, &path{from: b, to: a}
				for i := range a.out { // all at once
					b.c.put(a.out[i].wire)
					ab.arrived = append(ab.arrived, arrival{i, vh.Since0()})
				}
				a.c.put(b.out[0].wire)
				ba.arrived = append(ba.arrived, arrival{0, vh.Since0()})
				ab.judge(name)
				ba.judge(name)
				done(a, b)
			})
		}})
	}
	schedules("schedules", 0, sdp.EncryptionNone, vh.Delay(2), vh.Delay(3))
	schedules("schedules-encrypted", 0, sdp.EncryptionRequire, vh.Delay(1), vh.Delay(2))
	vh.Main(vh.Check{ID: "C32", Level: "model_checking",
		Rule:        "every pair of codec, DTMF and encryption settings; every assignment of fates (good, lost, twice, late) to the first packets of a call; every single faulty packet while digits are dialled; schedules of short calls",
		Assumptions: []string{"the network keeps datagrams whole and delays them by at most two packets"},
		Scenarios:   sc})
}
