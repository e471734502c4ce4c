// C17: SRTP sessions deliver what was sent, and nothing that was tampered with.
package main

import (
	"bytes"
	"fmt"
	"io"
	"slices"
	"time"

	"github.com/pion/logging"
	prtp "github.com/pion/rtp"

	"github.com/livekit/protocol/logger"

	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/srtp"
	"github.com/livekit/media-sdk/vh"
)

var profiles = []srtp.ProtectionProfile{
	"AES_CM_128_HMAC_SHA1_80", "AES_CM_128_HMAC_SHA1_32", "AES_256_CM_HMAC_SHA1_80", "AES_256_CM_HMAC_SHA1_32",
}
var keyLens = []int{16, 16, 32, 32}
var tags = []int{10, 4, 10, 4}

type setting struct {
	prof  int
	mki   int // length
	other bool
}

func (s setting) String() string {
	return fmt.Sprintf("%s, identifier of %d bytes", profiles[s.prof], s.mki)
}

func fill(n int, seed byte) []byte {
	b := make([]byte, n)
	for i := range b {
		seed = seed*5 + 113
		b[i] = seed ^ byte(i>>3)
	}
	return b
}

var quiet = &logging.DefaultLoggerFactory{Writer: io.Discard, DefaultLogLevel: logging.LogLevelDisabled}

// config makes the configuration of one side.
func config(s setting, left bool) *srtp.Config {
	p, err := profiles[s.prof].Parse()
	if err != nil {
		vh.Fail("profile", "%v", err)
	}
	n := keyLens[s.prof]
	k1, s1, k2, s2 := fill(n, 1), fill(14, 2), fill(n, 3), fill(14, 4)
	if s.other {
		k1, k2 = fill(n, 5), fill(n, 6)
	}
	c := &srtp.Config{Profile: p, LoggerFactory: quiet, Keys: srtp.SessionKeys{LocalMasterKey: k1, LocalMasterSalt: s1, RemoteMasterKey: k2, RemoteMasterSalt: s2}}
	if !left {
		c.Keys = srtp.SessionKeys{LocalMasterKey: k2, LocalMasterSalt: s2, RemoteMasterKey: k1, RemoteMasterSalt: s1}
	}
	if s.mki > 0 {
		m1, m2 := fill(s.mki, 7), fill(s.mki, 8)
		if !left {
			m1, m2 = m2, m1
		}
		c.LocalOptions = []srtp.ContextOption{srtp.MasterKeyIndicator(m1)}
		c.RemoteOptions = []srtp.ContextOption{srtp.MasterKeyIndicator(m2)}
	}
	return c
}

type packet struct {
	h       prtp.Header
	payload []byte
}

func (p packet) String() string {
	return fmt.Sprintf("packet %d of %d, type %d, marker %v, time %d, sources %v, extensions %v, %d bytes", p.h.SequenceNumber, p.h.SSRC, p.h.PayloadType, p.h.Marker, p.h.Timestamp, p.h.CSRC, exts(&p.h), len(p.payload))
}

func exts(h *prtp.Header) (out []string) {
	for _, id := range h.GetExtensionIDs() {
		out = append(out, fmt.Sprintf("%d:%x", id, h.GetExtension(id)))
	}
	slices.Sort(out)
	return out
}

func equal(a, b packet) bool {
	return a.h.Version == b.h.Version && a.h.Marker == b.h.Marker && a.h.PayloadType == b.h.PayloadType && a.h.SequenceNumber == b.h.SequenceNumber &&
		a.h.Timestamp == b.h.Timestamp && a.h.SSRC == b.h.SSRC && slices.Equal(a.h.CSRC, b.h.CSRC) && a.h.Extension == b.h.Extension &&
		(!a.h.Extension || a.h.ExtensionProfile == b.h.ExtensionProfile) && slices.Equal(exts(&a.h), exts(&b.h)) && bytes.Equal(a.payload, b.payload)
}

func read(b *bool) (v bool) {
	vh.Atomic(func() { v = *b })
	return v
}

// end is a session with everything it received.
type end struct {
	c      *conn
	s      rtp.Session
	w      rtp.WriteStream
	buf    int
	got    map[uint32][]packet
	joins  []func()
	closed bool
}

func open(s setting, left bool, buf int) *end {
	e := &end{c: newConn(), buf: buf, got: map[uint32][]packet{}}
	var err error
	if e.s, err = srtp.NewSession(logger.GetLogger(), e.c, config(s, left)); err != nil {
		vh.Fail("open", "%v: %v", s, err)
	}
	if e.w, err = e.s.OpenWriteStream(); err != nil {
		vh.Fail("open", "%v: %v", s, err)
	}
	return e
}

// serve accepts streams and reads them all, with one buffer per stream.
func (e *end) serve() {
	j := vh.Spawn("accept", func() {
		for {
			st, ssrc, err := e.s.AcceptStream()
			if err != nil {
				if !read(&e.closed) {
					vh.Fail("accept", "accept failed: %v", err)
				}
				return
			}
			dup := false
			vh.Atomic(func() { _, dup = e.got[ssrc]; e.got[ssrc] = nil })
			if dup {
				vh.Fail("accept", "stream %d was accepted twice", ssrc)
			}
			j := vh.Spawn(fmt.Sprint("read", ssrc), func() {
				buf := make([]byte, e.buf)
				var h prtp.Header
				for {
					n, err := st.ReadRTP(&h, buf)
					if err != nil {
						if !read(&e.closed) {
							vh.Fail("read", "stream %d: %v", ssrc, err)
						}
						return
					}
					if h.SSRC != ssrc {
						vh.Fail("stream", "stream %d read a packet of %d", ssrc, h.SSRC)
					}
					// the header is kept as it is, the buffer is used again
					p := packet{h, slices.Clone(buf[:n])}
					vh.Atomic(func() { e.got[ssrc] = append(e.got[ssrc], p) })
				}
			})
			vh.Atomic(func() { e.joins = append(e.joins, j) })
		}
	})
	e.joins = append(e.joins, j)
}

func (e *end) write(p packet) []byte {
	h, payload := p.h.Clone(), slices.Clone(p.payload)
	n := 0
	vh.Atomic(func() { n = len(e.c.out) })
	if _, err := e.w.WriteRTP(&h, payload); err != nil {
		vh.Fail("write", "%v: %v", p, err)
	}
	if !equal(packet{h, payload}, p) {
		vh.Fail("caller", "writing %v changed the caller's data to %v", p, packet{h, payload})
	}
	var out []byte
	vh.Atomic(func() {
		if len(e.c.out) > n {
			out = e.c.out[n]
		}
	})
	return out
}

func (e *end) close() {
	vh.Settle()
	vh.Atomic(func() { e.closed = true })
	if err := e.s.Close(); err != nil {
		vh.Fail("close", "%v", err)
	}
	for _, j := range e.joins {
		j()
	}
}

func (e *end) judge(want map[uint32][]packet, what string) {
	vh.Settle()
	for ssrc, ps := range want {
		got := e.got[ssrc]
		for i := range max(len(ps), len(got)) {
			switch {
			case i >= len(got):
				vh.Fail("lost", "%s: %v was not delivered", what, ps[i])
			case i >= len(ps):
				vh.Fail("forged", "%s: delivered %v after all others", what, got[i])
			case !equal(ps[i], got[i]):
				vh.Fail("delivered", "%s: delivered %v %x instead of %v %x", what, got[i], head(got[i].payload), ps[i], head(ps[i].payload))
			}
		}
	}
	for ssrc, ps := range e.got {
		if len(want[ssrc]) == 0 && len(ps) > 0 {
			vh.Fail("forged", "%s: delivered %v", what, ps[0])
		}
	}
}

func head(b []byte) []byte { return b[:min(len(b), 20)] }

// secret reports whether any part of the payload can be read in the datagram.
func secret(wire, payload []byte) bool {
	for i := 0; i+8 <= len(payload); i++ {
		if bytes.Contains(wire, payload[i:i+8]) {
			return false
		}
	}
	return true
}

// shapes of headers
func header(shape int, seq uint16, ssrc uint32) prtp.Header {
	h := prtp.Header{Version: 2, SequenceNumber: seq, SSRC: ssrc, Timestamp: uint32(seq)*160 + 4294967000, PayloadType: uint8(shape*37) & 127}
	switch shape {
	case 1:
		h.Marker = true
		h.PayloadType = 127
	case 2:
		h.CSRC = []uint32{1, 0xffffffff, uint32(seq)}
	case 3:
		h.SetExtension(1, []byte{byte(seq), 2, 3})
		h.SetExtension(5, []byte{byte(seq) ^ 255})
	case 4:
		h.CSRC = slices.Repeat([]uint32{uint32(seq) << 16}, 15)
		h.Extension, h.ExtensionProfile = true, 0x1000
		h.SetExtension(20, fill(40, byte(seq)))
		h.SetExtension(3, []byte{byte(seq)})
	case 5:
		h.Extension, h.ExtensionProfile = true, 0x1234
		h.SetExtension(0, fill(8, byte(seq)))
	}
	return h
}

const nShapes = 6
const wire = 1500 // datagram limit of the sessions

// transparent sends every shape with some sizes, in both directions, across the sequence wrap.
func transparent(name string, sizes []int, thorough bool) vh.Scenario {
	return vh.Scenario{Name: name, Thorough: thorough, Run: func(r *vh.R) {
		for prof := range profiles {
			for _, mki := range []int{0, 1, 4, 128} {
				s := setting{prof: prof, mki: mki}
				for shape := range nShapes {
					for start := 0; start < len(sizes) && !r.Stop(); start++ {
						r.Explore(vh.Delay(0), func() {
							l, g := open(s, true, wire), open(s, false, wire)
							l.serve()
							g.serve()
							wantL, wantG := map[uint32][]packet{}, map[uint32][]packet{}
							seq := uint16(65533)
							for k := 0; k < 6; k++ {
								n := sizes[(start+k*k)%len(sizes)]
								for _, dir := range []bool{true, false} {
									ssrc := uint32(100 + k%2)
									sh := (shape + k/2) % nShapes
									p := packet{header(sh, seq, ssrc), fill(n, byte(k+shape))}
									hn := p.h.MarshalSize()
									if hn+n+mki+tags[prof] > wire {
										p.payload = p.payload[:wire-hn-mki-tags[prof]]
									}
									from, to, want := l, g, wantG
									if !dir {
										from, to, want = g, l, wantL
									}
									out := from.write(p)
									if len(out) != hn+len(p.payload)+mki+tags[prof] || !secret(out[hn:hn+len(p.payload)], p.payload) {
										vh.Fail("wire", "%v: %v leaves as %x", s, p, head(out))
									}
									to.c.put(out)
									want[ssrc] = append(want[ssrc], p)
								}
								seq++
							}
							l.judge(wantL, s.String())
							g.judge(wantG, s.String())
							l.close()
							g.close()
						})
						r.State(prof, mki, shape, start)
						r.Nontrivial(prof, mki, shape, start)
					}
				}
			}
		}
	}}
}

// fits reads payloads with buffers that just fit them.
func fits(r *vh.R) {
	for _, n := range []int{0, 1, 2, 11, 12, 13, 100, 1200, 1460, 1478} {
		for extra := 0; extra < 3; extra++ {
			for shape := range nShapes {
				for _, mki := range []int{0, 4} {
					s := setting{prof: (n + extra) % 4, mki: mki}
					r.Explore(vh.Delay(0), func() {
						l, g := open(s, true, wire), open(s, false, n+extra)
						g.serve()
						want := map[uint32][]packet{}
						for k := 0; k < 3; k++ {
							p := packet{header(shape, uint16(k+10), 7), fill(n, byte(k))}
							g.c.put(l.write(p))
							want[7] = append(want[7], p)
						}
						g.judge(want, fmt.Sprintf("%v, buffer of %d", s, n+extra))
						l.close()
						g.close()
					})
					r.State(n, extra, shape, mki)
					r.Nontrivial(n, extra, shape, mki)
				}
			}
		}
		if r.Stop() {
			return
		}
	}
}

// attack replaces, precedes or follows one of three packets by a tampered copy.
func attack(r *vh.R, s setting, n, shape int, mutations func(b []byte, f func(what string, b []byte))) {
	run := func(at int, mode int, what string, b []byte, ps []packet, wires [][]byte) {
		r.Explore(vh.Delay(0), func() {
			g := open(s, false, wire)
			g.serve()
			want := map[uint32][]packet{}
			for k, p := range ps {
				if k == at && mode != 2 {
					g.c.put(b)
				}
				if k != at || mode != 0 {
					g.c.put(wires[k])
					want[p.h.SSRC] = append(want[p.h.SSRC], p)
				}
				if k == at && mode == 2 {
					g.c.put(b)
				}
			}
			g.judge(want, fmt.Sprintf("%v: packet %d %s the tampered copy (%s)", s, at, []string{"replaced by", "preceded by", "followed by"}[mode], what))
			g.close()
		})
	}
	var ps []packet
	var wires [][]byte
	r.Explore(vh.Delay(0), func() {
		l := open(s, true, wire)
		ps, wires = nil, nil
		for k := 0; k < 3; k++ {
			p := packet{header(shape, uint16(1000+k), 77), fill(n, byte(k+1))}
			ps = append(ps, p)
			wires = append(wires, l.write(p))
		}
		l.close()
	})
	for at := range ps {
		for mode := range 3 {
			mutations(wires[at], func(what string, b []byte) {
				if r.Stop() {
					return
				}
				run(at, mode, what, b, ps, wires)
				r.State(s.prof, s.mki, n, shape, at, mode, what)
				r.Nontrivial(s.prof, s.mki, n, shape, at, mode, what)
			})
		}
	}
}

func bits(b []byte, f func(string, []byte)) {
	for i := 0; i < 8*len(b); i++ {
		c := slices.Clone(b)
		c[i/8] ^= 1 << (i % 8)
		f(fmt.Sprintf("bit %d of byte %d flipped", i%8, i/8), c)
	}
}

func lengths(b []byte, f func(string, []byte)) {
	for n := 0; n < len(b); n++ {
		f(fmt.Sprintf("the first %d of %d bytes", n, len(b)), b[:n])
		f(fmt.Sprintf("without byte %d", n), slices.Delete(slices.Clone(b), n, n+1))
		f(fmt.Sprintf("byte %d twice", n), slices.Insert(slices.Clone(b), n, b[n]))
		if n > 0 {
			f(fmt.Sprintf("the last %d of %d bytes", n, len(b)), b[len(b)-n:])
		}
	}
	for n := 1; n <= 16; n++ {
		f(fmt.Sprintf("%d more bytes", n), append(slices.Clone(b), fill(n, byte(n))...))
	}
}

// bytes replaces every byte by every other value.
func values(b []byte, f func(string, []byte)) {
	for i := range b {
		for v := 0; v < 256; v++ {
			if byte(v) != b[i] {
				c := slices.Clone(b)
				c[i] = byte(v)
				f(fmt.Sprintf("byte %d set to %02x", i, v), c)
			}
		}
	}
}

// arrivals delivers every sequence of datagrams, with repetitions: each is handed out once, at its first arrival.
func arrivals(r *vh.R, q, t int) {
	n := 4
	for _, first := range []uint16{10, 65531} {
		for prof := range profiles {
			s := setting{prof: prof, mki: 4 * (prof % 2)}
			var ps []packet
			var wires [][]byte
			r.Explore(vh.Delay(0), func() {
				l := open(s, true, wire)
				ps, wires = nil, nil
				for k := 0; k <= n; k++ {
					p := packet{header(0, first+2*uint16(k), 77), fill(30, byte(k+1))}
					ps = append(ps, p)
					wires = append(wires, l.write(p))
				}
				l.close()
			})
			vh.Seqs(r.Pick(q, t), n, func(seq []int) bool {
				r.Explore(vh.Delay(0), func() {
					g := open(s, false, wire)
					g.serve()
					want := map[uint32][]packet{77: {ps[0]}}
					g.c.put(wires[0])
					seen := map[int]bool{}
					for _, k := range seq {
						g.c.put(wires[k+1])
						if !seen[k] {
							want[77] = append(want[77], ps[k+1])
						}
						seen[k] = true
					}
					g.judge(want, fmt.Sprintf("%v: arrivals %v from %d", s, seq, first))
					g.close()
				})
				r.State(prof, first, fmt.Sprint(seq))
				r.Nontrivial(prof, first, fmt.Sprint(seq))
				return !r.Stop()
			})
		}
	}
}

// replays repeats every earlier datagram after many later ones, inside and outside of the replay window.
func replays(r *vh.R) {
	for _, total := range []int{1, 2, 10, 63, 64, 65, 66, 130} {
		for prof := range profiles {
			for k := 0; k < total && !r.Stop(); k++ {
				s := setting{prof: prof}
				r.Explore(vh.Delay(0), func() {
					l, g := open(s, true, wire), open(s, false, wire)
					g.serve()
					want := map[uint32][]packet{}
					var again []byte
					for i := range total {
						p := packet{header(0, uint16(65500+i), 9), fill(20, byte(i))}
						out := l.write(p)
						if i == k {
							again = out
						}
						g.c.put(out)
						want[9] = append(want[9], p)
					}
					g.c.put(again)
					g.c.put(again)
					p := packet{header(0, uint16(65500+total), 9), fill(20, 3)}
					g.c.put(l.write(p))
					want[9] = append(want[9], p)
					g.judge(want, fmt.Sprintf("%v: packet %d of %d again", s, k, total))
					l.close()
					g.close()
				})
				r.State(total, prof, k)
				r.Nontrivial(total, prof, k)
			}
		}
	}
}

// strangers mixes in packets protected with other keys, identifiers or profiles, and plain ones.
func strangers(r *vh.R) {
	all := []setting{}
	for prof := range profiles {
		for _, mki := range []int{0, 4} {
			all = append(all, setting{prof: prof, mki: mki})
		}
	}
	for _, s := range all {
		for _, o := range append(slices.Clone(all), setting{prof: s.prof, mki: s.mki, other: true}, setting{prof: -1}) {
			if o == s {
				continue
			}
			for order := range 3 {
				for _, ssrc := range []uint32{77, 78} {
					r.Explore(vh.Delay(0), func() {
						l, g := open(s, true, wire), open(s, false, wire)
						g.serve()
						want := map[uint32][]packet{}
						for k := 0; k < 3; k++ {
							p := packet{header(0, uint16(1000+k), 77), fill(40, byte(k+1))}
							var bad []byte
							if o.prof < 0 {
								h := header(0, uint16(1000+k), ssrc)
								bad, _ = (&prtp.Packet{Header: h, Payload: p.payload}).Marshal()
							} else {
								x := open(o, true, wire)
								bad = x.write(packet{header(0, uint16(1000+k), ssrc), p.payload})
								x.close()
							}
							if order == 0 {
								g.c.put(bad)
							}
							if order < 2 || k != 1 {
								g.c.put(l.write(p))
								want[77] = append(want[77], p)
							}
							if order > 0 {
								g.c.put(bad)
							}
						}
						g.judge(want, fmt.Sprintf("%v, strangers with %+v", s, o))
						l.close()
						g.close()
					})
					r.State(s, o, order, ssrc)
					r.Nontrivial(s, o, order, ssrc)
				}
			}
		}
		if r.Stop() {
			return
		}
	}
}

func defaults(r *vh.R) {
	seen := map[string]bool{}
	var vary [2][8][64]map[byte]bool // the values seen at every place of the keys and salts
	defer func() {
		if r.Stop() {
			return
		}
		for i, p := range profiles {
			for w, n := range []int{keyLens[i], 14} {
				for at := range n {
					if v := vary[w][i][at]; v != nil && len(v) < 10 { // 50 random bytes
						r.Fail("fresh", "byte %d of the %s of %v takes %d values only", at, []string{"key", "salt"}[w], p, len(v))
						return
					}
				}
			}
		}
	}()
	for k := 0; k < 50; k++ {
		r.Case()
		r.Step(1)
		ps, err := srtp.DefaultProfiles()
		if err != nil || len(ps) == 0 {
			r.Fail("defaults", "%v, %v", ps, err)
			return
		}
		index := map[int]bool{}
		for _, p := range ps {
			i := slices.Index(profiles, p.Profile)
			if i < 0 || len(p.Key) != keyLens[i] || len(p.Salt) != 14 || p.MKI != nil || index[p.Index] {
				r.Fail("defaults", "profile %+v", p)
				return
			}
			index[p.Index] = true
			for _, secret := range [][]byte{p.Key, p.Salt} {
				if seen[string(secret)] || bytes.Count(secret, secret[:1]) == len(secret) {
					r.Fail("fresh", "key or salt %x was used before", secret)
					return
				}
				seen[string(secret)] = true
			}
			for w, secret := range [][]byte{p.Key, p.Salt} {
				for at, b := range secret {
					if vary[w][i][at] == nil {
						vary[w][i][at] = map[byte]bool{}
					}
					vary[w][i][at][b] = true
				}
			}
			// usable by a session
			sp, err := p.Profile.Parse()
			if err != nil {
				r.Fail("defaults", "%v", err)
			}
			r.Explore(vh.Delay(0), func() {
				keys := srtp.SessionKeys{LocalMasterKey: p.Key, LocalMasterSalt: p.Salt, RemoteMasterKey: p.Key, RemoteMasterSalt: p.Salt}
				s, err := srtp.NewSession(logger.GetLogger(), newConn(), &srtp.Config{Profile: sp, LoggerFactory: quiet, Keys: keys})
				if err != nil {
					vh.Fail("defaults", "%v: %v", p.Profile, err)
				}
				s.Close()
			})
			r.State(i)
		}
		r.Nontrivial(k)
	}
	for _, name := range []srtp.ProtectionProfile{"", "AES", "aes_cm_128_hmac_sha1_80", "AES_CM_128_HMAC_SHA1_8", "AES_CM_128_HMAC_SHA1_80 ", "F8_128_HMAC_SHA1_80"} {
		r.Case()
		if p, err := name.Parse(); err == nil {
			r.Fail("unknown", "profile %q is %v", name, p)
		}
	}
}

// refused configures sessions with keys of every size: only the profile's own are accepted.
func refused(r *vh.R) {
	for prof := range profiles {
		for key := 0; key <= 40; key++ {
			for salt := 0; salt <= 20; salt++ {
				for remote := range 2 {
					r.Case()
					r.Explore(vh.Delay(0), func() {
						c := config(setting{prof: prof}, true)
						if remote == 0 {
							c.Keys.LocalMasterKey, c.Keys.LocalMasterSalt = fill(key, 1), fill(salt, 2)
						} else {
							c.Keys.RemoteMasterKey, c.Keys.RemoteMasterSalt = fill(key, 1), fill(salt, 2)
						}
						s, err := srtp.NewSession(logger.GetLogger(), newConn(), c)
						fits := key == keyLens[prof] && salt == 14
						if (err == nil) != fits || (s != nil) != fits {
							vh.Fail("config", "%s with a key of %d bytes and a salt of %d: %v, %v", profiles[prof], key, salt, s, err)
						}
						if s != nil && err == nil {
							s.Close()
						}
					})
				}
			}
		}
		if r.Stop() {
			return
		}
	}
}

// concurrent runs writers, a tamperer and a receiver in every order.
func concurrent(name string, writers, packets int, tamper bool, q, t vh.Opt) vh.Scenario {
	return vh.Scenario{Name: name, Race: true, Run: func(r *vh.R) {
		opt := q
		if r.Thorough() {
			opt = t
		}
		for _, s := range []setting{{prof: 0}, {prof: 3, mki: 4}} {
			r.Explore(opt, func() {
				l, g := open(s, true, wire), open(s, false, wire)
				g.serve()
				want := map[uint32][]packet{}
				var js []func()
				for i := range writers {
					ssrc := uint32(50 + i)
					for k := range packets {
						want[ssrc] = append(want[ssrc], packet{header(3*k%nShapes, uint16(65535+k), ssrc), fill(20, byte(10*i+k))})
					}
					mine := want[ssrc]
					js = append(js, vh.Spawn(fmt.Sprint("write", i), func() {
						for _, p := range mine {
							h := p.h.Clone()
							if _, err := l.w.WriteRTP(&h, p.payload); err != nil {
								vh.Fail("write", "%v", err)
							}
						}
					}))
				}
				moved := 0
				move := func() {
					for {
						var b []byte
						vh.Atomic(func() {
							if moved < len(l.c.out) {
								b = l.c.out[moved]
								moved++
							}
						})
						if b == nil {
							return
						}
						if tamper {
							c := slices.Clone(b)
							c[len(c)-1] ^= 1
							g.c.put(c)
						}
						g.c.put(b)
						if tamper {
							g.c.put(b)
						}
					}
				}
				js = append(js, vh.Spawn("move", func() {
					for range writers * packets {
						move()
						vh.Sleep(time.Millisecond)
					}
				}))
				for _, j := range js {
					j()
				}
				move()
				g.judge(want, s.String())
				l.close()
				g.close()
				vh.Note("%d", len(g.got))
			})
		}
	}}
}

// closing closes a session while streams are pending, being accepted and read.
func closing(name, in string, early int, acceptors, closers int, q, t vh.Opt) vh.Scenario {
	return vh.Scenario{Name: name, Race: true, Run: func(r *vh.R) {
		opt := q
		if r.Thorough() {
			opt = t
		}
		r.Explore(opt, func() {
			l, g := open(setting{}, true, wire), open(setting{}, false, wire)
			for i, c := range in {
				g.c.put(l.write(packet{header(0, uint16(i), uint32(c)), fill(20, byte(i))}))
			}
			began := false
			var js []func()
			add := func(j func()) { vh.Atomic(func() { js = append(js, j) }) }
			for i := range acceptors {
				add(vh.Spawn(fmt.Sprint("accept", i), func() {
					for {
						st, ssrc, err := g.s.AcceptStream()
						if err != nil {
							if !read(&began) {
								vh.Fail("accept", "accept failed before the close: %v", err)
							}
							return
						}
						add(vh.Spawn(fmt.Sprint("read", ssrc), func() {
							buf := make([]byte, wire)
							var h prtp.Header
							last := -1
							for {
								n, err := st.ReadRTP(&h, buf)
								if err != nil {
									if !read(&began) {
										vh.Fail("read", "a read failed before the close: %v", err)
									}
									return
								}
								k := int(h.SequenceNumber)
								if k >= len(in) || k <= last || h.SSRC != ssrc || uint32(in[k]) != ssrc || !bytes.Equal(buf[:n], fill(20, byte(k))) {
									vh.Fail("delivered", "stream %d: packet %d after %d, %x", ssrc, k, last, buf[:n])
								}
								last = k
							}
						}))
					}
				}))
			}
			if early > 0 {
				vh.Settle()
			}
			for i := range closers {
				add(vh.Spawn(fmt.Sprint("close", i), func() {
					vh.Atomic(func() { began = true })
					g.s.Close()
					if _, _, err := g.s.AcceptStream(); err == nil {
						vh.Fail("accept", "accept succeeded after the close")
					}
				}))
			}
			for i := 0; ; i++ {
				var j func()
				vh.Atomic(func() {
					if i < len(js) {
						j = js[i]
					}
				})
				if j == nil {
					break
				}
				j()
			}
			if g.c.closes < 1 {
				vh.Fail("close", "the connection was not closed")
			}
			l.s.Close()
			vh.Settle()
			if live := vh.Live(); len(live) > 0 {
				vh.Fail("leak", "still running: %v", live)
			}
			vh.Note("%d", len(js))
		})
	}}
}

func main() {
	short := []int{0, 1, 2, 15, 16, 17, 160, 1440, 1500}
	var all []int
	for n := 0; n <= 1500; n += 3 {
		all = append(all, n)
	}
	tampered := func(name string, n, shape int, m func([]byte, func(string, []byte)), sets ...setting) vh.Scenario {
		return vh.Scenario{Name: name, Run: func(r *vh.R) {
			for _, s := range sets {
				attack(r, s, n, shape, m)
			}
		}}
	}
	deep := func(s vh.Scenario) vh.Scenario { s.Thorough = true; return s }
	vh.Main(vh.Check{ID: "C17", Level: "model_checking",
		Rule: "every profile with and without key identifiers on every header shape and many sizes; every flipped bit, cut, inserted or deleted byte of every packet of a stream (thorough: every byte value); every arrival order with repetitions; every replay; strangers' packets; schedules of concurrent writers and readers",
		Scenarios: []vh.Scenario{
			transparent("transparent", short, false),
			transparent("transparent-all", all, true),
			{Name: "fits", Run: fits},
			tampered("bits-80", 21, 0, bits, setting{prof: 0}),
			tampered("bits-32", 21, 3, bits, setting{prof: 1}),
			tampered("bits-256", 5, 1, bits, setting{prof: 2, mki: 4}),
			tampered("bits-256-32", 0, 2, bits, setting{prof: 3, mki: 1}),
			tampered("lengths", 21, 0, lengths, setting{prof: 0}, setting{prof: 1, mki: 4}, setting{prof: 2}, setting{prof: 3, mki: 1}),
			tampered("lengths-shapes", 9, 4, lengths, setting{prof: 0, mki: 4}),
			deep(tampered("values-0", 21, 0, values, setting{prof: 0})),
			deep(tampered("values-1", 21, 3, values, setting{prof: 1, mki: 4})),
			deep(tampered("values-2", 5, 2, values, setting{prof: 2, mki: 4})),
			deep(tampered("values-3", 5, 5, values, setting{prof: 3})),
			{Name: "arrivals", Run: func(r *vh.R) { arrivals(r, 5, 7) }},
			{Name: "replays", Run: replays},
			{Name: "strangers", Run: strangers},
			{Name: "defaults", Run: defaults},
			{Name: "refused", Run: refused},
			closing("close-idle", "", 0, 1, 1, vh.Delay(2), vh.Delay(4)),
			closing("close-unaccepted", "ab", 0, 0, 1, vh.Delay(2), vh.Delay(4)),
			closing("close-reading", "aba", 1, 1, 1, vh.Delay(2), vh.Delay(3)),
			closing("close-accepting", "aab", 0, 1, 1, vh.Delay(2), vh.Delay(3)),
			closing("close-twice", "ab", 0, 2, 2, vh.Delay(2), vh.Delay(3)),
			concurrent("schedules", 2, 2, false, vh.Delay(2), vh.Delay(3)),
			concurrent("schedules-tampered", 1, 2, true, vh.Delay(2), vh.Delay(3)),
			concurrent("many-streams", 25, 3, true, vh.Delay(0), vh.Delay(0)),
		}})
}
