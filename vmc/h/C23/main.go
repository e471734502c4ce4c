// C23: DTMF events survive encoding and decoding.
package main

import (
	"bytes"

	"github.com/livekit/media-sdk/dtmf"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/vh"
)

var digits = "0123456789*#abcd" // by event code
var rows = [4]uint32{697, 770, 852, 941}
var cols = [4]uint32{1209, 1336, 1477, 1633}
var layout = [4]string{"123a", "456b", "789c", "*0#d"}

func encode(r *vh.R, ev dtmf.Event, want [4]byte, size int) {
	r.Case()
	buf := bytes.Repeat([]byte{0xee}, size+8)
	n, err := dtmf.Encode(buf[:size:size], ev)
	if size < 4 {
		if err == nil || n != 0 || !bytes.Equal(buf, bytes.Repeat([]byte{0xee}, size+8)) {
			r.Fail("short", "%+v encoded to %d bytes: %d, %v, % x", ev, size, n, err, buf)
		}
		return
	}
	if err != nil || n != 4 || !bytes.Equal(buf[:4], want[:]) {
		r.Fail("encode", "%+v in %d bytes: %d, %v, % x, want % x", ev, size, n, err, buf, want)
		return
	}
	for _, b := range buf[4:] {
		if b != 0xee {
			r.Fail("beyond", "%+v in %d bytes: wrote % x", ev, size, buf)
			return
		}
	}
}

func decode(r *vh.R, data []byte, marker bool) {
	r.Case()
	ev, err := dtmf.Decode(data)
	rev, ok := dtmf.DecodeRTP(&rtp.Header{Marker: marker, Version: 2}, data)
	if len(data) < 4 {
		if err == nil || ok {
			r.Fail("short", "% x decoded as %+v, %v, new event %v", data, ev, err, ok)
		}
		return
	}
	want := dtmf.Event{Code: data[0], Volume: data[1] & 63, End: data[1]&128 != 0, Dur: uint16(data[2])<<8 | uint16(data[3])}
	if int(want.Code) < len(digits) {
		want.Digit = digits[want.Code]
	}
	if err != nil || ev != want {
		r.Fail("decode", "% x decoded as %+v, %v, want %+v", data, ev, err, want)
	}
	if ok != marker || ok && rev != want {
		r.Fail("new", "% x with marker %v: new event %v, %+v", data, marker, ok, rev)
	}
}

func main() {
	durs := func(r *vh.R) (out []int) {
		for d := 0; d < 1<<16; d++ {
			out = append(out, d)
		}
		return out
	}
	vh.Main(vh.Check{ID: "C23", Level: "model_checking",
		Rule: "every value of each header byte, every digit character and every duration encoded and decoded; every buffer size up to 12",
		Scenarios: []vh.Scenario{
			{Name: "round-trip", Run: func(r *vh.R) {
				ds := durs(r)
				for code := 0; code < 256 && !r.Stop(); code++ {
					for vol := 0; vol < 256; vol++ {
						for _, end := range []bool{false, true} {
							for _, d := range []int{0, 1, 160, 255, 256, 2080, 65535} {
								trip(r, code, 0, vol, end, d)
							}
						}
						r.State(code, vol)
					}
					for _, d := range ds {
						trip(r, code, 0, code%64, d%2 == 0, d)
					}
					r.Nontrivial(code)
				}
			}},
			{Name: "digits", Run: func(r *vh.R) {
				ds := durs(r)
				for code := range digits {
					for vol := 0; vol < 64; vol++ {
						for _, d := range ds {
							trip(r, code, digits[code], vol, d%3 == 0, d)
						}
						r.State(code, vol)
						r.Nontrivial(code, vol)
					}
				}
				seen := map[byte]byte{}
				pairs := map[[2]uint32]byte{}
				for c := 0; c < 256; c++ {
					r.Case()
					r.Step(1)
					code, f := dtmf.Tone(byte(c))
					want := bytes.IndexByte([]byte(digits), byte(c))
					if want < 0 {
						if len(f) != 0 {
							r.Fail("tone", "%q has tones %v", c, f)
						}
						continue
					}
					if int(code) != want || len(f) != 2 {
						r.Fail("tone", "%q has code %d, tones %v", c, code, f)
						continue
					}
					p := [2]uint32{min(uint32(f[0]), uint32(f[1])), max(uint32(f[0]), uint32(f[1]))}
					for i, l := range layout {
						if j := bytes.IndexByte([]byte(l), byte(c)); j >= 0 && p != [2]uint32{rows[i], cols[j]} {
							r.Fail("tone", "%q has tones %v, want %d and %d", c, f, rows[i], cols[j])
						}
					}
					if o, ok := seen[code]; ok {
						r.Fail("one-to-one", "%q and %q share code %d", c, o, code)
					}
					if o, ok := pairs[p]; ok {
						r.Fail("one-to-one", "%q and %q share tones %v", c, o, p)
					}
					seen[code], pairs[p] = byte(c), byte(c)
					// callers may keep or change what they got
					f[0], f[1] = f[1], f[0]
					f[0], f[1] = f[1], f[0]
				}
			}},
			{Name: "decode", Run: func(r *vh.R) {
				for a := 0; a < 256 && !r.Stop(); a++ {
					for b := 0; b < 256; b++ {
						for _, d := range [][]byte{{0, 0}, {0, 1}, {1, 0}, {255, 255}, {0, 160}, {128, 127}} {
							for _, rest := range []string{"", "x", "12345678"} {
								data := append([]byte{byte(a), byte(b), d[0], d[1]}, rest...)
								decode(r, data, (a+b)%2 == 0)
								decode(r, data, (a+b)%2 != 0)
							}
						}
						decode(r, []byte{byte(a), byte(b), 3}[:a%4], true)
						r.State(a, b)
					}
					r.Step(256)
					r.Nontrivial(a)
				}
				for d := 0; d < 1<<16; d++ {
					decode(r, []byte{5, 10, byte(d >> 8), byte(d)}, d%2 == 0)
				}
				for n := 0; n < 4; n++ {
					for _, m := range []bool{false, true} {
						decode(r, make([]byte, n, 16), m)
					}
				}
				decode(r, nil, true)
			}},
			{Name: "sizes", Run: func(r *vh.R) {
				for n := 0; n <= 12; n++ {
					for c := range digits {
						encode(r, dtmf.Event{Digit: digits[c], Volume: 5, Dur: 77, End: true}, [4]byte{byte(c), 0x85, 0, 77}, n)
						encode(r, dtmf.Event{Code: byte(200 + c), Volume: 5, Dur: 77 << 8}, [4]byte{byte(200 + c), 5, 77, 0}, n)
						r.Step(2)
						r.State(n, c)
					}
				}
			}},
		}})
}

func trip(r *vh.R, code int, digit byte, vol int, end bool, dur int) {
	in := dtmf.Event{Code: byte(code), Digit: digit, Volume: byte(vol), End: end, Dur: uint16(dur)}
	if digit != 0 {
		in.Code = byte(code * 7) // the digit decides
	}
	want := [4]byte{byte(code), byte(vol & 63), byte(dur >> 8), byte(dur)}
	if end {
		want[1] |= 128
	}
	encode(r, in, want, 4)
	r.Step(1)
	buf := make([]byte, 4)
	dtmf.Encode(buf, in)
	out, err := dtmf.Decode(buf)
	exp := dtmf.Event{Code: byte(code), Volume: byte(vol & 63), End: end, Dur: uint16(dur)}
	if code < len(digits) {
		exp.Digit = digits[code]
	}
	if err != nil || out != exp {
		r.Fail("round-trip", "%+v comes back as %+v, %v", in, out, err)
	}
}
