// C33: stored prompts come out whole, in frames of 20 ms.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"slices"

	"github.com/jfreymuth/oggvorbis"
	"github.com/jfreymuth/vorbis"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/res"
	"github.com/livekit/media-sdk/res/testdata"
	"github.com/livekit/media-sdk/vh"
)

var table = func() (t [256]uint32) {
	for i := range t {
		r := uint32(i) << 24
		for range 8 {
			if r&0x80000000 != 0 {
				r = r<<1 ^ 0x04c11db7
			} else {
				r <<= 1
			}
		}
		t[i] = r
	}
	return
}()

// seal sets the checksum of a page.
func seal(p []byte) []byte {
	binary.LittleEndian.PutUint32(p[22:], 0)
	c := uint32(0)
	for _, b := range p {
		c = c<<8 ^ table[byte(c>>24)^b]
	}
	binary.LittleEndian.PutUint32(p[22:], c)
	return p
}

// ogg is a stream taken apart.
type ogg struct {
	packets [][]byte
	at      []int64 // samples per channel after each packet
}

func parse(data []byte) (o ogg) {
	var rest []byte
	for len(data) > 0 {
		n := int(data[26])
		body := data[27+n:]
		for _, l := range data[27 : 27+n] {
			rest = append(rest, body[:l]...)
			body = body[l:]
			if l < 255 {
				o.packets = append(o.packets, rest)
				rest = nil
			}
		}
		data = body
	}
	o.count()
	return
}

// count finds out how many samples there are after each packet.
func (o *ogg) count() {
	var d vorbis.Decoder
	n := int64(0)
	o.at = nil
	for i, p := range o.packets {
		if i < 3 {
			if err := d.ReadHeader(p); err != nil {
				panic(err)
			}
		} else {
			s, err := d.Decode(p)
			if err != nil {
				panic(err)
			}
			n += int64(len(s) / d.Channels())
		}
		o.at = append(o.at, n)
	}
}

// page makes a page of whole packets.
func page(packets [][]byte, gran int64, seq, flags int) []byte {
	p := append([]byte("OggS"), 0, byte(flags))
	p = binary.LittleEndian.AppendUint64(p, uint64(gran))
	p = binary.LittleEndian.AppendUint32(p, 77)
	p = binary.LittleEndian.AppendUint32(p, uint32(seq))
	p = append(p, 0, 0, 0, 0, 0)
	n := 0
	for _, b := range packets {
		for l := len(b); ; l -= 255 {
			p = append(p, byte(min(l, 255)))
			n++
			if l < 255 {
				break
			}
		}
	}
	p[26] = byte(n)
	for _, b := range packets {
		p = append(p, b...)
	}
	return seal(p)
}

// build makes a file again: the audio packets up to last, per of them in a page, the recording ending after end samples
// (-1: wherever the packets end). It says where pages end.
func (o ogg) build(last, per int, end int64, rate int, eos bool) (f []byte, ends []int) {
	return o.buildWide(last, per, end, rate, 0, eos)
}

// buildWide also sets the number of channels (the decoder takes what a packet does not hold for silence).
func (o ogg) buildWide(last, per int, end int64, rate, ch int, eos bool) (f []byte, ends []int) {
	id := slices.Clone(o.packets[0])
	if ch != 0 {
		id[11] = byte(ch)
	}
	if rate != 0 {
		binary.LittleEndian.PutUint32(id[12:], uint32(rate))
	}
	add := func(p []byte) { f = append(f, p...); ends = append(ends, len(f)) }
	add(page([][]byte{id}, 0, 0, 2))
	add(page(o.packets[1:2], 0, 1, 0))
	add(page(o.packets[2:3], 0, 2, 0))
	a := o.packets[3:last]
	for seq, i := 3, 2; len(a) > 0; seq++ {
		n := min(per, len(a))
		i += n
		g, fl := o.at[i], 0
		if len(a) == n {
			if eos {
				fl = 4
			}
			if end >= 0 {
				g = end
			}
		}
		add(page(a[:n], g, seq, fl))
		a = a[n:]
	}
	return
}

// pcm is the audio of a file, by the decoder on its own.
func pcm(data []byte) (s []float32, rate, ch int, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	r, err := oggvorbis.NewReader(bytes.NewReader(data))
	if err != nil {
		return nil, 0, 0, err
	}
	buf := make([]float32, 8192*r.Channels())
	for {
		n, err := r.Read(buf)
		s = append(s, buf[:n]...)
		if err == io.EOF {
			return s, r.SampleRate(), r.Channels(), nil
		}
		if err != nil {
			return s, r.SampleRate(), r.Channels(), err
		}
	}
}

// load calls the function under test.
func load(data []byte, rate, ch int) (f []msdk.PCM16Sample, refused any) {
	defer func() { refused = recover() }()
	return res.ReadOggAudioFile(data, rate, ch), nil
}

// verify compares what is loaded with what the decoder says.
func verify(r *vh.R, what string, data []byte, rate, ch int) (n int) {
	r.Case()
	r.Step(1)
	want, wr, wc, err := pcm(data)
	before := slices.Clone(data)
	got, refused := load(data, rate, ch)
	if !bytes.Equal(before, data) {
		r.Fail("input", "%s: the file was changed", what)
	}
	if err != nil || wr != rate || wc != ch {
		if refused == nil {
			r.Fail("accepted", "%s, as %d Hz with %d channels: loaded; it has %d Hz, %d channels, error %v", what, rate, ch, wr, wc, err)
		}
		r.State(what, rate, ch, "refused")
		return 0
	}
	if refused != nil {
		r.Fail("refused", "%s: %v", what, refused)
		return 0
	}
	full := 0
	per := rate / 50 * ch
	left := want
	for i, f := range got {
		if len(f) != min(per, len(left)) || len(f) == 0 {
			r.Fail("frame", "%s: frame %d has %d samples, %d are left", what, i, len(f), len(left))
			return
		}
		for k, v := range f {
			if x := left[k]; x == 1 || x == -1 { // the decoder clips
				full++
			}
			if int16(left[k]*0x7fff) != v {
				r.Fail("sample", "%s: frame %d, sample %d is %d, want %v", what, i, k, v, left[k]*0x7fff)
				return
			}
		}
		left = left[len(f):]
	}
	if len(left) != 0 {
		r.Fail("lost", "%s: the last %d of %d samples are missing", what, len(left), len(want))
	}
	// a frame can be changed without changing others
	if len(got) > 1 {
		keep := slices.Clone(got[1])
		clear(got[0])
		if !slices.Equal(keep, got[1]) {
			r.Fail("shared", "%s: frames share memory", what)
		}
	}
	if full > 0 {
		r.Nontrivial("full scale")
	}
	r.State(what, rate, ch, len(got), len(want))
	if len(want) > 0 {
		r.Nontrivial(what)
	}
	return len(want)
}

type file struct {
	name string
	data []byte
}

var files = []file{{"enter_pin", res.EnterPinOgg}, {"room_join", res.RoomJoinOgg}, {"wrong_pin", res.WrongPinOgg}, {"change-amelia", testdata.TestAudioOgg}}

func main() {
	var sc []vh.Scenario
	sc = append(sc, vh.Scenario{Name: "embedded", Run: func(r *vh.R) {
		for _, f := range files {
			_, rate, ch, err := pcm(f.data)
			if err != nil {
				r.Fail("embedded", "%s: %v", f.name, err)
				continue
			}
			for _, rt := range []int{8000, 16000, 24000, 44100, 48000, rate - 1, rate + 1} {
				for c := 1; c <= 3; c++ {
					verify(r, f.name, f.data, rt, c)
				}
			}
			if verify(r, f.name, f.data, rate, ch) == 0 {
				r.Fail("embedded", "%s is empty", f.name)
			}
			if f.name != "change-amelia" && (rate != res.SampleRate || ch != 1) {
				r.Fail("embedded", "%s has %d Hz, %d channels", f.name, rate, ch)
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "lengths", Run: func(r *vh.R) {
		for _, f := range files[:r.Pick(2, 4)] {
			o := parse(f.data)
			_, _, ch, _ := pcm(f.data)
			max := o.at[3+14]
			for _, rate := range []int{0, 8000, 44100} {
				for _, per := range []int{1, 3, 14} {
					for end := int64(1); end <= max; end += int64(r.Pick(13, 1)) {
						last := 3
						for o.at[last] < end {
							last++
						}
						d, _ := o.build(last+1, per, end, rate, end%2 == 0)
						rt := rate
						if rt == 0 {
							rt = int(binary.LittleEndian.Uint32(o.packets[0][12:]))
						}
						verify(r, fmt.Sprintf("%s, %d samples, %d packets in a page, %d Hz", f.name, end, per, rt), d, rt, ch)
						if r.Stop() {
							return
						}
					}
				}
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "packets", Run: func(r *vh.R) {
		for _, f := range files {
			o := parse(f.data)
			_, rate, ch, _ := pcm(f.data)
			for last := 3; last <= min(len(o.packets), r.Pick(40, 200)); last++ {
				for _, per := range []int{1, 2, 5, 11} {
					for _, eos := range []bool{true, false} {
						d, _ := o.build(last, per, -1, 0, eos)
						verify(r, fmt.Sprintf("%s, %d packets, %d in a page, ended %v", f.name, last, per, eos), d, rate, ch)
					}
				}
			}
		}
	}})
	// a minute and more: the packets of a recording again and again
	sc = append(sc, vh.Scenario{Name: "long", Run: func(r *vh.R) {
		for _, f := range files[:r.Pick(1, 3)] {
			o := parse(f.data)
			_, rate, ch, _ := pcm(f.data)
			body := o.packets[3:]
			for len(o.packets) < r.Pick(6000, 30000) {
				o.packets = append(o.packets, body...)
			}
			o.count()
			d, _ := o.build(len(o.packets), 5, -1, 0, true)
			verify(r, fmt.Sprintf("%s, its packets repeated to %d", f.name, len(o.packets)), d, rate, ch)
		}
	}})
	sc = append(sc, vh.Scenario{Name: "channels", Run: func(r *vh.R) {
		for _, f := range files[:r.Pick(2, 4)] {
			o := parse(f.data)
			max := o.at[3+14]
			for _, ch := range []int{2, 3, 6} {
				for _, rate := range []int{8000, 48000} {
					for end := int64(1); end <= max; end += int64(r.Pick(97, 7)) {
						last := 3
						for o.at[last] < end {
							last++
						}
						d, _ := o.buildWide(last+1, 3, end, rate, ch, true)
						what := fmt.Sprintf("%s, %d samples of %d channels, %d Hz", f.name, end, ch, rate)
						if _, wr, wc, err := pcm(d); err != nil || wr != rate || wc != ch {
							r.Fail("model", "%s: read as %d Hz, %d channels: %v", what, wr, wc, err)
						}
						verify(r, what, d, rate, ch)
						verify(r, what, d, rate, 3-min(ch, 2)) // another number of them
						if r.Stop() {
							return
						}
					}
				}
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "loud", Run: func(r *vh.R) {
		// a run of ones where a packet states how loud it is
		n := 0
		for _, f := range files[:r.Pick(2, 4)] {
			o := parse(f.data)
			_, rate, ch, _ := pcm(f.data)
			for i := 3; i < min(len(o.packets), r.Pick(14, 60)); i++ {
				for from := 1; from < 12; from++ {
					for _, width := range []int{7, 14, 16} {
						q := ogg{packets: slices.Clone(o.packets), at: o.at}
						b := slices.Clone(q.packets[i])
						for k := from; k < min(from+width, 8*len(b)); k++ {
							b[k/8] |= 1 << (k % 8)
						}
						q.packets[i] = b
						d, _ := q.build(i+3, 2, -1, 0, true)
						n += verify(r, fmt.Sprintf("%s, packet %d, bits %d to %d set", f.name, i, from, from+width-1), d, rate, ch)
						if r.Stop() {
							return
						}
					}
				}
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "cut", Run: func(r *vh.R) {
		for _, f := range files[:r.Pick(2, 4)] {
			o := parse(f.data)
			_, rate, ch, _ := pcm(f.data)
			d, ends := o.build(14, 2, -1, 0, true)
			for n := range d {
				if !r.Thorough() && n < ends[2] && n%16 != 0 && !slices.Contains(ends, n) {
					continue // inside the headers
				}
				verify(r, fmt.Sprintf("%s, the first %d bytes of %d", f.name, n, len(d)), slices.Clone(d[:n]), rate, ch)
				if r.Stop() {
					return
				}
			}
		}
	}})
	sc = append(sc, vh.Scenario{Name: "damaged", Run: func(r *vh.R) {
		f := files[0]
		o := parse(f.data)
		_, rate, ch, _ := pcm(f.data)
		for i := 3; i < 9; i++ {
			for k := range o.packets[i] {
				for bit := range 8 {
					if !r.Thorough() && (k+bit)%4 != 0 {
						continue
					}
					q := ogg{packets: slices.Clone(o.packets), at: o.at}
					q.packets[i] = slices.Clone(q.packets[i])
					q.packets[i][k] ^= 1 << bit
					d, _ := q.build(12, 2, -1, 0, true)
					verify(r, fmt.Sprintf("%s, packet %d, byte %d, bit %d changed", f.name, i, k, bit), d, rate, ch)
				}
			}
			if r.Stop() {
				return
			}
		}
	}})
	vh.Main(vh.Check{ID: "C33", Level: "model_checking",
		Rule:        "the embedded recordings put together again from their packets in every way of a bounded family: every length, every number of packets, pages of several sizes, every cut, single changed bits; every mismatch of rate and channels",
		Assumptions: []string{"the Ogg Vorbis decoder (jfreymuth/oggvorbis) is trusted"},
		Scenarios:   sc})
}
