package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
)

// block is one stored frame.
type block struct {
	ms   int64
	data []byte
}

// file is what a WebM file holds; the last element may be cut off.
type file struct {
	codec    string
	rate     float64
	channels uint64
	dur      uint64
	scale    uint64
	blocks   []block
	cut      []byte // data of a block that is not complete
	cutMs    int64
	trunc    bool
}

func vint(b []byte, keep bool) (v uint64, n int, unknown bool) {
	if len(b) == 0 || b[0] == 0 {
		return 0, 0, false
	}
	n = 1
	for m := byte(0x80); b[0]&m == 0; m >>= 1 {
		n++
	}
	if len(b) < n {
		return 0, 0, false
	}
	v = uint64(b[0])
	if !keep {
		v &= 1<<(8-n) - 1
	}
	ones := !keep && v == 1<<(8-n)-1
	for _, c := range b[1:n] {
		v = v<<8 | uint64(c)
		ones = ones && c == 0xff
	}
	return v, n, ones
}

func number(b []byte) (v uint64) {
	for _, c := range b {
		v = v<<8 | uint64(c)
	}
	return v
}

const (
	idHeader, idSegment, idCluster = 0x1A45DFA3, 0x18538067, 0x1F43B675
	idInfo, idTracks, idEntry      = 0x1549A966, 0x1654AE6B, 0xAE
	idScale, idCodec, idDur        = 0x2AD7B1, 0x86, 0x23E383
	idAudio, idRate, idChannels    = 0xE1, 0xB5, 0x9F
	idTimecode, idPrev, idBlock    = 0xE7, 0xAB, 0xA3
)

// parse reads as much as there is.
func parse(b []byte) (f *file, err error) {
	f = &file{}
	var cluster int64
	first := true
	for len(b) > 0 {
		id, n, _ := vint(b, true)
		if n == 0 {
			f.trunc = true
			return f, nil
		}
		size, m, unknown := vint(b[n:], false)
		if m == 0 {
			f.trunc = true
			return f, nil
		}
		if first != (id == idHeader) {
			return f, fmt.Errorf("element %x in the wrong place", id)
		}
		first = false
		b = b[n+m:]
		switch id {
		case idSegment, idTracks, idEntry, idAudio, idInfo:
			continue // contents follow
		case idCluster:
			cluster = -1
			continue
		}
		if unknown {
			return f, fmt.Errorf("element %x of unknown size", id)
		}
		body := b
		if uint64(len(b)) < size {
			f.trunc = true
			if id != idBlock {
				return f, nil
			}
		} else {
			body = b[:size]
		}
		switch id {
		case idTimecode:
			cluster = int64(number(body))
		case idScale:
			f.scale = number(body)
		case idCodec:
			f.codec = string(bytes.TrimRight(body, "\x00"))
		case idDur:
			f.dur = number(body)
		case idRate:
			if len(body) == 8 {
				f.rate = math.Float64frombits(binary.BigEndian.Uint64(body))
			} else if len(body) == 4 {
				f.rate = float64(math.Float32frombits(binary.BigEndian.Uint32(body)))
			}
		case idChannels:
			f.channels = number(body)
		case idBlock:
			if len(body) < 4 {
				if !f.trunc {
					return f, fmt.Errorf("block of %d bytes", size)
				}
				return f, nil
			}
			if body[0] != 0x81 || body[3]&0x0e != 0 {
				return f, fmt.Errorf("block of track %x, flags %x", body[0], body[3])
			}
			if cluster < 0 {
				return f, fmt.Errorf("block in a cluster without time")
			}
			ms := cluster + int64(int16(binary.BigEndian.Uint16(body[1:])))
			if f.trunc {
				f.cut, f.cutMs = body[4:], ms
				return f, nil
			}
			f.blocks = append(f.blocks, block{ms, body[4:]})
		}
		b = b[len(body):]
	}
	return f, nil
}
