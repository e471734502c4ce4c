// Package vrand stands in for package math/rand: small ranges are explored, the rest is a fixed sequence.
package vrand

import (
	"math/rand"

	rt "github.com/livekit/media-sdk/vmcrt"
)

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

func New(s Source) *Rand                            { return rand.New(s) }
func NewSource(seed int64) Source                   { return rand.NewSource(seed) }
func NewZipf(r *Rand, s, v float64, m uint64) *Zipf { return rand.NewZipf(r, s, v, m) }

func u64() uint64 {
	if !rt.Active() {
		return rand.Uint64()
	}
	return rt.Rand()
}
func un(n uint64) uint64 {
	if !rt.Active() {
		return uint64(rand.Int63n(int64(n)))
	}
	return rt.RandN(n)
}

func Seed(int64)           {}
func Uint64() uint64       { return u64() }
func Uint32() uint32       { return uint32(u64() >> 32) }
func Int() int             { return int(u64() >> 1) }
func Int31() int32         { return int32(u64() >> 33) }
func Int63() int64         { return int64(u64() >> 1) }
func Int31n(n int32) int32 { chk(int64(n)); return int32(un(uint64(n))) }
func Int63n(n int64) int64 { chk(n); return int64(un(uint64(n))) }
func Intn(n int) int       { chk(int64(n)); return int(un(uint64(n))) }
func Float64() float64     { return float64(u64()>>11) / (1 << 53) }
func Float32() float32     { return float32(u64()>>40) / (1 << 24) }
func NormFloat64() float64 { return Float64() }
func ExpFloat64() float64  { return Float64() }
func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(u64())
	}
	return len(p), nil
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, int(un(uint64(i+1))))
	}
}
func Perm(n int) []int {
	m := make([]int, n)
	for i := range m {
		m[i] = i
	}
	Shuffle(n, func(i, j int) { m[i], m[j] = m[j], m[i] })
	return m
}
func chk(n int64) {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
}
