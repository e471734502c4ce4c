// Package vrandv2 stands in for package math/rand/v2: small ranges are explored, the rest is a fixed sequence.
package vrandv2

import (
	"math/rand/v2"

	rt "github.com/livekit/media-sdk/vmcrt"
)

type (
	Rand    = rand.Rand
	Source  = rand.Source
	Zipf    = rand.Zipf
	PCG     = rand.PCG
	ChaCha8 = rand.ChaCha8
)

func New(s Source) *Rand                            { return rand.New(s) }
func NewPCG(a, b uint64) *PCG                       { return rand.NewPCG(a, b) }
func NewChaCha8(s [32]byte) *ChaCha8                { return rand.NewChaCha8(s) }
func NewZipf(r *Rand, s, v float64, m uint64) *Zipf { return rand.NewZipf(r, s, v, m) }

func u64() uint64 {
	if !rt.Active() {
		return rand.Uint64()
	}
	return rt.Rand()
}
func un(n uint64) uint64 {
	if n == 0 {
		panic("invalid argument to IntN")
	}
	if !rt.Active() {
		return rand.Uint64N(n)
	}
	return rt.RandN(n)
}
func chk(n int64) uint64 {
	if n <= 0 {
		panic("invalid argument to IntN")
	}
	return uint64(n)
}

func Uint64() uint64          { return u64() }
func Uint32() uint32          { return uint32(u64() >> 32) }
func Uint() uint              { return uint(u64()) }
func Int() int                { return int(u64() >> 1) }
func Int32() int32            { return int32(u64() >> 33) }
func Int64() int64            { return int64(u64() >> 1) }
func Int32N(n int32) int32    { return int32(un(chk(int64(n)))) }
func Int64N(n int64) int64    { return int64(un(chk(n))) }
func IntN(n int) int          { return int(un(chk(int64(n)))) }
func Uint32N(n uint32) uint32 { return uint32(un(uint64(n))) }
func Uint64N(n uint64) uint64 { return un(n) }
func UintN(n uint) uint       { return uint(un(uint64(n))) }
func N[I interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n I) I {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return I(un(uint64(n)))
}
func Float64() float64     { return float64(u64()>>11) / (1 << 53) }
func Float32() float32     { return float32(u64()>>40) / (1 << 24) }
func NormFloat64() float64 { return Float64() }
func ExpFloat64() float64  { return Float64() }
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, int(un(uint64(i+1))))
	}
}
func Perm(n int) []int {
	m := make([]int, n)
	for i := range m {
		m[i] = i
	}
	Shuffle(n, func(i, j int) { m[i], m[j] = m[j], m[i] })
	return m
}
