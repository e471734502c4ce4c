// Package vatomic stands in for package sync/atomic.
package vatomic

import (
	a "sync/atomic"
	"unsafe"

	rt "github.com/livekit/media-sdk/vmcrt"
)

// Under the controlled scheduler exactly one thread runs, so a plain access after the scheduling
// point is atomic. Outside an execution these operations are only used single-threaded or through
// the real package, see passthrough.go.

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) And(m int32) int32              { return AndInt32(&x.v, m) }
func (x *Int32) Or(m int32) int32               { return OrInt32(&x.v, m) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }

func LoadInt32(p *int32) int32 {
	if !rt.Active() {
		return a.LoadInt32(p)
	}
	rt.AtomicPoint(unsafe.Pointer(p), false)
	rt.AcquireObj(unsafe.Pointer(p))
	return *p
}
func StoreInt32(p *int32, v int32) {
	if !rt.Active() {
		a.StoreInt32(p, v)
		return
	}
	rt.AtomicPoint(unsafe.Pointer(p), true)
	rt.ReleaseObj(unsafe.Pointer(p))
	*p = v
}
func SwapInt32(p *int32, v int32) int32 {
	if !rt.Active() {
		return a.SwapInt32(p, v)
	}
	rmw(unsafe.Pointer(p))
	o := *p
	*p = v
	return o
}
func AddInt32(p *int32, d int32) int32 {
	if !rt.Active() {
		return a.AddInt32(p, d)
	}
	rmw(unsafe.Pointer(p))
	*p += d
	return *p
}
func AndInt32(p *int32, m int32) int32 {
	if !rt.Active() {
		return a.AndInt32(p, m)
	}
	rmw(unsafe.Pointer(p))
	o := *p
	*p &= m
	return o
}
func OrInt32(p *int32, m int32) int32 {
	if !rt.Active() {
		return a.OrInt32(p, m)
	}
	rmw(unsafe.Pointer(p))
	o := *p
	*p |= m
	return o
}
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	if !rt.Active() {
		return a.CompareAndSwapInt32(p, o, n)
	}
	rmw(unsafe.Pointer(p))
	if *p != o {
		return false
	}
	*p = n
	return true
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) And(m int64) int64              { return AndInt64(&x.v, m) }
func (x *Int64) Or(m int64) int64               { return OrInt64(&x.v, m) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }

func LoadInt64(p *int64) int64 {
	if !rt.Active() {
		return a.LoadInt64(p)
	}
	rt.AtomicPoint(unsafe.Pointer(p), false)
	rt.AcquireObj(unsafe.Pointer(p))
	return *p
}
func StoreInt64(p *int64, v int64) {
	if !rt.Active() {
		a.StoreInt64(p, v)
		return
	}
	rt.AtomicPoint(unsafe.Pointer(p), true)
	rt.ReleaseObj(unsafe.Pointer(p))
	*p = v
}
func SwapInt64(p *int64, v int64) int64 {
	if !rt.Active() {
		return a.SwapInt64(p, v)
	}
	rmw(unsafe.Pointer(p))
	o := *p
	*p = v
	return o
}
func AddInt64(p *int64, d int64) int64 {
	if !rt.Active() {
		return a.AddInt64(p, d)
	}
	rmw(unsafe.Pointer(p))
	*p += d
	return *p
}
func AndInt64(p *int64, m int64) int64 {
	if !rt.Active() {
		return a.AndInt64(p, m)
	}
	rmw(unsafe.Pointer(p))
	o := *p
	*p &= m
	return o
}
func OrInt64(p *int64, m int64) int64 {
	if !rt.Active() {
		return a.OrInt64(p, m)
	}
	rmw(unsafe.Pointer(p))
	o := *p
	*p |= m
	return o
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	if !rt.Active() {
		return a.CompareAndSwapInt64(p, o, n)
	}
	rmw(unsafe.Pointer(p))
	if *p != o {
		return false
	}
	*p = n
	return true
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) And(m uint32) uint32             { return AndUint32(&x.v, m) }
func (x *Uint32) Or(m uint32) uint32              { return OrUint32(&x.v, m) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }

func LoadUint32(p *uint32) uint32 {
	if !rt.Active() {
		return a.LoadUint32(p)
	}
	rt.AtomicPoint(unsafe.Pointer(p), false)
	rt.AcquireObj(unsafe.Pointer(p))
	return *p
}
func StoreUint32(p *uint32, v uint32) {
	if !rt.Active() {
		a.StoreUint32(p, v)
		return
	}
	rt.AtomicPoint(unsafe.Pointer(p), true)
	rt.ReleaseObj(unsafe.Pointer(p))
	*p = v
}
func SwapUint32(p *uint32, v uint32) uint32 {
	if !rt.Active() {
		return a.SwapUint32(p, v)
	}
	rmw(unsafe.Pointer(p))
	o := *p
	*p = v
	return o
}
func AddUint32(p *uint32, d uint32) uint32 {
	if !rt.Active() {
		return a.AddUint32(p, d)
	}
	rmw(unsafe.Pointer(p))
	*p += d
	return *p
}
func AndUint32(p *uint32, m uint32) uint32 {
	if !rt.Active() {
		return a.AndUint32(p, m)
	}
	rmw(unsafe.Pointer(p))
	o := *p
	*p &= m
	return o
}
func OrUint32(p *uint32, m uint32) uint32 {
	if !rt.Active() {
		return a.OrUint32(p, m)
	}
	rmw(unsafe.Pointer(p))
	o := *p
	*p |= m
	return o
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	if !rt.Active() {
		return a.CompareAndSwapUint32(p, o, n)
	}
	rmw(unsafe.Pointer(p))
	if *p != o {
		return false
	}
	*p = n
	return true
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) And(m uint64) uint64             { return AndUint64(&x.v, m) }
func (x *Uint64) Or(m uint64) uint64              { return OrUint64(&x.v, m) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }

func LoadUint64(p *uint64) uint64 {
	if !rt.Active() {
		return a.LoadUint64(p)
	}
	rt.AtomicPoint(unsafe.Pointer(p), false)
	rt.AcquireObj(unsafe.Pointer(p))
	return *p
}
func StoreUint64(p *uint64, v uint64) {
	if !rt.Active() {
		a.StoreUint64(p, v)
		return
	}
	rt.AtomicPoint(unsafe.Pointer(p), true)
	rt.ReleaseObj(unsafe.Pointer(p))
	*p = v
}
func SwapUint64(p *uint64, v uint64) uint64 {
	if !rt.Active() {
		return a.SwapUint64(p, v)
	}
	rmw(unsafe.Pointer(p))
	o := *p
	*p = v
	return o
}
func AddUint64(p *uint64, d uint64) uint64 {
	if !rt.Active() {
		return a.AddUint64(p, d)
	}
	rmw(unsafe.Pointer(p))
	*p += d
	return *p
}
func AndUint64(p *uint64, m uint64) uint64 {
	if !rt.Active() {
		return a.AndUint64(p, m)
	}
	rmw(unsafe.Pointer(p))
	o := *p
	*p &= m
	return o
}
func OrUint64(p *uint64, m uint64) uint64 {
	if !rt.Active() {
		return a.OrUint64(p, m)
	}
	rmw(unsafe.Pointer(p))
	o := *p
	*p |= m
	return o
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	if !rt.Active() {
		return a.CompareAndSwapUint64(p, o, n)
	}
	rmw(unsafe.Pointer(p))
	if *p != o {
		return false
	}
	*p = n
	return true
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) And(m uintptr) uintptr            { return AndUintptr(&x.v, m) }
func (x *Uintptr) Or(m uintptr) uintptr             { return OrUintptr(&x.v, m) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }

func LoadUintptr(p *uintptr) uintptr {
	if !rt.Active() {
		return a.LoadUintptr(p)
	}
	rt.AtomicPoint(unsafe.Pointer(p), false)
	rt.AcquireObj(unsafe.Pointer(p))
	return *p
}
func StoreUintptr(p *uintptr, v uintptr) {
	if !rt.Active() {
		a.StoreUintptr(p, v)
		return
	}
	rt.AtomicPoint(unsafe.Pointer(p), true)
	rt.ReleaseObj(unsafe.Pointer(p))
	*p = v
}
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	if !rt.Active() {
		return a.SwapUintptr(p, v)
	}
	rmw(unsafe.Pointer(p))
	o := *p
	*p = v
	return o
}
func AddUintptr(p *uintptr, d uintptr) uintptr {
	if !rt.Active() {
		return a.AddUintptr(p, d)
	}
	rmw(unsafe.Pointer(p))
	*p += d
	return *p
}
func AndUintptr(p *uintptr, m uintptr) uintptr {
	if !rt.Active() {
		return a.AndUintptr(p, m)
	}
	rmw(unsafe.Pointer(p))
	o := *p
	*p &= m
	return o
}
func OrUintptr(p *uintptr, m uintptr) uintptr {
	if !rt.Active() {
		return a.OrUintptr(p, m)
	}
	rmw(unsafe.Pointer(p))
	o := *p
	*p |= m
	return o
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	if !rt.Active() {
		return a.CompareAndSwapUintptr(p, o, n)
	}
	rmw(unsafe.Pointer(p))
	if *p != o {
		return false
	}
	*p = n
	return true
}

func rmw(p unsafe.Pointer) {
	rt.AtomicPoint(p, true)
	rt.AcquireObj(p)
	rt.ReleaseObj(p)
}

type Bool struct{ v uint32 }

func b32(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}
func (x *Bool) Load() bool                    { return LoadUint32(&x.v) != 0 }
func (x *Bool) Store(v bool)                  { StoreUint32(&x.v, b32(v)) }
func (x *Bool) Swap(v bool) bool              { return SwapUint32(&x.v, b32(v)) != 0 }
func (x *Bool) CompareAndSwap(o, n bool) bool { return CompareAndSwapUint32(&x.v, b32(o), b32(n)) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	if !rt.Active() {
		return a.LoadPointer(p)
	}
	rt.AtomicPoint(unsafe.Pointer(p), false)
	rt.AcquireObj(unsafe.Pointer(p))
	return *p
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	if !rt.Active() {
		a.StorePointer(p, v)
		return
	}
	rt.AtomicPoint(unsafe.Pointer(p), true)
	rt.ReleaseObj(unsafe.Pointer(p))
	*p = v
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	if !rt.Active() {
		return a.SwapPointer(p, v)
	}
	rmw(unsafe.Pointer(p))
	o := *p
	*p = v
	return o
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	if !rt.Active() {
		return a.CompareAndSwapPointer(p, o, n)
	}
	rmw(unsafe.Pointer(p))
	if *p != o {
		return false
	}
	*p = n
	return true
}

type Pointer[T any] struct {
	_ [0]*T
	v unsafe.Pointer
}

func (x *Pointer[T]) Load() *T     { return (*T)(LoadPointer(&x.v)) }
func (x *Pointer[T]) Store(v *T)   { StorePointer(&x.v, unsafe.Pointer(v)) }
func (x *Pointer[T]) Swap(v *T) *T { return (*T)(SwapPointer(&x.v, unsafe.Pointer(v))) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	return CompareAndSwapPointer(&x.v, unsafe.Pointer(o), unsafe.Pointer(n))
}

type Value struct {
	real a.Value
	v    any
	set  bool
}

func (x *Value) Load() any {
	if !rt.Active() {
		return x.real.Load()
	}
	rt.AtomicPoint(unsafe.Pointer(x), false)
	rt.AcquireObj(unsafe.Pointer(x))
	if !x.set {
		return x.real.Load()
	}
	return x.v
}
func (x *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	if !rt.Active() {
		x.real.Store(v)
		return
	}
	rt.AtomicPoint(unsafe.Pointer(x), true)
	rt.ReleaseObj(unsafe.Pointer(x))
	x.v, x.set = v, true
}
func (x *Value) Swap(v any) any {
	if !rt.Active() {
		return x.real.Swap(v)
	}
	rmw(unsafe.Pointer(x))
	o := x.v
	x.v, x.set = v, true
	return o
}
func (x *Value) CompareAndSwap(o, n any) bool {
	if !rt.Active() {
		return x.real.CompareAndSwap(o, n)
	}
	rmw(unsafe.Pointer(x))
	if x.v != o {
		return false
	}
	x.v, x.set = n, true
	return true
}
