// Package vatomic mirrors sync/atomic under the controlled scheduler.
package vatomic

import "verif.local/mc/vsched"

func pt() { vsched.Op(nil, "atomic") }

// LoadInt32 and friends.
func LoadInt32(p *int32) int32          { pt(); return *p }
func StoreInt32(p *int32, v int32)      { pt(); *p = v }
func AddInt32(p *int32, d int32) int32  { pt(); *p += d; return *p }
func SwapInt32(p *int32, v int32) int32 { pt(); o := *p; *p = v; return o }
func AndInt32(p *int32, v int32) int32  { pt(); o := *p; *p &= v; return o }
func OrInt32(p *int32, v int32) int32   { pt(); o := *p; *p |= v; return o }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	pt()
	if *p != o {
		return false
	}
	*p = n
	return true
}

// Int32 is an atomic int32.
type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) And(v int32) int32              { return AndInt32(&x.v, v) }
func (x *Int32) Or(v int32) int32               { return OrInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }

// LoadInt64 and friends.
func LoadInt64(p *int64) int64          { pt(); return *p }
func StoreInt64(p *int64, v int64)      { pt(); *p = v }
func AddInt64(p *int64, d int64) int64  { pt(); *p += d; return *p }
func SwapInt64(p *int64, v int64) int64 { pt(); o := *p; *p = v; return o }
func AndInt64(p *int64, v int64) int64  { pt(); o := *p; *p &= v; return o }
func OrInt64(p *int64, v int64) int64   { pt(); o := *p; *p |= v; return o }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	pt()
	if *p != o {
		return false
	}
	*p = n
	return true
}

// Int64 is an atomic int64.
type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) And(v int64) int64              { return AndInt64(&x.v, v) }
func (x *Int64) Or(v int64) int64               { return OrInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }

// LoadUint32 and friends.
func LoadUint32(p *uint32) uint32           { pt(); return *p }
func StoreUint32(p *uint32, v uint32)       { pt(); *p = v }
func AddUint32(p *uint32, d uint32) uint32  { pt(); *p += d; return *p }
func SwapUint32(p *uint32, v uint32) uint32 { pt(); o := *p; *p = v; return o }
func AndUint32(p *uint32, v uint32) uint32  { pt(); o := *p; *p &= v; return o }
func OrUint32(p *uint32, v uint32) uint32   { pt(); o := *p; *p |= v; return o }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	pt()
	if *p != o {
		return false
	}
	*p = n
	return true
}

// Uint32 is an atomic uint32.
type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) And(v uint32) uint32             { return AndUint32(&x.v, v) }
func (x *Uint32) Or(v uint32) uint32              { return OrUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }

// LoadUint64 and friends.
func LoadUint64(p *uint64) uint64           { pt(); return *p }
func StoreUint64(p *uint64, v uint64)       { pt(); *p = v }
func AddUint64(p *uint64, d uint64) uint64  { pt(); *p += d; return *p }
func SwapUint64(p *uint64, v uint64) uint64 { pt(); o := *p; *p = v; return o }
func AndUint64(p *uint64, v uint64) uint64  { pt(); o := *p; *p &= v; return o }
func OrUint64(p *uint64, v uint64) uint64   { pt(); o := *p; *p |= v; return o }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	pt()
	if *p != o {
		return false
	}
	*p = n
	return true
}

// Uint64 is an atomic uint64.
type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) And(v uint64) uint64             { return AndUint64(&x.v, v) }
func (x *Uint64) Or(v uint64) uint64              { return OrUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }

// LoadUintptr and friends.
func LoadUintptr(p *uintptr) uintptr            { pt(); return *p }
func StoreUintptr(p *uintptr, v uintptr)        { pt(); *p = v }
func AddUintptr(p *uintptr, d uintptr) uintptr  { pt(); *p += d; return *p }
func SwapUintptr(p *uintptr, v uintptr) uintptr { pt(); o := *p; *p = v; return o }
func AndUintptr(p *uintptr, v uintptr) uintptr  { pt(); o := *p; *p &= v; return o }
func OrUintptr(p *uintptr, v uintptr) uintptr   { pt(); o := *p; *p |= v; return o }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	pt()
	if *p != o {
		return false
	}
	*p = n
	return true
}

// Uintptr is an atomic uintptr.
type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) And(v uintptr) uintptr            { return AndUintptr(&x.v, v) }
func (x *Uintptr) Or(v uintptr) uintptr             { return OrUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }

// Bool is an atomic bool.
type Bool struct{ v bool }

func (x *Bool) Load() bool       { pt(); return x.v }
func (x *Bool) Store(v bool)     { pt(); x.v = v }
func (x *Bool) Swap(v bool) bool { pt(); o := x.v; x.v = v; return o }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	pt()
	if x.v != o {
		return false
	}
	x.v = n
	return true
}

// Pointer is an atomic pointer.
type Pointer[T any] struct{ p *T }

func (x *Pointer[T]) Load() *T     { pt(); return x.p }
func (x *Pointer[T]) Store(v *T)   { pt(); x.p = v }
func (x *Pointer[T]) Swap(v *T) *T { pt(); o := x.p; x.p = v; return o }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	pt()
	if x.p != o {
		return false
	}
	x.p = n
	return true
}

// Value is an atomic value.
type Value struct{ v any }

func (x *Value) Load() any      { pt(); return x.v }
func (x *Value) Store(v any)    { pt(); x.v = v }
func (x *Value) Swap(v any) any { pt(); o := x.v; x.v = v; return o }
func (x *Value) CompareAndSwap(o, n any) bool {
	pt()
	if x.v != o {
		return false
	}
	x.v = n
	return true
}
