// Package zzvatomic replaces sync/atomic in the natively replayed code.
package zzvatomic

import (
	"sync/atomic"
	"unsafe"

	vrt "MODPATH/zzvrt"
)

// Value is a scheduled atomic.Value.
type Value struct{ v atomic.Value }

// Load loads.
func (x *Value) Load() interface{} { vrt.Yield(); return x.v.Load() }

// Store stores.
func (x *Value) Store(v interface{}) { vrt.Yield(); x.v.Store(v) }

// Bool is a scheduled atomic.Bool.
type Bool struct{ v atomic.Bool }

// Load loads.
func (x *Bool) Load() bool { vrt.Yield(); return x.v.Load() }

// Store stores.
func (x *Bool) Store(v bool) { vrt.Yield(); x.v.Store(v) }

// LoadInt32 loads.
func LoadInt32(p *int32) int32 { vrt.Yield(); return atomic.LoadInt32(p) }

// StoreInt32 stores.
func StoreInt32(p *int32, v int32) { vrt.Yield(); atomic.StoreInt32(p, v) }

// SwapInt32 swaps.
func SwapInt32(p *int32, v int32) int32 { vrt.Yield(); return atomic.SwapInt32(p, v) }

// CompareAndSwapInt32 compares and swaps.
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vrt.Yield()
	return atomic.CompareAndSwapInt32(p, o, n)
}

// AddInt32 adds.
func AddInt32(p *int32, d int32) int32 { vrt.Yield(); return atomic.AddInt32(p, d) }

// Int32 is a scheduled atomic.Int32.
type Int32 struct{ v int32 }

// Load loads.
func (x *Int32) Load() int32 { return LoadInt32(&x.v) }

// Store stores.
func (x *Int32) Store(v int32) { StoreInt32(&x.v, v) }

// Add adds.
func (x *Int32) Add(d int32) int32 { return AddInt32(&x.v, d) }

// Swap swaps.
func (x *Int32) Swap(v int32) int32 { return SwapInt32(&x.v, v) }

// CompareAndSwap compares and swaps.
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }

// LoadInt64 loads.
func LoadInt64(p *int64) int64 { vrt.Yield(); return atomic.LoadInt64(p) }

// StoreInt64 stores.
func StoreInt64(p *int64, v int64) { vrt.Yield(); atomic.StoreInt64(p, v) }

// SwapInt64 swaps.
func SwapInt64(p *int64, v int64) int64 { vrt.Yield(); return atomic.SwapInt64(p, v) }

// CompareAndSwapInt64 compares and swaps.
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vrt.Yield()
	return atomic.CompareAndSwapInt64(p, o, n)
}

// AddInt64 adds.
func AddInt64(p *int64, d int64) int64 { vrt.Yield(); return atomic.AddInt64(p, d) }

// Int64 is a scheduled atomic.Int64.
type Int64 struct{ v int64 }

// Load loads.
func (x *Int64) Load() int64 { return LoadInt64(&x.v) }

// Store stores.
func (x *Int64) Store(v int64) { StoreInt64(&x.v, v) }

// Add adds.
func (x *Int64) Add(d int64) int64 { return AddInt64(&x.v, d) }

// Swap swaps.
func (x *Int64) Swap(v int64) int64 { return SwapInt64(&x.v, v) }

// CompareAndSwap compares and swaps.
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }

// LoadUint32 loads.
func LoadUint32(p *uint32) uint32 { vrt.Yield(); return atomic.LoadUint32(p) }

// StoreUint32 stores.
func StoreUint32(p *uint32, v uint32) { vrt.Yield(); atomic.StoreUint32(p, v) }

// SwapUint32 swaps.
func SwapUint32(p *uint32, v uint32) uint32 { vrt.Yield(); return atomic.SwapUint32(p, v) }

// CompareAndSwapUint32 compares and swaps.
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vrt.Yield()
	return atomic.CompareAndSwapUint32(p, o, n)
}

// AddUint32 adds.
func AddUint32(p *uint32, d uint32) uint32 { vrt.Yield(); return atomic.AddUint32(p, d) }

// Uint32 is a scheduled atomic.Uint32.
type Uint32 struct{ v uint32 }

// Load loads.
func (x *Uint32) Load() uint32 { return LoadUint32(&x.v) }

// Store stores.
func (x *Uint32) Store(v uint32) { StoreUint32(&x.v, v) }

// Add adds.
func (x *Uint32) Add(d uint32) uint32 { return AddUint32(&x.v, d) }

// Swap swaps.
func (x *Uint32) Swap(v uint32) uint32 { return SwapUint32(&x.v, v) }

// CompareAndSwap compares and swaps.
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }

// LoadUint64 loads.
func LoadUint64(p *uint64) uint64 { vrt.Yield(); return atomic.LoadUint64(p) }

// StoreUint64 stores.
func StoreUint64(p *uint64, v uint64) { vrt.Yield(); atomic.StoreUint64(p, v) }

// SwapUint64 swaps.
func SwapUint64(p *uint64, v uint64) uint64 { vrt.Yield(); return atomic.SwapUint64(p, v) }

// CompareAndSwapUint64 compares and swaps.
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vrt.Yield()
	return atomic.CompareAndSwapUint64(p, o, n)
}

// AddUint64 adds.
func AddUint64(p *uint64, d uint64) uint64 { vrt.Yield(); return atomic.AddUint64(p, d) }

// Uint64 is a scheduled atomic.Uint64.
type Uint64 struct{ v uint64 }

// Load loads.
func (x *Uint64) Load() uint64 { return LoadUint64(&x.v) }

// Store stores.
func (x *Uint64) Store(v uint64) { StoreUint64(&x.v, v) }

// Add adds.
func (x *Uint64) Add(d uint64) uint64 { return AddUint64(&x.v, d) }

// Swap swaps.
func (x *Uint64) Swap(v uint64) uint64 { return SwapUint64(&x.v, v) }

// CompareAndSwap compares and swaps.
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }

// LoadUintptr loads.
func LoadUintptr(p *uintptr) uintptr { vrt.Yield(); return atomic.LoadUintptr(p) }

// StoreUintptr stores.
func StoreUintptr(p *uintptr, v uintptr) { vrt.Yield(); atomic.StoreUintptr(p, v) }

// SwapUintptr swaps.
func SwapUintptr(p *uintptr, v uintptr) uintptr { vrt.Yield(); return atomic.SwapUintptr(p, v) }

// CompareAndSwapUintptr compares and swaps.
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	vrt.Yield()
	return atomic.CompareAndSwapUintptr(p, o, n)
}

// AddUintptr adds.
func AddUintptr(p *uintptr, d uintptr) uintptr { vrt.Yield(); return atomic.AddUintptr(p, d) }

// Uintptr is a scheduled atomic.Uintptr.
type Uintptr struct{ v uintptr }

// Load loads.
func (x *Uintptr) Load() uintptr { return LoadUintptr(&x.v) }

// Store stores.
func (x *Uintptr) Store(v uintptr) { StoreUintptr(&x.v, v) }

// Add adds.
func (x *Uintptr) Add(d uintptr) uintptr { return AddUintptr(&x.v, d) }

// Swap swaps.
func (x *Uintptr) Swap(v uintptr) uintptr { return SwapUintptr(&x.v, v) }

// CompareAndSwap compares and swaps.
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }

// LoadPointer loads.
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { vrt.Yield(); return atomic.LoadPointer(p) }

// StorePointer stores.
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { vrt.Yield(); atomic.StorePointer(p, v) }

// SwapPointer swaps.
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	vrt.Yield()
	return atomic.SwapPointer(p, v)
}

// CompareAndSwapPointer compares and swaps.
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vrt.Yield()
	return atomic.CompareAndSwapPointer(p, o, n)
}
