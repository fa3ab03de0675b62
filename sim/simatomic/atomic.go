// Package simatomic is package sync/atomic under the simulated scheduler: one
// task runs at a time, so the operations are plain ones that pass clocks on.
package simatomic

import (
	"sync/atomic"
	"unsafe"

	"recengine/internal/zzsim/rt"
)

func enter(p unsafe.Pointer) {
	rt.Yield(35)
	rt.AtomicAcquire(p)
}

func leave(p unsafe.Pointer) { rt.AtomicRelease(p) }

// LoadInt32 is atomic.LoadInt32.
func LoadInt32(p *int32) int32 { enter(unsafe.Pointer(p)); return *p }

// StoreInt32 is atomic.StoreInt32.
func StoreInt32(p *int32, v int32) { enter(unsafe.Pointer(p)); *p = v; leave(unsafe.Pointer(p)) }

// SwapInt32 is atomic.SwapInt32.
func SwapInt32(p *int32, v int32) int32 {
	enter(unsafe.Pointer(p))
	old := *p
	*p = v
	leave(unsafe.Pointer(p))
	return old
}

// CompareAndSwapInt32 is atomic.CompareAndSwapInt32.
func CompareAndSwapInt32(p *int32, old, v int32) bool {
	enter(unsafe.Pointer(p))
	if *p != old {
		return false
	}
	*p = v
	leave(unsafe.Pointer(p))
	return true
}

// AddInt32 is atomic.AddInt32.
func AddInt32(p *int32, d int32) int32 {
	enter(unsafe.Pointer(p))
	*p += d
	leave(unsafe.Pointer(p))
	return *p
}

// AndInt32 is atomic.AndInt32.
func AndInt32(p *int32, m int32) int32 {
	enter(unsafe.Pointer(p))
	old := *p
	*p &= m
	leave(unsafe.Pointer(p))
	return old
}

// OrInt32 is atomic.OrInt32.
func OrInt32(p *int32, m int32) int32 {
	enter(unsafe.Pointer(p))
	old := *p
	*p |= m
	leave(unsafe.Pointer(p))
	return old
}

// Int32 is atomic.Int32.
type Int32 struct{ v int32 }

// Load is (*atomic.Int32).Load.
func (x *Int32) Load() int32 { return LoadInt32(&x.v) }

// Store is (*atomic.Int32).Store.
func (x *Int32) Store(v int32) { StoreInt32(&x.v, v) }

// Swap is (*atomic.Int32).Swap.
func (x *Int32) Swap(v int32) int32 { return SwapInt32(&x.v, v) }

// CompareAndSwap is (*atomic.Int32).CompareAndSwap.
func (x *Int32) CompareAndSwap(old, v int32) bool { return CompareAndSwapInt32(&x.v, old, v) }

// Add is (*atomic.Int32).Add.
func (x *Int32) Add(d int32) int32 { return AddInt32(&x.v, d) }

// And is (*atomic.Int32).And.
func (x *Int32) And(m int32) int32 { return AndInt32(&x.v, m) }

// Or is (*atomic.Int32).Or.
func (x *Int32) Or(m int32) int32 { return OrInt32(&x.v, m) }

// LoadInt64 is atomic.LoadInt64.
func LoadInt64(p *int64) int64 { enter(unsafe.Pointer(p)); return *p }

// StoreInt64 is atomic.StoreInt64.
func StoreInt64(p *int64, v int64) { enter(unsafe.Pointer(p)); *p = v; leave(unsafe.Pointer(p)) }

// SwapInt64 is atomic.SwapInt64.
func SwapInt64(p *int64, v int64) int64 {
	enter(unsafe.Pointer(p))
	old := *p
	*p = v
	leave(unsafe.Pointer(p))
	return old
}

// CompareAndSwapInt64 is atomic.CompareAndSwapInt64.
func CompareAndSwapInt64(p *int64, old, v int64) bool {
	enter(unsafe.Pointer(p))
	if *p != old {
		return false
	}
	*p = v
	leave(unsafe.Pointer(p))
	return true
}

// AddInt64 is atomic.AddInt64.
func AddInt64(p *int64, d int64) int64 {
	enter(unsafe.Pointer(p))
	*p += d
	leave(unsafe.Pointer(p))
	return *p
}

// AndInt64 is atomic.AndInt64.
func AndInt64(p *int64, m int64) int64 {
	enter(unsafe.Pointer(p))
	old := *p
	*p &= m
	leave(unsafe.Pointer(p))
	return old
}

// OrInt64 is atomic.OrInt64.
func OrInt64(p *int64, m int64) int64 {
	enter(unsafe.Pointer(p))
	old := *p
	*p |= m
	leave(unsafe.Pointer(p))
	return old
}

// Int64 is atomic.Int64.
type Int64 struct{ v int64 }

// Load is (*atomic.Int64).Load.
func (x *Int64) Load() int64 { return LoadInt64(&x.v) }

// Store is (*atomic.Int64).Store.
func (x *Int64) Store(v int64) { StoreInt64(&x.v, v) }

// Swap is (*atomic.Int64).Swap.
func (x *Int64) Swap(v int64) int64 { return SwapInt64(&x.v, v) }

// CompareAndSwap is (*atomic.Int64).CompareAndSwap.
func (x *Int64) CompareAndSwap(old, v int64) bool { return CompareAndSwapInt64(&x.v, old, v) }

// Add is (*atomic.Int64).Add.
func (x *Int64) Add(d int64) int64 { return AddInt64(&x.v, d) }

// And is (*atomic.Int64).And.
func (x *Int64) And(m int64) int64 { return AndInt64(&x.v, m) }

// Or is (*atomic.Int64).Or.
func (x *Int64) Or(m int64) int64 { return OrInt64(&x.v, m) }

// LoadUint32 is atomic.LoadUint32.
func LoadUint32(p *uint32) uint32 { enter(unsafe.Pointer(p)); return *p }

// StoreUint32 is atomic.StoreUint32.
func StoreUint32(p *uint32, v uint32) { enter(unsafe.Pointer(p)); *p = v; leave(unsafe.Pointer(p)) }

// SwapUint32 is atomic.SwapUint32.
func SwapUint32(p *uint32, v uint32) uint32 {
	enter(unsafe.Pointer(p))
	old := *p
	*p = v
	leave(unsafe.Pointer(p))
	return old
}

// CompareAndSwapUint32 is atomic.CompareAndSwapUint32.
func CompareAndSwapUint32(p *uint32, old, v uint32) bool {
	enter(unsafe.Pointer(p))
	if *p != old {
		return false
	}
	*p = v
	leave(unsafe.Pointer(p))
	return true
}

// AddUint32 is atomic.AddUint32.
func AddUint32(p *uint32, d uint32) uint32 {
	enter(unsafe.Pointer(p))
	*p += d
	leave(unsafe.Pointer(p))
	return *p
}

// AndUint32 is atomic.AndUint32.
func AndUint32(p *uint32, m uint32) uint32 {
	enter(unsafe.Pointer(p))
	old := *p
	*p &= m
	leave(unsafe.Pointer(p))
	return old
}

// OrUint32 is atomic.OrUint32.
func OrUint32(p *uint32, m uint32) uint32 {
	enter(unsafe.Pointer(p))
	old := *p
	*p |= m
	leave(unsafe.Pointer(p))
	return old
}

// Uint32 is atomic.Uint32.
type Uint32 struct{ v uint32 }

// Load is (*atomic.Uint32).Load.
func (x *Uint32) Load() uint32 { return LoadUint32(&x.v) }

// Store is (*atomic.Uint32).Store.
func (x *Uint32) Store(v uint32) { StoreUint32(&x.v, v) }

// Swap is (*atomic.Uint32).Swap.
func (x *Uint32) Swap(v uint32) uint32 { return SwapUint32(&x.v, v) }

// CompareAndSwap is (*atomic.Uint32).CompareAndSwap.
func (x *Uint32) CompareAndSwap(old, v uint32) bool { return CompareAndSwapUint32(&x.v, old, v) }

// Add is (*atomic.Uint32).Add.
func (x *Uint32) Add(d uint32) uint32 { return AddUint32(&x.v, d) }

// And is (*atomic.Uint32).And.
func (x *Uint32) And(m uint32) uint32 { return AndUint32(&x.v, m) }

// Or is (*atomic.Uint32).Or.
func (x *Uint32) Or(m uint32) uint32 { return OrUint32(&x.v, m) }

// LoadUint64 is atomic.LoadUint64.
func LoadUint64(p *uint64) uint64 { enter(unsafe.Pointer(p)); return *p }

// StoreUint64 is atomic.StoreUint64.
func StoreUint64(p *uint64, v uint64) { enter(unsafe.Pointer(p)); *p = v; leave(unsafe.Pointer(p)) }

// SwapUint64 is atomic.SwapUint64.
func SwapUint64(p *uint64, v uint64) uint64 {
	enter(unsafe.Pointer(p))
	old := *p
	*p = v
	leave(unsafe.Pointer(p))
	return old
}

// CompareAndSwapUint64 is atomic.CompareAndSwapUint64.
func CompareAndSwapUint64(p *uint64, old, v uint64) bool {
	enter(unsafe.Pointer(p))
	if *p != old {
		return false
	}
	*p = v
	leave(unsafe.Pointer(p))
	return true
}

// AddUint64 is atomic.AddUint64.
func AddUint64(p *uint64, d uint64) uint64 {
	enter(unsafe.Pointer(p))
	*p += d
	leave(unsafe.Pointer(p))
	return *p
}

// AndUint64 is atomic.AndUint64.
func AndUint64(p *uint64, m uint64) uint64 {
	enter(unsafe.Pointer(p))
	old := *p
	*p &= m
	leave(unsafe.Pointer(p))
	return old
}

// OrUint64 is atomic.OrUint64.
func OrUint64(p *uint64, m uint64) uint64 {
	enter(unsafe.Pointer(p))
	old := *p
	*p |= m
	leave(unsafe.Pointer(p))
	return old
}

// Uint64 is atomic.Uint64.
type Uint64 struct{ v uint64 }

// Load is (*atomic.Uint64).Load.
func (x *Uint64) Load() uint64 { return LoadUint64(&x.v) }

// Store is (*atomic.Uint64).Store.
func (x *Uint64) Store(v uint64) { StoreUint64(&x.v, v) }

// Swap is (*atomic.Uint64).Swap.
func (x *Uint64) Swap(v uint64) uint64 { return SwapUint64(&x.v, v) }

// CompareAndSwap is (*atomic.Uint64).CompareAndSwap.
func (x *Uint64) CompareAndSwap(old, v uint64) bool { return CompareAndSwapUint64(&x.v, old, v) }

// Add is (*atomic.Uint64).Add.
func (x *Uint64) Add(d uint64) uint64 { return AddUint64(&x.v, d) }

// And is (*atomic.Uint64).And.
func (x *Uint64) And(m uint64) uint64 { return AndUint64(&x.v, m) }

// Or is (*atomic.Uint64).Or.
func (x *Uint64) Or(m uint64) uint64 { return OrUint64(&x.v, m) }

// LoadUintptr is atomic.LoadUintptr.
func LoadUintptr(p *uintptr) uintptr { enter(unsafe.Pointer(p)); return *p }

// StoreUintptr is atomic.StoreUintptr.
func StoreUintptr(p *uintptr, v uintptr) { enter(unsafe.Pointer(p)); *p = v; leave(unsafe.Pointer(p)) }

// SwapUintptr is atomic.SwapUintptr.
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	enter(unsafe.Pointer(p))
	old := *p
	*p = v
	leave(unsafe.Pointer(p))
	return old
}

// CompareAndSwapUintptr is atomic.CompareAndSwapUintptr.
func CompareAndSwapUintptr(p *uintptr, old, v uintptr) bool {
	enter(unsafe.Pointer(p))
	if *p != old {
		return false
	}
	*p = v
	leave(unsafe.Pointer(p))
	return true
}

// AddUintptr is atomic.AddUintptr.
func AddUintptr(p *uintptr, d uintptr) uintptr {
	enter(unsafe.Pointer(p))
	*p += d
	leave(unsafe.Pointer(p))
	return *p
}

// AndUintptr is atomic.AndUintptr.
func AndUintptr(p *uintptr, m uintptr) uintptr {
	enter(unsafe.Pointer(p))
	old := *p
	*p &= m
	leave(unsafe.Pointer(p))
	return old
}

// OrUintptr is atomic.OrUintptr.
func OrUintptr(p *uintptr, m uintptr) uintptr {
	enter(unsafe.Pointer(p))
	old := *p
	*p |= m
	leave(unsafe.Pointer(p))
	return old
}

// Uintptr is atomic.Uintptr.
type Uintptr struct{ v uintptr }

// Load is (*atomic.Uintptr).Load.
func (x *Uintptr) Load() uintptr { return LoadUintptr(&x.v) }

// Store is (*atomic.Uintptr).Store.
func (x *Uintptr) Store(v uintptr) { StoreUintptr(&x.v, v) }

// Swap is (*atomic.Uintptr).Swap.
func (x *Uintptr) Swap(v uintptr) uintptr { return SwapUintptr(&x.v, v) }

// CompareAndSwap is (*atomic.Uintptr).CompareAndSwap.
func (x *Uintptr) CompareAndSwap(old, v uintptr) bool { return CompareAndSwapUintptr(&x.v, old, v) }

// Add is (*atomic.Uintptr).Add.
func (x *Uintptr) Add(d uintptr) uintptr { return AddUintptr(&x.v, d) }

// And is (*atomic.Uintptr).And.
func (x *Uintptr) And(m uintptr) uintptr { return AndUintptr(&x.v, m) }

// Or is (*atomic.Uintptr).Or.
func (x *Uintptr) Or(m uintptr) uintptr { return OrUintptr(&x.v, m) }

// LoadPointer is atomic.LoadPointer.
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { enter(unsafe.Pointer(p)); return *p }

// StorePointer is atomic.StorePointer.
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	enter(unsafe.Pointer(p))
	*p = v
	leave(unsafe.Pointer(p))
}

// SwapPointer is atomic.SwapPointer.
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	enter(unsafe.Pointer(p))
	old := *p
	*p = v
	leave(unsafe.Pointer(p))
	return old
}

// CompareAndSwapPointer is atomic.CompareAndSwapPointer.
func CompareAndSwapPointer(p *unsafe.Pointer, old, v unsafe.Pointer) bool {
	enter(unsafe.Pointer(p))
	if *p != old {
		return false
	}
	*p = v
	leave(unsafe.Pointer(p))
	return true
}

// Bool is atomic.Bool.
type Bool struct{ v uint32 }

func b32(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}

// Load is (*atomic.Bool).Load.
func (x *Bool) Load() bool { return LoadUint32(&x.v) != 0 }

// Store is (*atomic.Bool).Store.
func (x *Bool) Store(v bool) { StoreUint32(&x.v, b32(v)) }

// Swap is (*atomic.Bool).Swap.
func (x *Bool) Swap(v bool) bool { return SwapUint32(&x.v, b32(v)) != 0 }

// CompareAndSwap is (*atomic.Bool).CompareAndSwap.
func (x *Bool) CompareAndSwap(old, v bool) bool {
	return CompareAndSwapUint32(&x.v, b32(old), b32(v))
}

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ p *T }

// Load is (*atomic.Pointer).Load.
func (x *Pointer[T]) Load() *T { enter(unsafe.Pointer(x)); return x.p }

// Store is (*atomic.Pointer).Store.
func (x *Pointer[T]) Store(v *T) { enter(unsafe.Pointer(x)); x.p = v; leave(unsafe.Pointer(x)) }

// Swap is (*atomic.Pointer).Swap.
func (x *Pointer[T]) Swap(v *T) *T {
	enter(unsafe.Pointer(x))
	old := x.p
	x.p = v
	leave(unsafe.Pointer(x))
	return old
}

// CompareAndSwap is (*atomic.Pointer).CompareAndSwap.
func (x *Pointer[T]) CompareAndSwap(old, v *T) bool {
	enter(unsafe.Pointer(x))
	if x.p != old {
		return false
	}
	x.p = v
	leave(unsafe.Pointer(x))
	return true
}

// Value is atomic.Value.
type Value struct{ v atomic.Value }

// Load is (*atomic.Value).Load.
func (x *Value) Load() any { enter(unsafe.Pointer(x)); return x.v.Load() }

// Store is (*atomic.Value).Store.
func (x *Value) Store(v any) { enter(unsafe.Pointer(x)); x.v.Store(v); leave(unsafe.Pointer(x)) }

// Swap is (*atomic.Value).Swap.
func (x *Value) Swap(v any) any {
	enter(unsafe.Pointer(x))
	old := x.v.Swap(v)
	leave(unsafe.Pointer(x))
	return old
}

// CompareAndSwap is (*atomic.Value).CompareAndSwap.
func (x *Value) CompareAndSwap(old, v any) bool {
	enter(unsafe.Pointer(x))
	ok := x.v.CompareAndSwap(old, v)
	if ok {
		leave(unsafe.Pointer(x))
	}
	return ok
}
