// Package atomic shadows sync/atomic: a scheduling point followed by the real operation (which
// carries the exact happens-before semantics for the race detector).
package atomic

import (
	"sync/atomic"
	"unsafe"

	"go.opencensus.io/internal/vsched"
)

func pt(op string, p unsafe.Pointer) {
	if vsched.Exiting() {
		return
	}
	vsched.Point(op, nil)
	vsched.TouchAddr(p, op != "Load")
}

func LoadInt32(p *int32) int32 { pt("Load", unsafe.Pointer(p)); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32) { pt("Store", unsafe.Pointer(p)); atomic.StoreInt32(p, v) }
func AddInt32(p *int32, d int32) int32 { pt("Add", unsafe.Pointer(p)); return atomic.AddInt32(p, d) }
func SwapInt32(p *int32, v int32) int32 { pt("Swap", unsafe.Pointer(p)); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool { pt("CAS", unsafe.Pointer(p)); return atomic.CompareAndSwapInt32(p, o, n) }
func AndInt32(p *int32, v int32) int32 { pt("And", unsafe.Pointer(p)); return atomic.AndInt32(p, v) }
func OrInt32(p *int32, v int32) int32 { pt("Or", unsafe.Pointer(p)); return atomic.OrInt32(p, v) }

type Int32 struct{ v atomic.Int32 }

func (a *Int32) Load() int32 { pt("Load", unsafe.Pointer(&a.v)); return a.v.Load() }
func (a *Int32) Store(v int32) { pt("Store", unsafe.Pointer(&a.v)); a.v.Store(v) }
func (a *Int32) Add(d int32) int32 { pt("Add", unsafe.Pointer(&a.v)); return a.v.Add(d) }
func (a *Int32) Swap(v int32) int32 { pt("Swap", unsafe.Pointer(&a.v)); return a.v.Swap(v) }
func (a *Int32) CompareAndSwap(o, n int32) bool { pt("CAS", unsafe.Pointer(&a.v)); return a.v.CompareAndSwap(o, n) }
func (a *Int32) And(v int32) int32 { pt("And", unsafe.Pointer(&a.v)); return a.v.And(v) }
func (a *Int32) Or(v int32) int32 { pt("Or", unsafe.Pointer(&a.v)); return a.v.Or(v) }

func LoadInt64(p *int64) int64 { pt("Load", unsafe.Pointer(p)); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64) { pt("Store", unsafe.Pointer(p)); atomic.StoreInt64(p, v) }
func AddInt64(p *int64, d int64) int64 { pt("Add", unsafe.Pointer(p)); return atomic.AddInt64(p, d) }
func SwapInt64(p *int64, v int64) int64 { pt("Swap", unsafe.Pointer(p)); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool { pt("CAS", unsafe.Pointer(p)); return atomic.CompareAndSwapInt64(p, o, n) }
func AndInt64(p *int64, v int64) int64 { pt("And", unsafe.Pointer(p)); return atomic.AndInt64(p, v) }
func OrInt64(p *int64, v int64) int64 { pt("Or", unsafe.Pointer(p)); return atomic.OrInt64(p, v) }

type Int64 struct{ v atomic.Int64 }

func (a *Int64) Load() int64 { pt("Load", unsafe.Pointer(&a.v)); return a.v.Load() }
func (a *Int64) Store(v int64) { pt("Store", unsafe.Pointer(&a.v)); a.v.Store(v) }
func (a *Int64) Add(d int64) int64 { pt("Add", unsafe.Pointer(&a.v)); return a.v.Add(d) }
func (a *Int64) Swap(v int64) int64 { pt("Swap", unsafe.Pointer(&a.v)); return a.v.Swap(v) }
func (a *Int64) CompareAndSwap(o, n int64) bool { pt("CAS", unsafe.Pointer(&a.v)); return a.v.CompareAndSwap(o, n) }
func (a *Int64) And(v int64) int64 { pt("And", unsafe.Pointer(&a.v)); return a.v.And(v) }
func (a *Int64) Or(v int64) int64 { pt("Or", unsafe.Pointer(&a.v)); return a.v.Or(v) }

func LoadUint32(p *uint32) uint32 { pt("Load", unsafe.Pointer(p)); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32) { pt("Store", unsafe.Pointer(p)); atomic.StoreUint32(p, v) }
func AddUint32(p *uint32, d uint32) uint32 { pt("Add", unsafe.Pointer(p)); return atomic.AddUint32(p, d) }
func SwapUint32(p *uint32, v uint32) uint32 { pt("Swap", unsafe.Pointer(p)); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool { pt("CAS", unsafe.Pointer(p)); return atomic.CompareAndSwapUint32(p, o, n) }
func AndUint32(p *uint32, v uint32) uint32 { pt("And", unsafe.Pointer(p)); return atomic.AndUint32(p, v) }
func OrUint32(p *uint32, v uint32) uint32 { pt("Or", unsafe.Pointer(p)); return atomic.OrUint32(p, v) }

type Uint32 struct{ v atomic.Uint32 }

func (a *Uint32) Load() uint32 { pt("Load", unsafe.Pointer(&a.v)); return a.v.Load() }
func (a *Uint32) Store(v uint32) { pt("Store", unsafe.Pointer(&a.v)); a.v.Store(v) }
func (a *Uint32) Add(d uint32) uint32 { pt("Add", unsafe.Pointer(&a.v)); return a.v.Add(d) }
func (a *Uint32) Swap(v uint32) uint32 { pt("Swap", unsafe.Pointer(&a.v)); return a.v.Swap(v) }
func (a *Uint32) CompareAndSwap(o, n uint32) bool { pt("CAS", unsafe.Pointer(&a.v)); return a.v.CompareAndSwap(o, n) }
func (a *Uint32) And(v uint32) uint32 { pt("And", unsafe.Pointer(&a.v)); return a.v.And(v) }
func (a *Uint32) Or(v uint32) uint32 { pt("Or", unsafe.Pointer(&a.v)); return a.v.Or(v) }

func LoadUint64(p *uint64) uint64 { pt("Load", unsafe.Pointer(p)); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64) { pt("Store", unsafe.Pointer(p)); atomic.StoreUint64(p, v) }
func AddUint64(p *uint64, d uint64) uint64 { pt("Add", unsafe.Pointer(p)); return atomic.AddUint64(p, d) }
func SwapUint64(p *uint64, v uint64) uint64 { pt("Swap", unsafe.Pointer(p)); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool { pt("CAS", unsafe.Pointer(p)); return atomic.CompareAndSwapUint64(p, o, n) }
func AndUint64(p *uint64, v uint64) uint64 { pt("And", unsafe.Pointer(p)); return atomic.AndUint64(p, v) }
func OrUint64(p *uint64, v uint64) uint64 { pt("Or", unsafe.Pointer(p)); return atomic.OrUint64(p, v) }

type Uint64 struct{ v atomic.Uint64 }

func (a *Uint64) Load() uint64 { pt("Load", unsafe.Pointer(&a.v)); return a.v.Load() }
func (a *Uint64) Store(v uint64) { pt("Store", unsafe.Pointer(&a.v)); a.v.Store(v) }
func (a *Uint64) Add(d uint64) uint64 { pt("Add", unsafe.Pointer(&a.v)); return a.v.Add(d) }
func (a *Uint64) Swap(v uint64) uint64 { pt("Swap", unsafe.Pointer(&a.v)); return a.v.Swap(v) }
func (a *Uint64) CompareAndSwap(o, n uint64) bool { pt("CAS", unsafe.Pointer(&a.v)); return a.v.CompareAndSwap(o, n) }
func (a *Uint64) And(v uint64) uint64 { pt("And", unsafe.Pointer(&a.v)); return a.v.And(v) }
func (a *Uint64) Or(v uint64) uint64 { pt("Or", unsafe.Pointer(&a.v)); return a.v.Or(v) }

func LoadUintptr(p *uintptr) uintptr { pt("Load", unsafe.Pointer(p)); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr) { pt("Store", unsafe.Pointer(p)); atomic.StoreUintptr(p, v) }
func AddUintptr(p *uintptr, d uintptr) uintptr { pt("Add", unsafe.Pointer(p)); return atomic.AddUintptr(p, d) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { pt("Swap", unsafe.Pointer(p)); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool { pt("CAS", unsafe.Pointer(p)); return atomic.CompareAndSwapUintptr(p, o, n) }
func AndUintptr(p *uintptr, v uintptr) uintptr { pt("And", unsafe.Pointer(p)); return atomic.AndUintptr(p, v) }
func OrUintptr(p *uintptr, v uintptr) uintptr { pt("Or", unsafe.Pointer(p)); return atomic.OrUintptr(p, v) }

type Uintptr struct{ v atomic.Uintptr }

func (a *Uintptr) Load() uintptr { pt("Load", unsafe.Pointer(&a.v)); return a.v.Load() }
func (a *Uintptr) Store(v uintptr) { pt("Store", unsafe.Pointer(&a.v)); a.v.Store(v) }
func (a *Uintptr) Add(d uintptr) uintptr { pt("Add", unsafe.Pointer(&a.v)); return a.v.Add(d) }
func (a *Uintptr) Swap(v uintptr) uintptr { pt("Swap", unsafe.Pointer(&a.v)); return a.v.Swap(v) }
func (a *Uintptr) CompareAndSwap(o, n uintptr) bool { pt("CAS", unsafe.Pointer(&a.v)); return a.v.CompareAndSwap(o, n) }
func (a *Uintptr) And(v uintptr) uintptr { pt("And", unsafe.Pointer(&a.v)); return a.v.And(v) }
func (a *Uintptr) Or(v uintptr) uintptr { pt("Or", unsafe.Pointer(&a.v)); return a.v.Or(v) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { pt("Load", unsafe.Pointer(p)); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { pt("Store", unsafe.Pointer(p)); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	pt("Swap", unsafe.Pointer(p))
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	pt("CAS", unsafe.Pointer(p))
	return atomic.CompareAndSwapPointer(p, o, n)
}

type Bool struct{ v atomic.Bool }

func (a *Bool) Load() bool { pt("Load", unsafe.Pointer(&a.v)); return a.v.Load() }
func (a *Bool) Store(v bool) { pt("Store", unsafe.Pointer(&a.v)); a.v.Store(v) }
func (a *Bool) Swap(v bool) bool { pt("Swap", unsafe.Pointer(&a.v)); return a.v.Swap(v) }
func (a *Bool) CompareAndSwap(o, n bool) bool { pt("CAS", unsafe.Pointer(&a.v)); return a.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (a *Pointer[T]) Load() *T { pt("Load", unsafe.Pointer(&a.v)); return a.v.Load() }
func (a *Pointer[T]) Store(v *T) { pt("Store", unsafe.Pointer(&a.v)); a.v.Store(v) }
func (a *Pointer[T]) Swap(v *T) *T { pt("Swap", unsafe.Pointer(&a.v)); return a.v.Swap(v) }
func (a *Pointer[T]) CompareAndSwap(o, n *T) bool { pt("CAS", unsafe.Pointer(&a.v)); return a.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (a *Value) Load() any { pt("Load", unsafe.Pointer(&a.v)); return a.v.Load() }
func (a *Value) Store(v any) { pt("Store", unsafe.Pointer(&a.v)); a.v.Store(v) }
func (a *Value) Swap(v any) any { pt("Swap", unsafe.Pointer(&a.v)); return a.v.Swap(v) }
func (a *Value) CompareAndSwap(o, n any) bool { pt("CAS", unsafe.Pointer(&a.v)); return a.v.CompareAndSwap(o, n) }
