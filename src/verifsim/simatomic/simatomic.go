// Package simatomic replaces sync/atomic in instrumented code.
package simatomic

import (
	"sync/atomic"
	"unsafe"
	"verifsim/sim"
)

// preRead is pre for loads, which may be one of many in a loop that waits.
func preRead[T any](p *T) {
	if sim.W != nil && !sim.Exiting() {
		sim.SYcur()
		sim.AtomicLoad(unsafe.Pointer(p))
		sim.W.Polled()
	}
}

func tried(ok bool) bool {
	if !ok && sim.W != nil && !sim.Exiting() {
		sim.W.Polled()
	}
	return ok
}

func pre[T any](p *T) {
	if sim.W != nil && !sim.Exiting() {
		sim.SYcur()
		sim.AtomicStore(unsafe.Pointer(p))
	}
}

func AddInt32(p *int32, d int32) int32  { pre(p); return atomic.AddInt32(p, d) }
func LoadInt32(p *int32) int32          { preRead(p); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { pre(p); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { pre(p); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	pre(p)
	return tried(atomic.CompareAndSwapInt32(p, o, n))
}

// Int32 replaces atomic.Int32.
type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { preRead(x); return x.v.Load() }
func (x *Int32) Store(v int32)                  { pre(x); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { pre(x); return x.v.Swap(v) }
func (x *Int32) Add(d int32) int32              { pre(x); return x.v.Add(d) }
func (x *Int32) And(m int32) int32              { pre(x); return x.v.And(m) }
func (x *Int32) Or(m int32) int32               { pre(x); return x.v.Or(m) }
func (x *Int32) CompareAndSwap(o, n int32) bool { pre(x); return tried(x.v.CompareAndSwap(o, n)) }

func AddInt64(p *int64, d int64) int64  { pre(p); return atomic.AddInt64(p, d) }
func LoadInt64(p *int64) int64          { preRead(p); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { pre(p); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { pre(p); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	pre(p)
	return tried(atomic.CompareAndSwapInt64(p, o, n))
}

// Int64 replaces atomic.Int64.
type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { preRead(x); return x.v.Load() }
func (x *Int64) Store(v int64)                  { pre(x); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { pre(x); return x.v.Swap(v) }
func (x *Int64) Add(d int64) int64              { pre(x); return x.v.Add(d) }
func (x *Int64) And(m int64) int64              { pre(x); return x.v.And(m) }
func (x *Int64) Or(m int64) int64               { pre(x); return x.v.Or(m) }
func (x *Int64) CompareAndSwap(o, n int64) bool { pre(x); return tried(x.v.CompareAndSwap(o, n)) }

func AddUint32(p *uint32, d uint32) uint32  { pre(p); return atomic.AddUint32(p, d) }
func LoadUint32(p *uint32) uint32           { preRead(p); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { pre(p); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { pre(p); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	pre(p)
	return tried(atomic.CompareAndSwapUint32(p, o, n))
}

// Uint32 replaces atomic.Uint32.
type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { preRead(x); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { pre(x); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { pre(x); return x.v.Swap(v) }
func (x *Uint32) Add(d uint32) uint32             { pre(x); return x.v.Add(d) }
func (x *Uint32) And(m uint32) uint32             { pre(x); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32              { pre(x); return x.v.Or(m) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { pre(x); return tried(x.v.CompareAndSwap(o, n)) }

func AddUint64(p *uint64, d uint64) uint64  { pre(p); return atomic.AddUint64(p, d) }
func LoadUint64(p *uint64) uint64           { preRead(p); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { pre(p); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { pre(p); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	pre(p)
	return tried(atomic.CompareAndSwapUint64(p, o, n))
}

// Uint64 replaces atomic.Uint64.
type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { preRead(x); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { pre(x); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { pre(x); return x.v.Swap(v) }
func (x *Uint64) Add(d uint64) uint64             { pre(x); return x.v.Add(d) }
func (x *Uint64) And(m uint64) uint64             { pre(x); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64              { pre(x); return x.v.Or(m) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { pre(x); return tried(x.v.CompareAndSwap(o, n)) }

func AddUintptr(p *uintptr, d uintptr) uintptr  { pre(p); return atomic.AddUintptr(p, d) }
func LoadUintptr(p *uintptr) uintptr            { preRead(p); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { pre(p); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { pre(p); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	pre(p)
	return tried(atomic.CompareAndSwapUintptr(p, o, n))
}

// Uintptr replaces atomic.Uintptr.
type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { preRead(x); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { pre(x); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { pre(x); return x.v.Swap(v) }
func (x *Uintptr) Add(d uintptr) uintptr            { pre(x); return x.v.Add(d) }
func (x *Uintptr) And(m uintptr) uintptr            { pre(x); return x.v.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr             { pre(x); return x.v.Or(m) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { pre(x); return tried(x.v.CompareAndSwap(o, n)) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { preRead(p); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { pre(p); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	pre(p)
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	pre(p)
	return tried(atomic.CompareAndSwapPointer(p, o, n))
}

// Bool replaces atomic.Bool.
type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { preRead(x); return x.v.Load() }
func (x *Bool) Store(v bool)                  { pre(x); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { pre(x); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { pre(x); return tried(x.v.CompareAndSwap(o, n)) }

// Pointer replaces atomic.Pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { preRead(x); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { pre(x); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { pre(x); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { pre(x); return tried(x.v.CompareAndSwap(o, n)) }

// Value replaces atomic.Value.
type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { preRead(x); return x.v.Load() }
func (x *Value) Store(v any)                  { pre(x); x.v.Store(v) }
func (x *Value) Swap(v any) any               { pre(x); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { pre(x); return tried(x.v.CompareAndSwap(o, n)) }
