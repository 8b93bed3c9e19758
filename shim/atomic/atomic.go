// Package atomic replaces the standard package in the controlled build.
package atomic

import (
	goatomic "sync/atomic"
	"unsafe"

	mcs "github.com/qmuntal/gltf/mcs"
)

func y(name string) { mcs.Op(name, nil, 0) }

func AddInt32(p *int32, d int32) int32  { y("atomic.Add"); return goatomic.AddInt32(p, d) }
func LoadInt32(p *int32) int32          { y("atomic.Load"); return goatomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { y("atomic.Store"); goatomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { y("atomic.Swap"); return goatomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	y("atomic.CompareAndSwap")
	return goatomic.CompareAndSwapInt32(p, o, n)
}

type Int32 struct{ v goatomic.Int32 }

func (x *Int32) Load() int32        { y("atomic.Load"); return x.v.Load() }
func (x *Int32) Store(v int32)      { y("atomic.Store"); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32 { y("atomic.Swap"); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool {
	y("atomic.CompareAndSwap")
	return x.v.CompareAndSwap(o, n)
}
func (x *Int32) Add(d int32) int32 { y("atomic.Add"); return x.v.Add(d) }

func AddInt64(p *int64, d int64) int64  { y("atomic.Add"); return goatomic.AddInt64(p, d) }
func LoadInt64(p *int64) int64          { y("atomic.Load"); return goatomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { y("atomic.Store"); goatomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { y("atomic.Swap"); return goatomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	y("atomic.CompareAndSwap")
	return goatomic.CompareAndSwapInt64(p, o, n)
}

type Int64 struct{ v goatomic.Int64 }

func (x *Int64) Load() int64        { y("atomic.Load"); return x.v.Load() }
func (x *Int64) Store(v int64)      { y("atomic.Store"); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64 { y("atomic.Swap"); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool {
	y("atomic.CompareAndSwap")
	return x.v.CompareAndSwap(o, n)
}
func (x *Int64) Add(d int64) int64 { y("atomic.Add"); return x.v.Add(d) }

func AddUint32(p *uint32, d uint32) uint32  { y("atomic.Add"); return goatomic.AddUint32(p, d) }
func LoadUint32(p *uint32) uint32           { y("atomic.Load"); return goatomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { y("atomic.Store"); goatomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { y("atomic.Swap"); return goatomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	y("atomic.CompareAndSwap")
	return goatomic.CompareAndSwapUint32(p, o, n)
}

type Uint32 struct{ v goatomic.Uint32 }

func (x *Uint32) Load() uint32         { y("atomic.Load"); return x.v.Load() }
func (x *Uint32) Store(v uint32)       { y("atomic.Store"); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32 { y("atomic.Swap"); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool {
	y("atomic.CompareAndSwap")
	return x.v.CompareAndSwap(o, n)
}
func (x *Uint32) Add(d uint32) uint32 { y("atomic.Add"); return x.v.Add(d) }

func AddUint64(p *uint64, d uint64) uint64  { y("atomic.Add"); return goatomic.AddUint64(p, d) }
func LoadUint64(p *uint64) uint64           { y("atomic.Load"); return goatomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { y("atomic.Store"); goatomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { y("atomic.Swap"); return goatomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	y("atomic.CompareAndSwap")
	return goatomic.CompareAndSwapUint64(p, o, n)
}

type Uint64 struct{ v goatomic.Uint64 }

func (x *Uint64) Load() uint64         { y("atomic.Load"); return x.v.Load() }
func (x *Uint64) Store(v uint64)       { y("atomic.Store"); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64 { y("atomic.Swap"); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool {
	y("atomic.CompareAndSwap")
	return x.v.CompareAndSwap(o, n)
}
func (x *Uint64) Add(d uint64) uint64 { y("atomic.Add"); return x.v.Add(d) }

func AddUintptr(p *uintptr, d uintptr) uintptr  { y("atomic.Add"); return goatomic.AddUintptr(p, d) }
func LoadUintptr(p *uintptr) uintptr            { y("atomic.Load"); return goatomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { y("atomic.Store"); goatomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { y("atomic.Swap"); return goatomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	y("atomic.CompareAndSwap")
	return goatomic.CompareAndSwapUintptr(p, o, n)
}

type Uintptr struct{ v goatomic.Uintptr }

func (x *Uintptr) Load() uintptr          { y("atomic.Load"); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)        { y("atomic.Store"); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr { y("atomic.Swap"); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool {
	y("atomic.CompareAndSwap")
	return x.v.CompareAndSwap(o, n)
}
func (x *Uintptr) Add(d uintptr) uintptr { y("atomic.Add"); return x.v.Add(d) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { y("atomic.Load"); return goatomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	y("atomic.Store")
	goatomic.StorePointer(p, v)
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	y("atomic.Swap")
	return goatomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	y("atomic.CompareAndSwap")
	return goatomic.CompareAndSwapPointer(p, o, n)
}

type Bool struct{ v goatomic.Bool }

func (x *Bool) Load() bool       { y("atomic.Load"); return x.v.Load() }
func (x *Bool) Store(v bool)     { y("atomic.Store"); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool { y("atomic.Swap"); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	y("atomic.CompareAndSwap")
	return x.v.CompareAndSwap(o, n)
}

type Pointer[T any] struct{ v goatomic.Pointer[T] }

func (x *Pointer[T]) Load() *T     { y("atomic.Load"); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)   { y("atomic.Store"); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { y("atomic.Swap"); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	y("atomic.CompareAndSwap")
	return x.v.CompareAndSwap(o, n)
}

type Value struct{ v goatomic.Value }

func (x *Value) Load() any      { y("atomic.Load"); return x.v.Load() }
func (x *Value) Store(v any)    { y("atomic.Store"); x.v.Store(v) }
func (x *Value) Swap(v any) any { y("atomic.Swap"); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool {
	y("atomic.CompareAndSwap")
	return x.v.CompareAndSwap(o, n)
}
