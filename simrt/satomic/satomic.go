// Package satomic stands in for package sync/atomic: every operation is a
// scheduling point.
package satomic

import (
	"sync/atomic"
	"unsafe"

	"simrt/sim"
)

func y() { sim.Yield("atomic") }

func LoadInt32(p *int32) int32       { y(); return *p }
func LoadInt64(p *int64) int64       { y(); return *p }
func LoadUint32(p *uint32) uint32    { y(); return *p }
func LoadUint64(p *uint64) uint64    { y(); return *p }
func LoadUintptr(p *uintptr) uintptr { y(); return *p }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	y()
	return *p
}
func StoreInt32(p *int32, v int32)       { y(); *p = v }
func StoreInt64(p *int64, v int64)       { y(); *p = v }
func StoreUint32(p *uint32, v uint32)    { y(); *p = v }
func StoreUint64(p *uint64, v uint64)    { y(); *p = v }
func StoreUintptr(p *uintptr, v uintptr) { y(); *p = v }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	y()
	*p = v
}
func AddInt32(p *int32, d int32) int32         { y(); *p += d; return *p }
func AddInt64(p *int64, d int64) int64         { y(); *p += d; return *p }
func AddUint32(p *uint32, d uint32) uint32     { y(); *p += d; return *p }
func AddUint64(p *uint64, d uint64) uint64     { y(); *p += d; return *p }
func AddUintptr(p *uintptr, d uintptr) uintptr { y(); *p += d; return *p }
func SwapInt32(p *int32, v int32) int32        { y(); o := *p; *p = v; return o }
func SwapInt64(p *int64, v int64) int64        { y(); o := *p; *p = v; return o }
func SwapUint32(p *uint32, v uint32) uint32    { y(); o := *p; *p = v; return o }
func SwapUint64(p *uint64, v uint64) uint64    { y(); o := *p; *p = v; return o }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	y()
	o := *p
	*p = v
	return o
}
func cas[T comparable](p *T, o, n T) bool {
	y()
	if *p == o {
		*p = n
		return true
	}
	return false
}
func CompareAndSwapInt32(p *int32, o, n int32) bool       { return cas(p, o, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool       { return cas(p, o, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool    { return cas(p, o, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool    { return cas(p, o, n) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool { return cas(p, o, n) }
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	return cas(p, o, n)
}
func AndInt32(p *int32, m int32) int32     { y(); o := *p; *p &= m; return o }
func OrInt32(p *int32, m int32) int32      { y(); o := *p; *p |= m; return o }
func AndUint32(p *uint32, m uint32) uint32 { y(); o := *p; *p &= m; return o }
func OrUint32(p *uint32, m uint32) uint32  { y(); o := *p; *p |= m; return o }

type integer interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

type num[T integer] struct{ v T }

func (x *num[T]) Load() T   { y(); return x.v }
func (x *num[T]) Store(v T) { y(); x.v = v }
func (x *num[T]) Add(d T) T { y(); x.v += d; return x.v }
func (x *num[T]) Swap(v T) T {
	y()
	o := x.v
	x.v = v
	return o
}
func (x *num[T]) CompareAndSwap(o, n T) bool { return cas(&x.v, o, n) }
func (x *num[T]) And(m T) T                  { y(); o := x.v; x.v &= m; return o }
func (x *num[T]) Or(m T) T                   { y(); o := x.v; x.v |= m; return o }

type Int32 struct{ num[int32] }
type Int64 struct{ num[int64] }
type Uint32 struct{ num[uint32] }
type Uint64 struct{ num[uint64] }
type Uintptr struct{ num[uintptr] }

type Bool struct{ v bool }

func (x *Bool) Load() bool   { y(); return x.v }
func (x *Bool) Store(v bool) { y(); x.v = v }
func (x *Bool) Swap(v bool) bool {
	y()
	o := x.v
	x.v = v
	return o
}
func (x *Bool) CompareAndSwap(o, n bool) bool { return cas(&x.v, o, n) }

type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T   { y(); return x.v }
func (x *Pointer[T]) Store(v *T) { y(); x.v = v }
func (x *Pointer[T]) Swap(v *T) *T {
	y()
	o := x.v
	x.v = v
	return o
}
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { return cas(&x.v, o, n) }

// Value keeps the semantics (and panics) of the real one.
type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { y(); return x.v.Load() }
func (x *Value) Store(v any)                  { y(); x.v.Store(v) }
func (x *Value) Swap(v any) any               { y(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { y(); return x.v.CompareAndSwap(o, n) }
