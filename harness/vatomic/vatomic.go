//go:build go1.21

// Package vatomic wraps package sync/atomic for replays along a schedule.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/exascience/pargo/zz_verif/vs"
)

func op() { vs.Op("atomic") }

type Value struct{ v atomic.Value }

func (x *Value) Load() interface{}              { op(); return x.v.Load() }
func (x *Value) Store(v interface{})            { op(); x.v.Store(v) }
func (x *Value) Swap(v interface{}) interface{} { op(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n interface{}) bool {
	op()
	return x.v.CompareAndSwap(o, n)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { op(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { op(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { op(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { op(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { op(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { op(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { op(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { op(); return x.v.CompareAndSwap(o, n) }

func LoadPointer(a *unsafe.Pointer) unsafe.Pointer     { op(); return atomic.LoadPointer(a) }
func StorePointer(a *unsafe.Pointer, v unsafe.Pointer) { op(); atomic.StorePointer(a, v) }
func SwapPointer(a *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	op()
	return atomic.SwapPointer(a, v)
}
func CompareAndSwapPointer(a *unsafe.Pointer, o, n unsafe.Pointer) bool {
	op()
	return atomic.CompareAndSwapPointer(a, o, n)
}

func LoadInt32(a *int32) int32                      { op(); return atomic.LoadInt32(a) }
func StoreInt32(a *int32, v int32)                  { op(); atomic.StoreInt32(a, v) }
func AddInt32(a *int32, v int32) int32              { op(); return atomic.AddInt32(a, v) }
func SwapInt32(a *int32, v int32) int32             { op(); return atomic.SwapInt32(a, v) }
func AndInt32(a *int32, v int32) int32              { op(); return atomic.AndInt32(a, v) }
func OrInt32(a *int32, v int32) int32               { op(); return atomic.OrInt32(a, v) }
func CompareAndSwapInt32(a *int32, o, n int32) bool { op(); return atomic.CompareAndSwapInt32(a, o, n) }

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Add(v int32) int32              { return AddInt32(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) And(v int32) int32              { return AndInt32(&x.v, v) }
func (x *Int32) Or(v int32) int32               { return OrInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }

func LoadInt64(a *int64) int64                      { op(); return atomic.LoadInt64(a) }
func StoreInt64(a *int64, v int64)                  { op(); atomic.StoreInt64(a, v) }
func AddInt64(a *int64, v int64) int64              { op(); return atomic.AddInt64(a, v) }
func SwapInt64(a *int64, v int64) int64             { op(); return atomic.SwapInt64(a, v) }
func AndInt64(a *int64, v int64) int64              { op(); return atomic.AndInt64(a, v) }
func OrInt64(a *int64, v int64) int64               { op(); return atomic.OrInt64(a, v) }
func CompareAndSwapInt64(a *int64, o, n int64) bool { op(); return atomic.CompareAndSwapInt64(a, o, n) }

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Add(v int64) int64              { return AddInt64(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) And(v int64) int64              { return AndInt64(&x.v, v) }
func (x *Int64) Or(v int64) int64               { return OrInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }

func LoadUint32(a *uint32) uint32           { op(); return atomic.LoadUint32(a) }
func StoreUint32(a *uint32, v uint32)       { op(); atomic.StoreUint32(a, v) }
func AddUint32(a *uint32, v uint32) uint32  { op(); return atomic.AddUint32(a, v) }
func SwapUint32(a *uint32, v uint32) uint32 { op(); return atomic.SwapUint32(a, v) }
func AndUint32(a *uint32, v uint32) uint32  { op(); return atomic.AndUint32(a, v) }
func OrUint32(a *uint32, v uint32) uint32   { op(); return atomic.OrUint32(a, v) }
func CompareAndSwapUint32(a *uint32, o, n uint32) bool {
	op()
	return atomic.CompareAndSwapUint32(a, o, n)
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Add(v uint32) uint32             { return AddUint32(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) And(v uint32) uint32             { return AndUint32(&x.v, v) }
func (x *Uint32) Or(v uint32) uint32              { return OrUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }

func LoadUint64(a *uint64) uint64           { op(); return atomic.LoadUint64(a) }
func StoreUint64(a *uint64, v uint64)       { op(); atomic.StoreUint64(a, v) }
func AddUint64(a *uint64, v uint64) uint64  { op(); return atomic.AddUint64(a, v) }
func SwapUint64(a *uint64, v uint64) uint64 { op(); return atomic.SwapUint64(a, v) }
func AndUint64(a *uint64, v uint64) uint64  { op(); return atomic.AndUint64(a, v) }
func OrUint64(a *uint64, v uint64) uint64   { op(); return atomic.OrUint64(a, v) }
func CompareAndSwapUint64(a *uint64, o, n uint64) bool {
	op()
	return atomic.CompareAndSwapUint64(a, o, n)
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Add(v uint64) uint64             { return AddUint64(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) And(v uint64) uint64             { return AndUint64(&x.v, v) }
func (x *Uint64) Or(v uint64) uint64              { return OrUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }

func LoadUintptr(a *uintptr) uintptr            { op(); return atomic.LoadUintptr(a) }
func StoreUintptr(a *uintptr, v uintptr)        { op(); atomic.StoreUintptr(a, v) }
func AddUintptr(a *uintptr, v uintptr) uintptr  { op(); return atomic.AddUintptr(a, v) }
func SwapUintptr(a *uintptr, v uintptr) uintptr { op(); return atomic.SwapUintptr(a, v) }
func AndUintptr(a *uintptr, v uintptr) uintptr  { op(); return atomic.AndUintptr(a, v) }
func OrUintptr(a *uintptr, v uintptr) uintptr   { op(); return atomic.OrUintptr(a, v) }
func CompareAndSwapUintptr(a *uintptr, o, n uintptr) bool {
	op()
	return atomic.CompareAndSwapUintptr(a, o, n)
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Add(v uintptr) uintptr            { return AddUintptr(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) And(v uintptr) uintptr            { return AndUintptr(&x.v, v) }
func (x *Uintptr) Or(v uintptr) uintptr             { return OrUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }
