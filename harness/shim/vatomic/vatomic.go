// Package vatomic replaces package sync/atomic in instrumented packages: every operation is a
// yield point, reached after its arguments were evaluated.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/Aize-Public/forego/verifshim/vyield"
)

type Value = atomic.Value

var _ unsafe.Pointer

func AddInt32(p *int32, d int32) int32  { vyield.Y(); return atomic.AddInt32(p, d) }
func LoadInt32(p *int32) int32          { vyield.Y(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { vyield.Y(); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { vyield.Y(); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, v int32) bool {
	vyield.Y()
	return atomic.CompareAndSwapInt32(p, o, v)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { vyield.Y(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { vyield.Y(); x.v.Store(v) }
func (x *Int32) Add(d int32) int32              { vyield.Y(); return x.v.Add(d) }
func (x *Int32) Swap(v int32) int32             { vyield.Y(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, v int32) bool { vyield.Y(); return x.v.CompareAndSwap(o, v) }

func AddInt64(p *int64, d int64) int64  { vyield.Y(); return atomic.AddInt64(p, d) }
func LoadInt64(p *int64) int64          { vyield.Y(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { vyield.Y(); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { vyield.Y(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, v int64) bool {
	vyield.Y()
	return atomic.CompareAndSwapInt64(p, o, v)
}

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { vyield.Y(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { vyield.Y(); x.v.Store(v) }
func (x *Int64) Add(d int64) int64              { vyield.Y(); return x.v.Add(d) }
func (x *Int64) Swap(v int64) int64             { vyield.Y(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, v int64) bool { vyield.Y(); return x.v.CompareAndSwap(o, v) }

func AddUint32(p *uint32, d uint32) uint32  { vyield.Y(); return atomic.AddUint32(p, d) }
func LoadUint32(p *uint32) uint32           { vyield.Y(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { vyield.Y(); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { vyield.Y(); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, v uint32) bool {
	vyield.Y()
	return atomic.CompareAndSwapUint32(p, o, v)
}

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { vyield.Y(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { vyield.Y(); x.v.Store(v) }
func (x *Uint32) Add(d uint32) uint32             { vyield.Y(); return x.v.Add(d) }
func (x *Uint32) Swap(v uint32) uint32            { vyield.Y(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, v uint32) bool { vyield.Y(); return x.v.CompareAndSwap(o, v) }

func AddUint64(p *uint64, d uint64) uint64  { vyield.Y(); return atomic.AddUint64(p, d) }
func LoadUint64(p *uint64) uint64           { vyield.Y(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { vyield.Y(); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { vyield.Y(); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, v uint64) bool {
	vyield.Y()
	return atomic.CompareAndSwapUint64(p, o, v)
}

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { vyield.Y(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { vyield.Y(); x.v.Store(v) }
func (x *Uint64) Add(d uint64) uint64             { vyield.Y(); return x.v.Add(d) }
func (x *Uint64) Swap(v uint64) uint64            { vyield.Y(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, v uint64) bool { vyield.Y(); return x.v.CompareAndSwap(o, v) }

func AddUintptr(p *uintptr, d uintptr) uintptr  { vyield.Y(); return atomic.AddUintptr(p, d) }
func LoadUintptr(p *uintptr) uintptr            { vyield.Y(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { vyield.Y(); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { vyield.Y(); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, v uintptr) bool {
	vyield.Y()
	return atomic.CompareAndSwapUintptr(p, o, v)
}

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { vyield.Y(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { vyield.Y(); x.v.Store(v) }
func (x *Uintptr) Add(d uintptr) uintptr            { vyield.Y(); return x.v.Add(d) }
func (x *Uintptr) Swap(v uintptr) uintptr           { vyield.Y(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, v uintptr) bool { vyield.Y(); return x.v.CompareAndSwap(o, v) }

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { vyield.Y(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { vyield.Y(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { vyield.Y(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, v bool) bool { vyield.Y(); return x.v.CompareAndSwap(o, v) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { vyield.Y(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { vyield.Y(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { vyield.Y(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, v *T) bool { vyield.Y(); return x.v.CompareAndSwap(o, v) }
