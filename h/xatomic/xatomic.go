// Package xatomic stands in for sync/atomic in /repo: every operation is a scheduling point.
package xatomic

import (
	"sync/atomic"
	"unsafe"

	"verif.local/h/sched"
)

func pt() { sched.Point("atomic") }

func LoadInt32(p *int32) int32                      { pt(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)                  { pt(); atomic.StoreInt32(p, v) }
func AddInt32(p *int32, v int32) int32              { pt(); return atomic.AddInt32(p, v) }
func SwapInt32(p *int32, v int32) int32             { pt(); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, a, b int32) bool { pt(); return atomic.CompareAndSwapInt32(p, a, b) }
func AndInt32(p *int32, v int32) int32              { pt(); return atomic.AndInt32(p, v) }
func OrInt32(p *int32, v int32) int32               { pt(); return atomic.OrInt32(p, v) }

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { pt(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { pt(); x.v.Store(v) }
func (x *Int32) Add(v int32) int32              { pt(); return x.v.Add(v) }
func (x *Int32) Swap(v int32) int32             { pt(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(a, b int32) bool { pt(); return x.v.CompareAndSwap(a, b) }
func (x *Int32) And(v int32) int32              { pt(); return x.v.And(v) }
func (x *Int32) Or(v int32) int32               { pt(); return x.v.Or(v) }

func LoadInt64(p *int64) int64                      { pt(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)                  { pt(); atomic.StoreInt64(p, v) }
func AddInt64(p *int64, v int64) int64              { pt(); return atomic.AddInt64(p, v) }
func SwapInt64(p *int64, v int64) int64             { pt(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, a, b int64) bool { pt(); return atomic.CompareAndSwapInt64(p, a, b) }
func AndInt64(p *int64, v int64) int64              { pt(); return atomic.AndInt64(p, v) }
func OrInt64(p *int64, v int64) int64               { pt(); return atomic.OrInt64(p, v) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { pt(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { pt(); x.v.Store(v) }
func (x *Int64) Add(v int64) int64              { pt(); return x.v.Add(v) }
func (x *Int64) Swap(v int64) int64             { pt(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(a, b int64) bool { pt(); return x.v.CompareAndSwap(a, b) }
func (x *Int64) And(v int64) int64              { pt(); return x.v.And(v) }
func (x *Int64) Or(v int64) int64               { pt(); return x.v.Or(v) }

func LoadUint32(p *uint32) uint32           { pt(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { pt(); atomic.StoreUint32(p, v) }
func AddUint32(p *uint32, v uint32) uint32  { pt(); return atomic.AddUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { pt(); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	pt()
	return atomic.CompareAndSwapUint32(p, a, b)
}
func AndUint32(p *uint32, v uint32) uint32 { pt(); return atomic.AndUint32(p, v) }
func OrUint32(p *uint32, v uint32) uint32  { pt(); return atomic.OrUint32(p, v) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { pt(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { pt(); x.v.Store(v) }
func (x *Uint32) Add(v uint32) uint32             { pt(); return x.v.Add(v) }
func (x *Uint32) Swap(v uint32) uint32            { pt(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(a, b uint32) bool { pt(); return x.v.CompareAndSwap(a, b) }
func (x *Uint32) And(v uint32) uint32             { pt(); return x.v.And(v) }
func (x *Uint32) Or(v uint32) uint32              { pt(); return x.v.Or(v) }

func LoadUint64(p *uint64) uint64           { pt(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { pt(); atomic.StoreUint64(p, v) }
func AddUint64(p *uint64, v uint64) uint64  { pt(); return atomic.AddUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { pt(); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	pt()
	return atomic.CompareAndSwapUint64(p, a, b)
}
func AndUint64(p *uint64, v uint64) uint64 { pt(); return atomic.AndUint64(p, v) }
func OrUint64(p *uint64, v uint64) uint64  { pt(); return atomic.OrUint64(p, v) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { pt(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { pt(); x.v.Store(v) }
func (x *Uint64) Add(v uint64) uint64             { pt(); return x.v.Add(v) }
func (x *Uint64) Swap(v uint64) uint64            { pt(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(a, b uint64) bool { pt(); return x.v.CompareAndSwap(a, b) }
func (x *Uint64) And(v uint64) uint64             { pt(); return x.v.And(v) }
func (x *Uint64) Or(v uint64) uint64              { pt(); return x.v.Or(v) }

func LoadUintptr(p *uintptr) uintptr            { pt(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { pt(); atomic.StoreUintptr(p, v) }
func AddUintptr(p *uintptr, v uintptr) uintptr  { pt(); return atomic.AddUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { pt(); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	pt()
	return atomic.CompareAndSwapUintptr(p, a, b)
}
func AndUintptr(p *uintptr, v uintptr) uintptr { pt(); return atomic.AndUintptr(p, v) }
func OrUintptr(p *uintptr, v uintptr) uintptr  { pt(); return atomic.OrUintptr(p, v) }

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { pt(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { pt(); x.v.Store(v) }
func (x *Uintptr) Add(v uintptr) uintptr            { pt(); return x.v.Add(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { pt(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool { pt(); return x.v.CompareAndSwap(a, b) }
func (x *Uintptr) And(v uintptr) uintptr            { pt(); return x.v.And(v) }
func (x *Uintptr) Or(v uintptr) uintptr             { pt(); return x.v.Or(v) }

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { pt(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { pt(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { pt(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(a, b bool) bool { pt(); return x.v.CompareAndSwap(a, b) }

type Value = atomic.Value
type Pointer[T any] = atomic.Pointer[T]

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { pt(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { pt(); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	pt()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	pt()
	return atomic.CompareAndSwapPointer(p, a, b)
}
