// Package vatomic replaces sync/atomic: every operation is a scheduling point.
package vatomic

import (
	"sync/atomic"

	"verifmc/vsched"
)

// AddInt32 ...
func AddInt32(p *int32, d int32) int32 { vsched.Point(); return atomic.AddInt32(p, d) }

// LoadInt32 ...
func LoadInt32(p *int32) int32 { vsched.Point(); return atomic.LoadInt32(p) }

// StoreInt32 ...
func StoreInt32(p *int32, v int32) { vsched.Point(); atomic.StoreInt32(p, v) }

// SwapInt32 ...
func SwapInt32(p *int32, v int32) int32 { vsched.Point(); return atomic.SwapInt32(p, v) }

// CompareAndSwapInt32 ...
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	vsched.Point()
	return atomic.CompareAndSwapInt32(p, a, b)
}

// Int32 ...
type Int32 struct{ v atomic.Int32 }

// Add ...
func (x *Int32) Add(d int32) int32 { vsched.Point(); return x.v.Add(d) }

// Load ...
func (x *Int32) Load() int32 { vsched.Point(); return x.v.Load() }

// Store ...
func (x *Int32) Store(v int32) { vsched.Point(); x.v.Store(v) }

// Swap ...
func (x *Int32) Swap(v int32) int32 { vsched.Point(); return x.v.Swap(v) }

// CompareAndSwap ...
func (x *Int32) CompareAndSwap(a, b int32) bool { vsched.Point(); return x.v.CompareAndSwap(a, b) }

// AddInt64 ...
func AddInt64(p *int64, d int64) int64 { vsched.Point(); return atomic.AddInt64(p, d) }

// LoadInt64 ...
func LoadInt64(p *int64) int64 { vsched.Point(); return atomic.LoadInt64(p) }

// StoreInt64 ...
func StoreInt64(p *int64, v int64) { vsched.Point(); atomic.StoreInt64(p, v) }

// SwapInt64 ...
func SwapInt64(p *int64, v int64) int64 { vsched.Point(); return atomic.SwapInt64(p, v) }

// CompareAndSwapInt64 ...
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	vsched.Point()
	return atomic.CompareAndSwapInt64(p, a, b)
}

// Int64 ...
type Int64 struct{ v atomic.Int64 }

// Add ...
func (x *Int64) Add(d int64) int64 { vsched.Point(); return x.v.Add(d) }

// Load ...
func (x *Int64) Load() int64 { vsched.Point(); return x.v.Load() }

// Store ...
func (x *Int64) Store(v int64) { vsched.Point(); x.v.Store(v) }

// Swap ...
func (x *Int64) Swap(v int64) int64 { vsched.Point(); return x.v.Swap(v) }

// CompareAndSwap ...
func (x *Int64) CompareAndSwap(a, b int64) bool { vsched.Point(); return x.v.CompareAndSwap(a, b) }

// AddUint32 ...
func AddUint32(p *uint32, d uint32) uint32 { vsched.Point(); return atomic.AddUint32(p, d) }

// LoadUint32 ...
func LoadUint32(p *uint32) uint32 { vsched.Point(); return atomic.LoadUint32(p) }

// StoreUint32 ...
func StoreUint32(p *uint32, v uint32) { vsched.Point(); atomic.StoreUint32(p, v) }

// SwapUint32 ...
func SwapUint32(p *uint32, v uint32) uint32 { vsched.Point(); return atomic.SwapUint32(p, v) }

// CompareAndSwapUint32 ...
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	vsched.Point()
	return atomic.CompareAndSwapUint32(p, a, b)
}

// Uint32 ...
type Uint32 struct{ v atomic.Uint32 }

// Add ...
func (x *Uint32) Add(d uint32) uint32 { vsched.Point(); return x.v.Add(d) }

// Load ...
func (x *Uint32) Load() uint32 { vsched.Point(); return x.v.Load() }

// Store ...
func (x *Uint32) Store(v uint32) { vsched.Point(); x.v.Store(v) }

// Swap ...
func (x *Uint32) Swap(v uint32) uint32 { vsched.Point(); return x.v.Swap(v) }

// CompareAndSwap ...
func (x *Uint32) CompareAndSwap(a, b uint32) bool { vsched.Point(); return x.v.CompareAndSwap(a, b) }

// AddUint64 ...
func AddUint64(p *uint64, d uint64) uint64 { vsched.Point(); return atomic.AddUint64(p, d) }

// LoadUint64 ...
func LoadUint64(p *uint64) uint64 { vsched.Point(); return atomic.LoadUint64(p) }

// StoreUint64 ...
func StoreUint64(p *uint64, v uint64) { vsched.Point(); atomic.StoreUint64(p, v) }

// SwapUint64 ...
func SwapUint64(p *uint64, v uint64) uint64 { vsched.Point(); return atomic.SwapUint64(p, v) }

// CompareAndSwapUint64 ...
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	vsched.Point()
	return atomic.CompareAndSwapUint64(p, a, b)
}

// Uint64 ...
type Uint64 struct{ v atomic.Uint64 }

// Add ...
func (x *Uint64) Add(d uint64) uint64 { vsched.Point(); return x.v.Add(d) }

// Load ...
func (x *Uint64) Load() uint64 { vsched.Point(); return x.v.Load() }

// Store ...
func (x *Uint64) Store(v uint64) { vsched.Point(); x.v.Store(v) }

// Swap ...
func (x *Uint64) Swap(v uint64) uint64 { vsched.Point(); return x.v.Swap(v) }

// CompareAndSwap ...
func (x *Uint64) CompareAndSwap(a, b uint64) bool { vsched.Point(); return x.v.CompareAndSwap(a, b) }

// Bool ...
type Bool struct{ v atomic.Bool }

// Load ...
func (x *Bool) Load() bool { vsched.Point(); return x.v.Load() }

// Store ...
func (x *Bool) Store(v bool) { vsched.Point(); x.v.Store(v) }

// Swap ...
func (x *Bool) Swap(v bool) bool { vsched.Point(); return x.v.Swap(v) }

// CompareAndSwap ...
func (x *Bool) CompareAndSwap(a, b bool) bool { vsched.Point(); return x.v.CompareAndSwap(a, b) }

// Value ...
type Value struct{ v atomic.Value }

// Load ...
func (x *Value) Load() interface{} { vsched.Point(); return x.v.Load() }

// Store ...
func (x *Value) Store(v interface{}) { vsched.Point(); x.v.Store(v) }

// Pointer ...
type Pointer[T any] struct{ v atomic.Pointer[T] }

// Load ...
func (x *Pointer[T]) Load() *T { vsched.Point(); return x.v.Load() }

// Store ...
func (x *Pointer[T]) Store(v *T) { vsched.Point(); x.v.Store(v) }

// Swap ...
func (x *Pointer[T]) Swap(v *T) *T { vsched.Point(); return x.v.Swap(v) }

// CompareAndSwap ...
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool { vsched.Point(); return x.v.CompareAndSwap(a, b) }
