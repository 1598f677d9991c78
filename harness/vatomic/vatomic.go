// Package vatomic stands in for sync/atomic when a schedule is replayed.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verif/harness/vsched"
)

func LoadInt32(p *int32) int32                         { vsched.Point(); return atomic.LoadInt32(p) }
func LoadInt64(p *int64) int64                         { vsched.Point(); return atomic.LoadInt64(p) }
func LoadUint32(p *uint32) uint32                      { vsched.Point(); return atomic.LoadUint32(p) }
func LoadUint64(p *uint64) uint64                      { vsched.Point(); return atomic.LoadUint64(p) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { vsched.Point(); return atomic.LoadPointer(p) }
func StoreInt32(p *int32, v int32)                     { vsched.Point(); atomic.StoreInt32(p, v) }
func StoreInt64(p *int64, v int64)                     { vsched.Point(); atomic.StoreInt64(p, v) }
func StoreUint32(p *uint32, v uint32)                  { vsched.Point(); atomic.StoreUint32(p, v) }
func StoreUint64(p *uint64, v uint64)                  { vsched.Point(); atomic.StoreUint64(p, v) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { vsched.Point(); atomic.StorePointer(p, v) }
func AddInt32(p *int32, v int32) int32                 { vsched.Point(); return atomic.AddInt32(p, v) }
func AddInt64(p *int64, v int64) int64                 { vsched.Point(); return atomic.AddInt64(p, v) }
func AddUint32(p *uint32, v uint32) uint32             { vsched.Point(); return atomic.AddUint32(p, v) }
func AddUint64(p *uint64, v uint64) uint64             { vsched.Point(); return atomic.AddUint64(p, v) }
func SwapInt32(p *int32, v int32) int32                { vsched.Point(); return atomic.SwapInt32(p, v) }
func SwapInt64(p *int64, v int64) int64                { vsched.Point(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vsched.Point()
	return atomic.CompareAndSwapInt32(p, o, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vsched.Point()
	return atomic.CompareAndSwapInt64(p, o, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vsched.Point()
	return atomic.CompareAndSwapUint32(p, o, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vsched.Point()
	return atomic.CompareAndSwapUint64(p, o, n)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vsched.Point()
	return atomic.CompareAndSwapPointer(p, o, n)
}

type num interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

type counter[T num] struct{ v T }

func (c *counter[T]) Load() T    { vsched.Point(); return c.v }
func (c *counter[T]) Store(x T)  { vsched.Point(); c.v = x }
func (c *counter[T]) Add(x T) T  { vsched.Point(); c.v += x; return c.v }
func (c *counter[T]) Swap(x T) T { vsched.Point(); o := c.v; c.v = x; return o }
func (c *counter[T]) Or(x T) T   { vsched.Point(); o := c.v; c.v |= x; return o }
func (c *counter[T]) And(x T) T  { vsched.Point(); o := c.v; c.v &= x; return o }
func (c *counter[T]) CompareAndSwap(o, n T) bool {
	vsched.Point()
	if c.v != o {
		return false
	}
	c.v = n
	return true
}

type (
	Int32   = counter[int32]
	Int64   = counter[int64]
	Uint32  = counter[uint32]
	Uint64  = counter[uint64]
	Uintptr = counter[uintptr]
)

type Bool struct{ v bool }

func (b *Bool) Load() bool       { vsched.Point(); return b.v }
func (b *Bool) Store(x bool)     { vsched.Point(); b.v = x }
func (b *Bool) Swap(x bool) bool { vsched.Point(); o := b.v; b.v = x; return o }
func (b *Bool) CompareAndSwap(o, n bool) bool {
	vsched.Point()
	if b.v != o {
		return false
	}
	b.v = n
	return true
}

type Pointer[T any] struct{ p *T }

func (b *Pointer[T]) Load() *T     { vsched.Point(); return b.p }
func (b *Pointer[T]) Store(x *T)   { vsched.Point(); b.p = x }
func (b *Pointer[T]) Swap(x *T) *T { vsched.Point(); o := b.p; b.p = x; return o }
func (b *Pointer[T]) CompareAndSwap(o, n *T) bool {
	vsched.Point()
	if b.p != o {
		return false
	}
	b.p = n
	return true
}

type Value struct{ v any }

func (b *Value) Load() any { vsched.Point(); return b.v }
func (b *Value) Store(x any) {
	vsched.Point()
	if x == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	b.v = x
}
func (b *Value) Swap(x any) any { vsched.Point(); o := b.v; b.v = x; return o }
