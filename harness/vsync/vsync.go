// Package vsync stands in for sync when a schedule is replayed: the same operations, with the same
// scheduling points as the symbolic machine.
package vsync

import (
	"sync"

	"verif/harness/vatomic"
	"verif/harness/vsched"
)

type Locker = sync.Locker

type Mutex struct{ rw RWMutex }

func (m *Mutex) Lock()         { m.rw.Lock() }
func (m *Mutex) Unlock()       { m.rw.Unlock() }
func (m *Mutex) TryLock() bool { return m.rw.TryLock() }

type RWMutex struct {
	locked           bool
	readers, waiting int
}

func (m *RWMutex) Lock() {
	vsched.Point()
	m.waiting++
	vsched.Wait(func() bool { return !m.locked && m.readers == 0 })
	m.waiting--
	m.locked = true
}

func (m *RWMutex) Unlock() {
	if !m.locked {
		panic("unlock of unlocked mutex")
	}
	m.locked = false
}

func (m *RWMutex) TryLock() bool {
	vsched.Point()
	if m.locked || m.readers > 0 {
		return false
	}
	m.locked = true
	return true
}

func (m *RWMutex) RLock() {
	vsched.Point()
	vsched.Wait(func() bool { return !m.locked && m.waiting == 0 })
	m.readers++
}

func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		panic("RUnlock of unlocked RWMutex")
	}
	m.readers--
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct{ count int }

func (w *WaitGroup) Add(n int) {
	w.count += n
	if w.count < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	vsched.Point()
	vsched.Wait(func() bool { return w.count == 0 })
}

type Once struct {
	done vatomic.Bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if !o.done.Load() {
		o.slow(f)
	}
}

func (o *Once) slow(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

type Pool struct {
	New  func() any
	list []any
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	vsched.Point()
	p.list = append(p.list, x)
}

func (p *Pool) Get() any {
	vsched.Point()
	if n := len(p.list); n > 0 {
		x := p.list[n-1]
		p.list = p.list[:n-1]
		return x
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { vsched.Point(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { vsched.Point(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { vsched.Point(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { vsched.Point(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { vsched.Point(); m.m.Delete(k) }
func (m *Map) Range(f func(k, v any) bool)      { vsched.Point(); m.m.Range(f) }
func (m *Map) Swap(k, v any) (any, bool)        { vsched.Point(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { vsched.Point(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { vsched.Point(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Clear()                           { vsched.Point(); m.m.Clear() }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}
