// Package vsync replaces package sync in instrumented packages: same API, but blocking is
// "durable" in the sense of testing/synctest, and every operation is a yield point.
package vsync

import (
	"sync"
	"sync/atomic"

	"github.com/Aize-Public/forego/verifshim/vyield"
)

type Locker = sync.Locker
type WaitGroup = sync.WaitGroup
type Pool = sync.Pool
type Cond = sync.Cond

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type Mutex struct {
	ch atomic.Pointer[chan struct{}]
}

func (m *Mutex) c() chan struct{} {
	p := m.ch.Load()
	if p == nil {
		c := make(chan struct{}, 1)
		m.ch.CompareAndSwap(nil, &c)
		p = m.ch.Load()
	}
	return *p
}
func (m *Mutex) Lock() {
	vyield.Y()
	m.c() <- struct{}{}
}
func (m *Mutex) TryLock() bool {
	vyield.Y()
	select {
	case m.c() <- struct{}{}:
		return true
	default:
		return false
	}
}
func (m *Mutex) Unlock() {
	select {
	case <-m.c():
	default:
		panic("sync: unlock of unlocked mutex")
	}
	vyield.Y()
}

type RWMutex struct {
	g       Mutex // guards the fields
	w       Mutex // held by the writer or on behalf of the readers
	readers int
}

func (m *RWMutex) Lock()   { m.w.Lock() }
func (m *RWMutex) Unlock() { m.w.Unlock() }
func (m *RWMutex) TryLock() bool {
	return m.w.TryLock()
}
func (m *RWMutex) RLock() {
	m.g.Lock()
	defer m.g.Unlock()
	if m.readers == 0 {
		m.w.Lock()
	}
	m.readers++
}
func (m *RWMutex) TryRLock() bool {
	if !m.g.TryLock() {
		return false
	}
	defer m.g.Unlock()
	if m.readers == 0 && !m.w.TryLock() {
		return false
	}
	m.readers++
	return true
}
func (m *RWMutex) RUnlock() {
	// not under g: a reader may be waiting for the writer while holding g only if readers == 0
	m.g.Lock()
	defer m.g.Unlock()
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 {
		m.w.Unlock()
	}
}

type rlocker RWMutex

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }
func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }

type Once struct {
	m    Mutex
	done atomic.Bool
}

func (o *Once) Do(f func()) {
	vyield.Y()
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { vyield.Y(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { vyield.Y(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { vyield.Y(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { vyield.Y(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { vyield.Y(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { vyield.Y(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { vyield.Y(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { vyield.Y(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool) {
	vyield.Y()
	m.m.Range(func(k, v any) bool {
		vyield.Y()
		return f(k, v)
	})
}
func (m *Map) Clear() {
	vyield.Y()
	m.m.Range(func(k, _ any) bool { m.m.Delete(k); return true })
}
