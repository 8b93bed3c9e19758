// Package sync replaces the standard package in the controlled build.
package sync

import (
	gosync "sync"
	"unsafe"

	mcs "github.com/qmuntal/gltf/mcs"
)

type Locker = gosync.Locker
type Cond = gosync.Cond

func NewCond(l Locker) *Cond { return gosync.NewCond(l) }

// Mutex is a mutual exclusion lock.
type Mutex struct {
	real   gosync.Mutex
	locked bool
	tag    byte
}

//go:norace
func (m *Mutex) Ready(op int) bool { return !m.locked }

//go:norace
func (m *Mutex) Lock() {
	if !mcs.Controlled() {
		m.real.Lock()
		return
	}
	mcs.Op("Mutex.Lock", m, 0)
	m.locked = true
	mcs.Acquire(unsafe.Pointer(&m.tag))
}

//go:norace
func (m *Mutex) TryLock() bool {
	if !mcs.Controlled() {
		return m.real.TryLock()
	}
	mcs.Op("Mutex.TryLock", nil, 0)
	if m.locked {
		return false
	}
	m.locked = true
	mcs.Acquire(unsafe.Pointer(&m.tag))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !mcs.Controlled() {
		m.real.Unlock()
		return
	}
	if mcs.Aborting() {
		m.locked = false
		return
	}
	mcs.Op("Mutex.Unlock", nil, 0)
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	mcs.Release(unsafe.Pointer(&m.tag))
	m.locked = false
}

// RWMutex is a reader/writer lock; a waiting writer keeps new readers out.
type RWMutex struct {
	real    gosync.RWMutex
	pending bool
	writer  bool
	readers int
	rtag    byte
	wtag    byte
}

//go:norace
func (m *RWMutex) Ready(op int) bool {
	switch op {
	case 0: // a reader
		return !m.pending
	case 1: // a writer that announces itself
		return !m.pending
	default: // a writer that waits for the readers
		return m.readers == 0
	}
}

//go:norace
func (m *RWMutex) RLock() {
	if !mcs.Controlled() {
		m.real.RLock()
		return
	}
	mcs.Op("RWMutex.RLock", m, 0)
	m.readers++
	mcs.Acquire(unsafe.Pointer(&m.rtag))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if !mcs.Controlled() {
		return m.real.TryRLock()
	}
	mcs.Op("RWMutex.TryRLock", nil, 0)
	if m.pending {
		return false
	}
	m.readers++
	mcs.Acquire(unsafe.Pointer(&m.rtag))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if !mcs.Controlled() {
		m.real.RUnlock()
		return
	}
	if mcs.Aborting() {
		m.readers--
		return
	}
	mcs.Op("RWMutex.RUnlock", nil, 0)
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	mcs.ReleaseMerge(unsafe.Pointer(&m.wtag))
	m.readers--
}

//go:norace
func (m *RWMutex) Lock() {
	if !mcs.Controlled() {
		m.real.Lock()
		return
	}
	mcs.Op("RWMutex.Lock", m, 1)
	m.pending = true
	mcs.Op("RWMutex.Lock (announced)", m, 2)
	m.writer = true
	mcs.Acquire(unsafe.Pointer(&m.rtag))
	mcs.Acquire(unsafe.Pointer(&m.wtag))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if !mcs.Controlled() {
		return m.real.TryLock()
	}
	mcs.Op("RWMutex.TryLock", nil, 0)
	if m.pending || m.readers > 0 {
		return false
	}
	m.pending, m.writer = true, true
	mcs.Acquire(unsafe.Pointer(&m.rtag))
	mcs.Acquire(unsafe.Pointer(&m.wtag))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !mcs.Controlled() {
		m.real.Unlock()
		return
	}
	if mcs.Aborting() {
		m.pending, m.writer = false, false
		return
	}
	mcs.Op("RWMutex.Unlock", nil, 0)
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	mcs.Release(unsafe.Pointer(&m.rtag))
	m.pending, m.writer = false, false
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup waits for a collection of goroutines.
type WaitGroup struct {
	real gosync.WaitGroup
	n    int
	tag  byte
}

//go:norace
func (w *WaitGroup) Ready(op int) bool { return w.n == 0 }

//go:norace
func (w *WaitGroup) Add(d int) {
	if !mcs.Controlled() {
		w.real.Add(d)
		return
	}
	if !mcs.Aborting() {
		mcs.Op("WaitGroup.Add", nil, 0)
	}
	if d < 0 {
		mcs.ReleaseMerge(unsafe.Pointer(&w.tag))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	if !mcs.Controlled() {
		w.real.Wait()
		return
	}
	mcs.Op("WaitGroup.Wait", w, 0)
	mcs.Acquire(unsafe.Pointer(&w.tag))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	mcs.Go(func() {
		defer w.Done()
		f()
	})
}

// Once runs a function once.
type Once struct {
	m    Mutex
	done bool
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) setDone() { o.done = true }

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type poolItem struct {
	v    any
	tag  byte
	next *poolItem
}

// Pool keeps objects for reuse; Get may return any of them or a new one.
type Pool struct {
	New  func() any
	m    gosync.Mutex
	head *poolItem // the last one put first
}

//go:norace
func (p *Pool) size() int {
	n := 0
	for it := p.head; it != nil; it = it.next {
		n++
	}
	return n
}

//go:norace
func (p *Pool) take(c int) *poolItem {
	at := &p.head
	for ; c > 0; c-- {
		at = &(*at).next
	}
	it := *at
	*at = it.next
	return it
}

//go:norace
func (p *Pool) Get() any {
	var it *poolItem
	if mcs.Controlled() {
		mcs.Op("Pool.Get", nil, 0)
		if n := p.size(); n > 0 {
			// 0: the last one put, then the older ones, n: none
			if c := mcs.Pick("Pool.Get item", n+1); c < n {
				it = p.take(c)
			}
		}
	} else {
		p.m.Lock()
		if p.head != nil {
			it = p.take(0)
		}
		p.m.Unlock()
	}
	if it == nil {
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	mcs.Acquire(unsafe.Pointer(&it.tag))
	return it.v
}

//go:norace
func (p *Pool) Put(v any) {
	if v == nil || mcs.Aborting() {
		return
	}
	if mcs.Controlled() {
		mcs.Op("Pool.Put", nil, 0)
	} else {
		p.m.Lock()
		defer p.m.Unlock()
	}
	it := &poolItem{v: v, next: p.head}
	mcs.ReleaseMerge(unsafe.Pointer(&it.tag))
	p.head = it
}

// Map is a concurrent map.
type Map struct {
	mu Mutex
	m  map[any]any
	k  []any // insertion order
}

func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.k = append(m.k, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, e := range m.k {
		if e == k {
			m.k = append(append([]any{}, m.k[:i]...), m.k[i+1:]...)
			break
		}
	}
}

func (m *Map) Load(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v any) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.set(k, v)
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) Swap(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	o, ok := m.m[k]
	m.set(k, v)
	return o, ok
}

func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if o, ok := m.m[k]; !ok || o != old {
		return false
	}
	m.set(k, new)
	return true
}

func (m *Map) CompareAndDelete(k, old any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if o, ok := m.m[k]; !ok || o != old {
		return false
	}
	m.del(k)
	return true
}

func (m *Map) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.m, m.k = nil, nil
}

func (m *Map) Range(f func(k, v any) bool) {
	m.mu.Lock()
	keys := append([]any{}, m.k...)
	m.mu.Unlock()
	for _, k := range keys {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}
