// Package ssync stands in for package sync.
package ssync

import (
	"fmt"
	"sort"

	"github.com/childe/healer/zz_sim/sim"
)

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct{ m sim.MutexState }

func (m *Mutex) Lock()         { m.m.Lock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

type RWMutex struct{ m sim.RWState }

func (m *RWMutex) Lock()           { m.m.Lock() }
func (m *RWMutex) Unlock()         { m.m.Unlock() }
func (m *RWMutex) TryLock() bool   { return m.m.TryLock() }
func (m *RWMutex) RLock()          { m.m.RLock() }
func (m *RWMutex) RUnlock()        { m.m.RUnlock() }
func (m *RWMutex) TryRLock() bool  { return m.m.TryRLock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct{ m sim.WGState }

func (w *WaitGroup) Add(d int) { w.m.Add(d) }
func (w *WaitGroup) Done()     { w.m.Add(-1) }
func (w *WaitGroup) Wait()     { w.m.Wait() }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sim.Go("WaitGroup.Go", func() { defer w.Done(); f() })
}

type Once struct {
	m    sim.MutexState
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type Cond struct {
	L Locker
	c sim.CondState
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait()        { c.c.Wait(c.L) }
func (c *Cond) Signal()      { c.c.Signal() }
func (c *Cond) Broadcast()   { c.c.Broadcast() }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// Pool never retains anything between Put and Get of different goroutines in a
// way that depends on the machine: it is a plain stack.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) { p.items = append(p.items, x) }

// Map is a deterministic sync.Map.
type Map struct{ m map[any]any }

func (m *Map) Load(k any) (any, bool) { v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	if a, ok := m.m[k]; ok {
		return a, true
	}
	m.Store(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) { v, ok := m.m[k]; delete(m.m, k); return v, ok }
func (m *Map) Delete(k any)                    { delete(m.m, k) }
func (m *Map) Clear()                          { m.m = nil }
func (m *Map) Swap(k, v any) (any, bool) {
	a, ok := m.m[k]
	m.Store(k, v)
	return a, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	if v, ok := m.m[k]; ok && v == o {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	keys := make([]any, 0, len(m.m))
	for k := range m.m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	for _, k := range keys {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}
