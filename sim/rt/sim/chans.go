package sim

import (
	"fmt"
	"iter"
	"reflect"
	"runtime/debug"
	"sort"
	"unsafe"
)

type waiter struct {
	g    *G
	val  any // value to send
	sel  *Select
	idx  int
	gone bool
}

type chanState struct {
	ref    any // keeps the channel alive so that its address is not reused
	cap    int
	buf    []any
	recvq  []*waiter
	sendq  []*waiter
	closed bool
	tap    func(v any) // sees every value that is handed over
}

func ptrOf[C any](ch C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func stateOf(p unsafe.Pointer, capacity int, ref any) *chanState {
	w := W
	cs := w.chans[p]
	if cs == nil {
		cs = &chanState{ref: ref, cap: capacity}
		w.chans[p] = cs
	}
	return cs
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if x.gone || x.g.state != gBlocked || (x.sel != nil && x.sel.done) {
			continue
		}
		return x
	}
	return nil
}

func (w *World) complete(x *waiter, val any, ok bool) {
	x.gone = true
	g := x.g
	g.selVal, g.selOK = val, ok
	if x.sel != nil {
		x.sel.done = true
		g.selDone = x.idx
	}
	w.ready(g)
}

// trySend attempts to send without blocking.
func (w *World) trySend(cs *chanState, v any) bool {
	if cs.closed {
		panic("send on closed channel")
	}
	if r := popWaiter(&cs.recvq); r != nil {
		w.complete(r, v, true)
		cs.handed(v)
		return true
	}
	if len(cs.buf) < cs.cap {
		cs.buf = append(cs.buf, v)
		cs.handed(v)
		return true
	}
	return false
}

func (cs *chanState) handed(v any) {
	if cs.tap != nil {
		cs.tap(v)
	}
}

// Tap calls f, at that very moment, for every value a sender hands over to the channel.
func Tap[T any](ch <-chan T, f func(v T)) {
	stateOf(ptrOf(ch), cap(ch), ch).tap = func(v any) { f(asT[T](v)) }
}

func (w *World) tryRecv(cs *chanState) (v any, ok, done bool) {
	if len(cs.buf) > 0 {
		v = cs.buf[0]
		cs.buf[0] = nil
		cs.buf = cs.buf[1:]
		if s := popWaiter(&cs.sendq); s != nil {
			cs.buf = append(cs.buf, s.val)
			w.complete(s, nil, true)
			cs.handed(s.val)
		}
		return v, true, true
	}
	if s := popWaiter(&cs.sendq); s != nil {
		v = s.val
		w.complete(s, nil, true)
		cs.handed(v)
		return v, true, true
	}
	if cs.closed {
		return nil, false, true
	}
	return nil, false, false
}

func asT[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// SendTo returns the function that performs ch <- v.
func SendTo[T any](ch chan<- T) func(v T) {
	return func(v T) {
		w := W
		if w == nil {
			ch <- v
			return
		}
		if w.dead {
			w.die()
		}
		if ch == nil {
			w.block("send on nil channel")
			return
		}
		cs := stateOf(ptrOf(ch), cap(ch), ch)
		if w.trySend(cs, v) {
			w.hotPoint()
			return
		}
		g := w.cur
		cs.sendq = append(cs.sendq, &waiter{g: g, val: v})
		w.block("chan send")
		if !g.selOK {
			panic("send on closed channel")
		}
	}
}

// Send performs ch <- v.
func Send[T any](ch chan<- T, v T) { SendTo(ch)(v) }

// TrySend sends without blocking; usable from events.
func TrySend[T any](ch chan<- T, v T) bool {
	w := W
	if w == nil || w.dead {
		return false
	}
	return w.trySend(stateOf(ptrOf(ch), cap(ch), ch), v)
}

// Recv2 performs v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	w := W
	if w == nil {
		v, ok := <-ch
		return v, ok
	}
	if w.dead {
		w.die()
	}
	if ch == nil {
		w.block("receive from nil channel")
		var z T
		return z, false
	}
	cs := stateOf(ptrOf(ch), cap(ch), ch)
	if v, ok, done := w.tryRecv(cs); done {
		w.hotPoint()
		return asT[T](v), ok
	}
	g := w.cur
	cs.recvq = append(cs.recvq, &waiter{g: g})
	w.block("chan receive")
	v, ok := g.selVal, g.selOK
	g.selVal = nil
	return asT[T](v), ok
}

// Recv performs <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// TryRecv receives without blocking.
func TryRecv[T any](ch <-chan T) (v T, ok, done bool) {
	w := W
	if w == nil || w.dead || ch == nil {
		return
	}
	x, ok, done := w.tryRecv(stateOf(ptrOf(ch), cap(ch), ch))
	return asT[T](x), ok, done
}

// Close performs close(ch).
func Close[T any](ch chan<- T) {
	w := W
	if w == nil {
		close(ch)
		return
	}
	if w.dead {
		return
	}
	if ch == nil {
		panic("close of nil channel")
	}
	cs := stateOf(ptrOf(ch), cap(ch), ch)
	if cs.closed {
		panic("close of closed channel")
	}
	cs.closed = true
	for {
		r := popWaiter(&cs.recvq)
		if r == nil {
			break
		}
		w.complete(r, nil, false)
	}
	for {
		s := popWaiter(&cs.sendq)
		if s == nil {
			break
		}
		w.complete(s, nil, false)
	}
	w.hotPoint()
}

// Len performs len(ch).
func Len[T any](ch <-chan T) int {
	if W == nil || ch == nil {
		return len(ch)
	}
	return len(stateOf(ptrOf(ch), cap(ch), ch).buf)
}

// RangeChan implements for v := range ch.
func RangeChan[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok {
				return
			}
			if !yield(v) {
				return
			}
		}
	}
}

// ---------------------------------------------------------------- select

type selCase struct {
	cs   *chanState
	send bool
	val  any
}

// Select is one execution of a select statement.
type Select struct {
	cases []selCase
	done  bool
}

// RecvCase gives access to the value received by a select case.
type RecvCase[T any] struct{ ok bool }

// NewSelect starts a select statement.
func NewSelect() *Select { return &Select{} }

// SelRecv adds a receive case.
func SelRecv[T any](s *Select, ch <-chan T) RecvCase[T] {
	if ch == nil || W == nil {
		s.cases = append(s.cases, selCase{})
		return RecvCase[T]{}
	}
	s.cases = append(s.cases, selCase{cs: stateOf(ptrOf(ch), cap(ch), ch)})
	return RecvCase[T]{}
}

// SelSend adds a send case.
func SelSend[T any](s *Select, ch chan<- T) func(v T) {
	return func(v T) {
		if ch == nil || W == nil {
			s.cases = append(s.cases, selCase{send: true})
			return
		}
		s.cases = append(s.cases, selCase{cs: stateOf(ptrOf(ch), cap(ch), ch), send: true, val: v})
	}
}

// Get returns the value received by the case that was chosen.
func (r RecvCase[T]) Get() T {
	g := W.cur
	v := g.selVal
	g.selVal = nil
	return asT[T](v)
}

// Get2 returns value and ok.
func (r RecvCase[T]) Get2() (T, bool) {
	g := W.cur
	v, ok := g.selVal, g.selOK
	g.selVal = nil
	return asT[T](v), ok
}

// Wait performs the select and returns the index of the chosen case, -1 for default.
func (s *Select) Wait(hasDefault bool) int {
	w := W
	if w == nil {
		panic("select outside a simulation")
	}
	if w.dead {
		w.die()
	}
	var ready []int
	for i := range s.cases {
		c := &s.cases[i]
		if c.cs == nil {
			continue
		}
		if c.send {
			if c.cs.closed || len(c.cs.buf) < c.cs.cap || peek(c.cs.recvq) {
				ready = append(ready, i)
			}
		} else if len(c.cs.buf) > 0 || c.cs.closed || peek(c.cs.sendq) {
			ready = append(ready, i)
		}
	}
	g := w.cur
	if len(ready) > 0 {
		i := ready[0]
		if len(ready) > 1 {
			i = ready[w.tape.Draw(streamSched, len(ready))]
		}
		c := &s.cases[i]
		if c.send {
			w.trySend(c.cs, c.val)
		} else {
			g.selVal, g.selOK, _ = w.tryRecv(c.cs)
		}
		v, ok := g.selVal, g.selOK
		w.hotPoint()
		g.selVal, g.selOK = v, ok
		return i
	}
	if hasDefault {
		w.hotPoint()
		return -1
	}
	for i := range s.cases {
		c := &s.cases[i]
		if c.cs == nil {
			continue
		}
		x := &waiter{g: g, sel: s, idx: i, val: c.val}
		if c.send {
			c.cs.sendq = append(c.cs.sendq, x)
		} else {
			c.cs.recvq = append(c.cs.recvq, x)
		}
	}
	w.block("select")
	// forget the other cases
	for i := range s.cases {
		if cs := s.cases[i].cs; cs != nil && i != g.selDone {
			if s.cases[i].send {
				prune(&cs.sendq, s)
			} else {
				prune(&cs.recvq, s)
			}
		}
	}
	if s.cases[g.selDone].send && !g.selOK {
		panic("send on closed channel")
	}
	return g.selDone
}

func peek(q []*waiter) bool {
	for _, x := range q {
		if !x.gone && x.g.state == gBlocked && !(x.sel != nil && x.sel.done) {
			return true
		}
	}
	return false
}

func prune(q *[]*waiter, s *Select) {
	out := (*q)[:0]
	for _, x := range *q {
		if x.sel != s {
			out = append(out, x)
		}
	}
	*q = out
}

// ---------------------------------------------------------------- maps

// The Go runtime ends a process in which a map is accessed while another
// goroutine is writing to it. A write to a shared map therefore takes time
// here (MW): whoever accesses the map meanwhile ends the process.

// MR is put around a shared map that is accessed.
func MR[M ~map[K]V, K comparable, V any](m M) M {
	if W != nil && len(W.mapWrites) > 0 {
		W.mapAccess(ptrOf(m))
	}
	return m
}

func (w *World) mapAccess(p unsafe.Pointer) {
	if g := w.mapWrites[p]; g != nil && g != w.cur && g.state != 99 && !w.dead && w.inEvent == 0 {
		stack := string(debug.Stack())
		w.raise(&Violation{Property: w.CrashProp, Class: "crash: concurrent map access in " + topFrame(stack),
			Detail: fmt.Sprintf("fatal error: goroutine %d (%s) accesses a map while goroutine %d (%s) is writing to it\n%s", w.cur.id, w.cur.name, g.id, g.name, trimStack(stack))})
		w.end()
	}
}

// MW follows a write to a shared map.
func MW[M ~map[K]V, K comparable, V any](m M) {
	w := W
	if w == nil || w.dead || w.inEvent > 0 || m == nil {
		return
	}
	p := ptrOf(m)
	if w.mapWrites[p] != nil {
		return
	}
	if w.mapWrites == nil {
		w.mapWrites = map[unsafe.Pointer]*G{}
	}
	w.mapWrites[p] = w.cur
	w.hot += 3 // worth a preemption more than other points
	w.hotPoint()
	delete(w.mapWrites, p)
}

// RangeMap iterates over a map in an order chosen by the tape.
func RangeMap[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		if len(MR(m)) == 0 {
			return
		}
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sortKeys(keys)
		if W != nil && len(keys) > 1 {
			// 0 keeps the sorted order
			switch n := len(keys); {
			case W.tape.Draw(StreamMap, 3) > 0 && !W.dead:
				for i := n - 1; i > 0; i-- {
					j := i - W.tape.Draw(StreamMap, i+1)
					keys[i], keys[j] = keys[j], keys[i]
				}
			}
		}
		for _, k := range keys {
			v, ok := MR(m)[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
		return
	case []int:
		sort.Ints(ks)
		return
	case []int32:
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		return
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := reflect.ValueOf(keys[i]), reflect.ValueOf(keys[j])
		switch {
		case a.CanInt():
			return a.Int() < b.Int()
		case a.CanUint():
			return a.Uint() < b.Uint()
		}
		return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j])
	})
}

// Sorted iterates over a map in the order of its keys.
func Sorted[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sortKeys(keys)
		for _, k := range keys {
			if v, ok := m[k]; ok && !yield(k, v) {
				return
			}
		}
	}
}

// Alloc is a number of elements to allocate. What no machine has ends the
// process, as the runtime would.
func Alloc[N ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n N, size int64) N {
	if n > 0 && uint64(n) > uint64(16<<30/size) {
		panic(fmt.Sprintf("out of memory: cannot allocate %d elements of %d bytes", uint64(n), size))
	}
	return n
}
