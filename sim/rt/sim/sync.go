package sim

// MutexState is the simulated mutex.
type MutexState struct {
	held bool
	q    []*G
	w    *World
}

func (m *MutexState) sync() {
	if m.w != W { // left over from another run
		m.held, m.q, m.w = false, nil, W
	}
}

func popG(q *[]*G) *G {
	for len(*q) > 0 {
		g := (*q)[0]
		*q = (*q)[1:]
		if g.state == gBlocked {
			return g
		}
	}
	return nil
}

// Lock acquires the mutex.
func (m *MutexState) Lock() {
	w := W
	if w == nil {
		return
	}
	if w.dead {
		w.die()
	}
	m.sync()
	w.hotPoint()
	if !m.held {
		m.held = true
		return
	}
	g := w.cur
	since := w.now
	for m.held {
		if w.now > since { // it has waited before: first in the queue, as in Go
			m.q = append([]*G{g}, m.q...)
		} else {
			m.q = append(m.q, g)
		}
		g.lockSince, g.handed = since, false
		w.block("mutex lock")
		if g.handed {
			g.handed = false
			return
		}
	}
	m.held = true
}

// starving is how long a goroutine waits before a mutex is handed to it directly.
const starving = 1000000

// TryLock tries to acquire the mutex.
func (m *MutexState) TryLock() bool {
	w := W
	if w == nil {
		return true
	}
	if w.dead {
		w.die()
	}
	m.sync()
	if m.held {
		return false
	}
	m.held = true
	return true
}

// Unlock releases the mutex.
func (m *MutexState) Unlock() {
	w := W
	if w == nil || w.dead {
		return
	}
	m.sync()
	if !m.held {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.held = false
	if g := popG(&m.q); g != nil {
		if w.now-g.lockSince > starving {
			m.held, g.handed = true, true
		}
		w.ready(g)
	}
	w.hotPoint()
}

// RWState is the simulated reader/writer mutex (writers block new readers).
type RWState struct {
	readers  int
	writer   bool
	waitingW int
	q        []*G
	w        *World
}

func (m *RWState) sync() {
	if m.w != W {
		*m = RWState{w: W}
	}
}

func (m *RWState) wakeAll() {
	for {
		g := popG(&m.q)
		if g == nil {
			return
		}
		m.w.ready(g)
	}
}

func (m *RWState) Lock() {
	w := W
	if w == nil {
		return
	}
	if w.dead {
		w.die()
	}
	m.sync()
	w.hotPoint()
	m.waitingW++
	for m.writer || m.readers > 0 {
		m.q = append(m.q, w.cur)
		w.block("rwmutex lock")
	}
	m.waitingW--
	m.writer = true
}

func (m *RWState) TryLock() bool {
	if W == nil {
		return true
	}
	m.sync()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWState) Unlock() {
	w := W
	if w == nil || w.dead {
		return
	}
	m.sync()
	if !m.writer {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.wakeAll()
	w.hotPoint()
}

func (m *RWState) RLock() {
	w := W
	if w == nil {
		return
	}
	if w.dead {
		w.die()
	}
	m.sync()
	w.hotPoint()
	for m.writer || m.waitingW > 0 {
		m.q = append(m.q, w.cur)
		w.block("rwmutex rlock")
	}
	m.readers++
}

func (m *RWState) TryRLock() bool {
	if W == nil {
		return true
	}
	m.sync()
	if m.writer || m.waitingW > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWState) RUnlock() {
	w := W
	if w == nil || w.dead {
		return
	}
	m.sync()
	if m.readers <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 {
		m.wakeAll()
	}
	w.hotPoint()
}

// WGState is the simulated WaitGroup.
type WGState struct {
	n int
	q []*G
	w *World
}

func (m *WGState) sync() {
	if m.w != W {
		*m = WGState{w: W}
	}
}

func (m *WGState) Add(d int) {
	w := W
	if w == nil || w.dead {
		return
	}
	m.sync()
	w.hotPoint()
	m.n += d
	if m.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if m.n == 0 {
		for {
			g := popG(&m.q)
			if g == nil {
				break
			}
			w.ready(g)
		}
		w.hotPoint()
	}
}

func (m *WGState) Wait() {
	w := W
	if w == nil {
		return
	}
	if w.dead {
		w.die()
	}
	m.sync()
	w.hotPoint()
	if m.n > 0 {
		m.q = append(m.q, w.cur)
		w.block("waitgroup wait")
	}
}

// CondState is the simulated condition variable.
type CondState struct {
	q []*G
}

func (c *CondState) Wait(l interface {
	Lock()
	Unlock()
}) {
	w := W
	if w.dead {
		w.die()
	}
	c.q = append(c.q, w.cur)
	w.noSched++
	l.Unlock()
	w.noSched--
	w.block("cond wait")
	l.Lock()
}

func (c *CondState) Signal() {
	if W == nil || W.dead {
		return
	}
	if g := popG(&c.q); g != nil {
		W.ready(g)
	}
	W.hotPoint()
}

func (c *CondState) Broadcast() {
	if W == nil || W.dead {
		return
	}
	for {
		g := popG(&c.q)
		if g == nil {
			break
		}
		W.ready(g)
	}
	W.hotPoint()
}
