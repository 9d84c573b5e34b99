// Package sim is a deterministic cooperative scheduler with virtual time.
// Real goroutines are used as coroutines: exactly one holds the token at any
// moment, and every choice of who runs next, when a running goroutine is
// preempted, and how virtual time advances is taken from a Tape.
package sim

import (
	"container/heap"
	"fmt"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

// ---------------------------------------------------------------- goroutines

const (
	gRunnable = iota
	gRunning
	gBlocked
	gDead
)

// G is one simulated goroutine.
type G struct {
	id        int
	name      string
	wake      chan struct{}
	state     int
	why       string
	owner     string // label of the application "process" this goroutine belongs to
	selDone   int    // index of the completed select case
	selVal    any
	selOK     bool
	sel       *Select
	lockSince int64 // since when it waits for a mutex
	handed    bool  // the mutex was handed to it
}

func (g *G) ID() int      { return g.id }
func (g *G) Name() string { return g.name }

// ---------------------------------------------------------------- timers

type event struct {
	at   int64
	seq  uint64
	fn   func()
	dead bool
	idx  int
}

type evHeap []*event

func (h evHeap) Len() int { return len(h) }
func (h evHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h evHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *evHeap) Push(x any)   { e := x.(*event); e.idx = len(*h); *h = append(*h, e) }
func (h *evHeap) Pop() any {
	o := *h
	e := o[len(o)-1]
	o[len(o)-1] = nil
	*h = o[:len(o)-1]
	e.idx = -1
	return e
}

// Event is a handle on a scheduled callback.
type Event struct{ e *event }

// Cancel stops the callback; it reports whether it was still pending.
func (ev *Event) Cancel() bool {
	if ev == nil || ev.e == nil || ev.e.dead {
		return false
	}
	ev.e.dead = true
	if ev.e.idx >= 0 && W != nil {
		heap.Remove(&W.timers, ev.e.idx)
	}
	return true
}

// ---------------------------------------------------------------- world

// Violation is what a run reports.
type Violation struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Detail   string `json:"detail"`
	At       int64  `json:"at_ns"`
	Seq      uint64 `json:"seq"`
}

// Knobs tune the schedule search of one run.
type Knobs struct {
	PreemptGap int // mean number of statements between preemptions, 0 = never
	HotGap     int // mean number of sync operations between switches, 0 = never
	StallPct   int // percentage of preemptions that become stalls
	StallMaxMS int
	Starve     int // percentage bias against one goroutine
}

// stallBudgetMS bounds the stalls of one run: they widen races, they are not
// meant to use up the time limits of the properties.
const stallBudgetMS = 200

// World is one simulated execution.
type World struct {
	now      int64
	evSeq    uint64
	timers   evHeap
	runq     []*G
	cur      *G
	all      []*G
	nextID   int
	dead     bool
	killing  bool
	ended    bool
	finished bool
	endCh    chan struct{}
	exitCh   chan struct{}

	ycount      uint64
	nextPreempt uint64
	hot         uint64
	nextHot     uint64
	lastAdvance uint64 // ycount at last time advance
	switches    uint64
	schedHash   uint64
	inEvent     int

	knobs   Knobs
	tape    *Tape
	noSched int

	starved *G
	stalled int // ms of stalls so far

	chans  map[unsafe.Pointer]*chanState
	killed map[string]bool // crashed application processes

	mapWrites map[unsafe.Pointer]*G // shared maps being written

	Violation *Violation
	Trace     []string
	TraceOn   bool
	TraceMax  int
	Faults    map[string]int
	Probes    map[string]int
	eventSeq  uint64

	YCap      uint64
	SpinCap   uint64
	Capped    bool
	bytes     uint64 // sent by the model, for ByteCap
	ByteCap   uint64
	CrashProp string // property to which a crash is attributed
	epoch     int64
}

// W is the current world; nil outside a run.
var W *World

// EpochNS is the virtual wall clock at the start of every run.
const EpochNS = int64(1700000000) * 1e9

// ---------------------------------------------------------------- run

type killed struct{}

// Run executes main as the first simulated goroutine and returns when it has
// returned, a violation has been raised, or a cap has been reached.
func Run(tape *Tape, knobs Knobs, setup func(w *World), main func()) *World {
	w := &World{
		tape: tape, knobs: knobs,
		chans:    map[unsafe.Pointer]*chanState{},
		killed:   map[string]bool{},
		endCh:    make(chan struct{}),
		exitCh:   make(chan struct{}, 1),
		Faults:   map[string]int{},
		Probes:   map[string]int{},
		YCap:     60_000_000,
		SpinCap:  6_000_000,
		ByteCap:  1 << 30,
		TraceMax: 4000,
	}
	W = w
	w.schedHash = 1469598103934665603
	w.armPreempt()
	w.armHot()
	if setup != nil {
		setup(w)
	}
	g := w.newG("main", "", func() {
		main()
		w.end()
	})
	w.removeRun(g)
	w.cur = g
	g.state = gRunning
	g.wake <- struct{}{}
	<-w.endCh
	// end of the run: unwind every goroutine, one at a time
	w.killing = true
	w.dead = true
	for i := 0; i < len(w.all); i++ {
		x := w.all[i]
		if x.state == gDead {
			continue
		}
		w.cur = x
		x.wake <- struct{}{}
		<-w.exitCh
	}
	W = nil
	return w
}

// end marks the run as finished and parks the caller until it is unwound.
func (w *World) end() {
	w.ended = true
	w.dead = true
	w.die()
}

func (w *World) newG(name, owner string, fn func()) *G {
	g := &G{id: w.nextID, name: name, owner: owner, wake: make(chan struct{}, 1), state: gRunnable}
	w.nextID++
	w.all = append(w.all, g)
	w.runq = append(w.runq, g)
	go func() {
		<-g.wake
		defer func() {
			r := recover()
			if w.killing {
				g.state = gDead
				w.exitCh <- struct{}{}
				return
			}
			if r != nil || w.ended {
				if r != nil {
					w.crash(g, r, string(debug.Stack()))
				}
				g.state = gBlocked
				w.finish()
				<-g.wake
				g.state = gDead
				w.exitCh <- struct{}{}
				return
			}
			g.state = gDead
			w.compact()
			w.dispatch(nil)
		}()
		if w.killing {
			return
		}
		fn()
	}()
	return g
}

// compact drops dead goroutines from the registry now and then.
func (w *World) compact() {
	if len(w.all) < 4096 {
		return
	}
	live := w.all[:0]
	for _, g := range w.all {
		if g.state != gDead {
			live = append(live, g)
		}
	}
	w.all = live
}

func (w *World) crash(g *G, r any, stack string) {
	if w.Violation == nil {
		w.raise(&Violation{Property: w.CrashProp, Class: "crash: " + crashClass(r, stack),
			Detail: fmt.Sprintf("goroutine %d (%s) panicked: %v\n%s", g.id, g.name, r, trimStack(stack))})
	}
	w.ended = true
	w.dead = true
}

// finish lets Run proceed to unwinding; the caller must park right after.
func (w *World) finish() {
	if !w.finished {
		w.finished = true
		close(w.endCh)
	}
}

func crashClass(r any, stack string) string {
	s := fmt.Sprint(r)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 120 {
		s = s[:120]
	}
	return s + " in " + topFrame(stack)
}

// topFrame is the first function of the code under test on the stack.
func topFrame(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "github.com/childe/healer") && !strings.Contains(l, "/zz_sim/") {
			if i := strings.LastIndexByte(l, '('); i > 0 {
				l = l[:i]
			}
			return strings.TrimPrefix(l, "github.com/childe/healer")
		}
	}
	return "?"
}

func trimStack(s string) string {
	var out []string
	lines := strings.Split(s, "\n")
	for i := 0; i+1 < len(lines); i++ {
		if strings.HasPrefix(lines[i], "github.com/childe/healer") {
			out = append(out, lines[i], lines[i+1])
			i++
		}
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// ---------------------------------------------------------------- violations and traces

var hexAddr = regexp.MustCompile(`0x[0-9a-f]+`)

func (w *World) raise(v *Violation) {
	if w.Violation == nil {
		// addresses differ from process to process
		v.Class = hexAddr.ReplaceAllString(v.Class, "0x?")
		v.Detail = hexAddr.ReplaceAllString(v.Detail, "0x?")
		v.At = w.now
		v.Seq = w.eventSeq
		w.Violation = v
		w.trace("VIOLATION " + v.Property + " " + v.Class)
	}
}

// Violate reports a property violation and ends the run.
func Violate(prop, class, format string, args ...any) {
	w := W
	if w == nil || w.dead {
		return
	}
	w.raise(&Violation{Property: prop, Class: class, Detail: fmt.Sprintf(format, args...)})
	w.ended = true
	w.dead = true
	if w.inEvent == 0 {
		w.die()
	}
}

func (w *World) trace(s string) {
	if w.TraceOn {
		if len(w.Trace) >= w.TraceMax {
			// keep the first quarter and the most recent part
			q := w.TraceMax / 4
			copy(w.Trace[q:], w.Trace[q+w.TraceMax/4:])
			w.Trace = w.Trace[:len(w.Trace)-w.TraceMax/4]
		}
		w.Trace = append(w.Trace, s)
	}
}

// Log appends one line to the event log of the run (and to its hash).
func Log(format string, args ...any) {
	w := W
	if w == nil || w.dead {
		return
	}
	w.eventSeq++
	s := fmt.Sprintf(format, args...)
	h := w.schedHash
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	w.schedHash = h
	if w.TraceOn {
		gid := -1
		if w.cur != nil && w.inEvent == 0 {
			gid = w.cur.id
		}
		w.trace(fmt.Sprintf("%6d t=%.6fs g%d %s", w.eventSeq, float64(w.now)/1e9, gid, s))
	}
}

// Seq is the global event sequence number; it increases with every Log.
func Seq() uint64 {
	if W == nil {
		return 0
	}
	W.eventSeq++
	return W.eventSeq
}

// Fault counts an injected fault that actually fired.
func Fault(kind string) {
	if W != nil && !W.dead {
		W.Faults[kind]++
		Log("FAULT %s", kind)
	}
}

// Probe counts a condition of interest.
func Probe(name string) {
	if W != nil && !W.dead {
		W.Probes[name]++
	}
}

// Hash is the digest of the event log and of every scheduling decision.
func (w *World) Hash() uint64 { return w.schedHash }

// Now is the virtual time since the start of the run, in nanoseconds.
func (w *World) Now() int64       { return w.now }
func (w *World) Steps() uint64    { return w.ycount }
func (w *World) Switches() uint64 { return w.switches }

// Now returns virtual nanoseconds since the start of the run.
func Now() int64 {
	if W == nil {
		return 0
	}
	return W.now
}

// ---------------------------------------------------------------- scheduling

func (w *World) removeRun(g *G) {
	for i, x := range w.runq {
		if x == g {
			w.runq = append(w.runq[:i], w.runq[i+1:]...)
			return
		}
	}
}

func (w *World) mix(v uint64) { w.schedHash = (w.schedHash ^ v) * 1099511628211 }

func (w *World) armPreempt() {
	w.nextPreempt = w.tape.nextPreempt(kindY, w.ycount, w.knobs.PreemptGap)
}
func (w *World) armHot() {
	w.nextHot = w.tape.nextPreempt(kindHot, w.hot, w.knobs.HotGap)
}

// Charge counts bytes sent by the model: a run in which they come to more
// than ByteCap is cut, as one with too many statements is.
func Charge(n int) {
	if W != nil {
		W.bytes += uint64(n)
	}
}

// Y is the statement-level preemption point inserted by the instrumentation.
func Y() {
	w := W
	if w == nil {
		return
	}
	w.ycount++
	if w.ycount < w.nextPreempt && !w.dead && w.ycount&0xfffff != 0 {
		return
	}
	w.slowY()
}

func (w *World) slowY() {
	if w.dead {
		w.die()
		return
	}
	if w.inEvent > 0 {
		return
	}
	if w.ycount >= w.YCap || w.bytes >= w.ByteCap {
		w.Capped = true
		w.end()
		return
	}
	if w.ycount-w.lastAdvance > w.SpinCap {
		// virtual time stands still although millions of statements ran
		w.raise(&Violation{Property: w.CrashProp, Class: "livelock",
			Detail: fmt.Sprintf("%d statements executed with no progress of virtual time; goroutine %d (%s) is spinning\n%s", w.ycount-w.lastAdvance, w.cur.id, w.cur.name, trimStack(string(debug.Stack())))})
		w.end()
		return
	}
	if w.ycount >= w.nextPreempt {
		w.preempt(kindY, w.ycount)
	}
}

// hotPoint is a scheduling point after a synchronisation operation.
func (w *World) hotPoint() {
	if w.dead || w.inEvent > 0 {
		return
	}
	w.hot++
	if w.hot >= w.nextHot {
		w.preempt(kindHot, w.hot)
	}
}

func (w *World) preempt(kind int, at uint64) {
	if w.noSched > 0 {
		return
	}
	d := w.tape.preemptChoice(kind, at, len(w.runq), w.knobs, stallBudgetMS-w.stalled)
	w.stalled += d.stallMS
	if kind == kindY {
		w.armPreempt()
	} else {
		w.armHot()
	}
	if d.stallMS > 0 {
		g := w.cur
		w.Faults["goroutine-stall"]++
		g.state = gBlocked
		g.why = "stall"
		w.mix(uint64(g.id)<<20 | uint64(d.stallMS))
		w.after(int64(d.stallMS)*1e6, func() { w.ready(g) })
		w.dispatch(g)
		return
	}
	if len(w.runq) == 0 {
		return
	}
	g := w.cur
	g.state = gRunnable
	i := d.choice % len(w.runq)
	n := w.runq[i]
	w.runq = append(w.runq[:i], w.runq[i+1:]...)
	w.runq = append(w.runq, g)
	w.switches++
	w.mix(uint64(n.id)<<32 | w.ycount)
	w.switchTo(g, n)
}

func (w *World) switchTo(from, to *G) {
	to.state = gRunning
	w.cur = to
	if from == to {
		return
	}
	to.wake <- struct{}{}
	if from != nil {
		<-from.wake
		w.resumed(from)
	}
}

func (w *World) resumed(g *G) {
	if w.killing {
		w.die()
	}
}

// die unwinds the current goroutine at the end of a run.
func (w *World) die() {
	if w.killing {
		runtime.Goexit()
	}
	// the run has ended but this goroutine still holds the token
	g := w.cur
	g.state = gBlocked
	w.finish()
	<-g.wake
	runtime.Goexit()
}

// ready makes a blocked goroutine runnable.
func (w *World) ready(g *G) {
	if g.state != gBlocked || w.dead {
		return
	}
	g.state = gRunnable
	g.why = ""
	w.runq = append(w.runq, g)
}

// block parks the current goroutine until ready is called on it.
func (w *World) block(why string) {
	g := w.cur
	g.state = gBlocked
	g.why = why
	w.dispatch(g)
}

// dispatch hands the token to the next goroutine; from is nil when the caller
// is terminating.
func (w *World) dispatch(from *G) {
	for len(w.runq) == 0 {
		if w.ended {
			w.parkEnded(from)
			return
		}
		if !w.advance() {
			// nothing can ever happen again
			w.raise(&Violation{Property: w.CrashProp, Class: "deadlock", Detail: "no goroutine is runnable and no timer is pending\n" + w.Dump()})
			w.ended = true
			w.dead = true
			w.parkEnded(from)
			return
		}
	}
	if w.ended {
		w.parkEnded(from)
		return
	}
	i := 0
	if len(w.runq) > 1 {
		i = w.pick()
	}
	n := w.runq[i]
	w.runq = append(w.runq[:i], w.runq[i+1:]...)
	w.switches++
	w.mix(uint64(n.id)<<32 | w.ycount)
	w.switchTo(from, n)
}

func (w *World) parkEnded(from *G) {
	w.finish()
	if from == nil {
		return // terminated already; nothing to reap
	}
	<-from.wake
	runtime.Goexit()
}

func (w *World) pick() int {
	n := len(w.runq)
	if w.knobs.Starve > 0 && !w.tape.replay {
		if w.starved == nil || w.starved.state == gDead {
			w.starved = w.all[w.tape.rawIntn(len(w.all))]
		}
		if w.tape.rawIntn(400) == 0 {
			w.starved = nil
		}
		i := w.tape.rawIntn(n)
		if w.runq[i] == w.starved && w.tape.rawIntn(100) < w.knobs.Starve {
			i = (i + 1) % n
		}
		w.tape.note(streamSched, i)
		return i
	}
	return w.tape.Draw(streamSched, n)
}

// advance fires the next batch of timer events; false if there are none.
func (w *World) advance() bool {
	if len(w.timers) == 0 {
		return false
	}
	t := w.timers[0].at
	if t > w.now {
		w.now = t
		w.lastAdvance = w.ycount
	}
	for len(w.timers) > 0 && w.timers[0].at <= w.now && !w.ended {
		e := heap.Pop(&w.timers).(*event)
		e.dead = true
		w.inEvent++
		e.fn()
		w.inEvent--
	}
	return true
}

func (w *World) after(d int64, fn func()) *Event {
	if d < 0 {
		d = 0
	}
	w.evSeq++
	e := &event{at: w.now + d, seq: w.evSeq, fn: fn}
	heap.Push(&w.timers, e)
	return &Event{e}
}

// After schedules fn to run as an event d nanoseconds from now. fn must not block.
func After(d int64, fn func()) *Event {
	if W == nil || W.dead {
		return &Event{}
	}
	return W.after(d, fn)
}

// ---------------------------------------------------------------- API for code

// Go starts a simulated goroutine.
func Go(name string, fn func()) {
	w := W
	if w == nil {
		go fn()
		return
	}
	if w.dead {
		return
	}
	owner := ""
	if w.cur != nil && w.inEvent == 0 {
		owner = w.cur.owner
	}
	w.newG(name, owner, fn)
	w.hotPoint()
}

// GoOwned starts a goroutine that, with everything it spawns, belongs to an
// application process named owner.
func GoOwned(owner, name string, fn func()) *G {
	w := W
	return w.newG(name, owner, fn)
}

// SetOwner changes the process label of the current goroutine.
func SetOwner(o string) {
	if W != nil && W.cur != nil {
		W.cur.owner = o
	}
}

// Owner is the process label of the current goroutine.
func Owner() string {
	if W == nil || W.cur == nil {
		return ""
	}
	return W.cur.owner
}

// KillOwner crashes an application process: every goroutine of it stops where
// it is and never runs again (nothing of it is unwound until the run ends).
func KillOwner(owner string) int {
	w := W
	n := 0
	w.killed[owner] = true
	for _, g := range w.all {
		if g.owner == owner && g.state != gDead && g != w.cur {
			if g.state == gRunnable {
				w.removeRun(g)
			}
			g.state = gBlocked
			g.why = "crashed"
			g.owner = owner + "#dead"
			g.sel = nil
			n++
			w.zombify(g)
		}
	}
	return n
}

// Killed tells whether an application process has crashed.
func Killed(owner string) bool { return W != nil && W.killed[owner] }

func (w *World) zombify(g *G) { g.state = 99 }

// Alive lists goroutines of an owner that have not terminated.
func Alive(owner string) []string {
	var out []string
	for _, g := range W.all {
		if g.owner == owner && g.state != gDead {
			out = append(out, fmt.Sprintf("%s[%s]", g.name, g.why))
		}
	}
	sort.Strings(out)
	return out
}

// Dump describes every live goroutine.
func (w *World) Dump() string {
	var sb strings.Builder
	for _, g := range w.all {
		if g.state != gDead {
			fmt.Fprintf(&sb, "  g%d %s state=%d %s\n", g.id, g.name, g.state, g.why)
		}
	}
	return sb.String()
}

// Sleep blocks for d virtual nanoseconds.
func Sleep(d int64) {
	w := W
	if w == nil {
		return
	}
	if w.dead {
		w.die()
	}
	if d <= 0 {
		w.hotPoint()
		return
	}
	g := w.cur
	w.after(d, func() { w.ready(g) })
	w.block("sleep")
}

// Park blocks the current goroutine; the returned function of prepare wakes it.
func Park(why string, prepare func(wake func())) {
	w := W
	if w.dead {
		w.die()
	}
	g := w.cur
	done := false
	prepare(func() {
		if !done {
			done = true
			w.ready(g)
		}
	})
	w.block(why)
	done = true
}

// Dead reports whether the run is over (goroutines are being unwound).
func Dead() bool { return W == nil || W.dead }

// BlockForever implements an empty select.
func BlockForever() {
	w := W
	if w.dead {
		w.die()
	}
	w.block("forever")
}

// GoEvent starts a goroutine from an event or a goroutine, without a
// scheduling point.
func GoEvent(name string, fn func()) {
	if W == nil || W.dead {
		return
	}
	owner := ""
	if W.cur != nil && W.inEvent == 0 {
		owner = W.cur.owner
	}
	W.newG(name, owner, fn)
}

// CloseEvent closes a channel without a scheduling point; usable from events.
func CloseEvent[T any](ch chan T) {
	w := W
	if w == nil || w.dead {
		return
	}
	w.noSched++
	Close[T](ch)
	w.noSched--
}

// Point is an explicit scheduling point.
func Point() {
	if W != nil && !W.dead {
		W.hotPoint()
	}
}
