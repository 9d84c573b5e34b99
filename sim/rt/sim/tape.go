package sim

import "sort"

// Streams separate the random choices of a run so that shrinking one kind does
// not disturb the others. 0 is always the simplest choice.
const (
	streamSched = iota
	StreamCfg
	StreamWork
	StreamFault
	StreamNet
	StreamApp
	StreamMap
	nStreams
)

const (
	kindY = iota
	kindHot
	nKinds
)

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Preempt is one recorded preemption: at counter value At goroutine number
// Choice of the run queue takes over, or the running one stalls for StallMS.
type Preempt struct {
	At      uint64 `json:"at"`
	Choice  int    `json:"c"`
	StallMS int    `json:"s,omitempty"`
}

// TapeData is the serialised form of every decision of a run.
type TapeData struct {
	Streams  [][]int     `json:"streams"`
	Preempts [][]Preempt `json:"preempts"`
}

// Tape supplies every decision, from a seed or from a recording.
type Tape struct {
	seed   uint64
	r      [nStreams]rng
	pr     [nKinds]rng
	raw    rng
	replay bool
	in     TapeData
	pos    [nStreams]int
	ppos   [nKinds]int
	Rec    TapeData
}

// NewTape makes a tape that generates decisions from a seed.
func NewTape(seed uint64) *Tape {
	t := &Tape{seed: seed}
	base := rng{s: seed}
	for i := range t.r {
		t.r[i] = rng{s: base.next()}
	}
	for i := range t.pr {
		t.pr[i] = rng{s: base.next()}
	}
	t.raw = rng{s: base.next()}
	t.Rec.Streams = make([][]int, nStreams)
	t.Rec.Preempts = make([][]Preempt, nKinds)
	return t
}

// ReplayTape makes a tape that replays recorded decisions.
func ReplayTape(d TapeData) *Tape {
	t := NewTape(0)
	t.replay = true
	t.in = d
	for len(t.in.Streams) < nStreams {
		t.in.Streams = append(t.in.Streams, nil)
	}
	for len(t.in.Preempts) < nKinds {
		t.in.Preempts = append(t.in.Preempts, nil)
	}
	for k := range t.in.Preempts {
		p := append([]Preempt(nil), t.in.Preempts[k]...)
		sort.SliceStable(p, func(i, j int) bool { return p[i].At < p[j].At })
		t.in.Preempts[k] = p
	}
	return t
}

// Draw returns a number in [0,n).
func (t *Tape) Draw(stream, n int) int {
	if n <= 1 {
		if n <= 0 {
			return 0
		}
	}
	var v int
	if t.replay {
		if p := t.pos[stream]; p < len(t.in.Streams[stream]) {
			v = t.in.Streams[stream][p] % n
			if v < 0 {
				v = 0
			}
		}
		t.pos[stream]++
	} else {
		v = int(t.r[stream].next() % uint64(n))
	}
	t.Rec.Streams[stream] = append(t.Rec.Streams[stream], v)
	return v
}

func (t *Tape) rawIntn(n int) int { return int(t.raw.next() % uint64(n)) }

// note records a decision made outside Draw.
func (t *Tape) note(stream, v int) {
	t.Rec.Streams[stream] = append(t.Rec.Streams[stream], v)
}

const never = ^uint64(0)

func (t *Tape) nextPreempt(kind int, cur uint64, gap int) uint64 {
	if t.replay {
		for t.ppos[kind] < len(t.in.Preempts[kind]) {
			at := t.in.Preempts[kind][t.ppos[kind]].At
			if at > cur {
				return at
			}
			t.ppos[kind]++
		}
		return never
	}
	if gap <= 0 {
		return never
	}
	return cur + 1 + t.pr[kind].next()%uint64(2*gap)
}

type preemptDecision struct {
	choice  int
	stallMS int
}

func (t *Tape) preemptChoice(kind int, at uint64, n int, k Knobs, stallLeft int) preemptDecision {
	var d preemptDecision
	if t.replay {
		if t.ppos[kind] < len(t.in.Preempts[kind]) {
			p := t.in.Preempts[kind][t.ppos[kind]]
			d.choice, d.stallMS = p.Choice, p.StallMS
		}
	} else {
		r := t.pr[kind].next()
		d.choice = int(r>>8) & 0xffff
		if k.StallPct > 0 && int(t.pr[kind].next()%100) < k.StallPct && k.StallMaxMS > 0 {
			d.stallMS = min(1+int(t.pr[kind].next()%uint64(k.StallMaxMS)), max(stallLeft, 0))
		}
	}
	if n > 0 {
		d.choice %= n
	} else {
		d.choice = 0
	}
	if n > 0 || d.stallMS > 0 {
		t.Rec.Preempts[kind] = append(t.Rec.Preempts[kind], Preempt{at, d.choice, d.stallMS})
	}
	return d
}

// ---------------------------------------------------------------- helpers

// Draw draws from a stream of the current run.
func Draw(stream, n int) int {
	if W == nil {
		return 0
	}
	return W.tape.Draw(stream, n)
}

// Chance is true with probability num/den; false is the simple choice.
func Chance(stream, num, den int) bool {
	if num <= 0 {
		return false
	}
	return Draw(stream, den) >= den-num
}

// Range draws from [lo,hi]; lo is the simple choice.
func Range(stream, lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + Draw(stream, hi-lo+1)
}

// Pick draws one of the arguments; the first is the simple choice.
func Pick[T any](stream int, xs ...T) T { return xs[Draw(stream, len(xs))] }
