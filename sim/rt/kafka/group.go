package kafka

import (
	"fmt"

	"github.com/childe/healer/zz_sim/sim"
)

// Group states.
const (
	Empty = iota
	Preparing
	Completing
	Stable
	Dead
)

var stateNames = []string{"Empty", "PreparingRebalance", "CompletingRebalance", "Stable", "Dead"}

// Group is the coordinator's state of a consumer group; it survives fail-over.
type Group struct {
	C       *Cluster
	ID      string
	State   int
	Gen     int32
	Proto   string
	PType   string
	Leader  string
	Static  bool // set up by the scenario: other clients keep it as it is
	Members []*Member
	Offsets map[string]int64
	joinEv  *sim.Event
}

// Member of a group.
type Member struct {
	ID      string
	Owner   string
	Client  string
	Session int32
	Proto   string
	Meta    []byte
	Assign  []byte
	join    *Req
	sync    *Req
	hb      *sim.Event
	Joined  bool
}

func (c *Cluster) group(id string) *Group {
	g := c.Groups[id]
	if g == nil {
		g = &Group{C: c, ID: id, Offsets: map[string]int64{}}
		c.Groups[id] = g
		c.gnames = append(c.gnames, id)
	}
	return g
}

// GroupNames lists groups in order of creation.
func (c *Cluster) GroupNames() []string { return append([]string(nil), c.gnames...) }

// StateName names the state of the group.
func (g *Group) StateName() string { return stateNames[g.State] }

func (g *Group) member(id string) *Member {
	for _, m := range g.Members {
		if m.ID == id {
			return m
		}
	}
	return nil
}

// dropPending forgets parked requests: their connections are gone.
func (g *Group) dropPending() {
	for _, m := range g.Members {
		m.join, m.sync = nil, nil
	}
	g.joinEv.Cancel()
}

// moved restarts the timers on the new coordinator.
func (g *Group) moved() {
	if g.Static {
		return
	}
	for _, m := range g.Members {
		if m.join != nil {
			m.join.joinErr(16)
			m.join = nil
		}
		if m.sync != nil {
			m.sync.syncReply(16, nil)
			m.sync = nil
		}
		g.touch(m)
	}
	g.joinEv.Cancel()
	if g.State == Preparing || g.State == Completing {
		// the new coordinator loads the last completed generation
		g.State = Preparing
		g.armJoin()
	}
}

func (g *Group) touch(m *Member) {
	m.hb.Cancel()
	m.hb = sim.After(int64(m.Session)*1e6, func() {
		if g.member(m.ID) != m {
			return
		}
		if m.join != nil {
			g.touch(m) // waiting members stay alive
			return
		}
		sim.Log("group %s: member %s expires", g.ID, m.ID)
		sim.Probe("session-expired")
		g.remove(m)
	})
}

func (g *Group) remove(m *Member) {
	for i, x := range g.Members {
		if x == m {
			g.Members = append(g.Members[:i], g.Members[i+1:]...)
			break
		}
	}
	m.hb.Cancel()
	if m.sync != nil {
		m.sync.syncReply(25, nil)
		m.sync = nil
	}
	if g.Leader == m.ID {
		g.Leader = ""
		if len(g.Members) > 0 {
			g.Leader = g.Members[0].ID
		}
	}
	switch g.State {
	case Stable, Completing:
		g.prepare()
	case Preparing:
		g.tryComplete()
	}
}

func (g *Group) prepare() {
	if g.State == Completing {
		for _, m := range g.Members {
			m.Assign = nil
			if m.sync != nil {
				m.sync.syncReply(27, nil)
				m.sync = nil
			}
		}
	}
	wasEmpty := g.State == Empty
	g.State = Preparing
	for _, m := range g.Members {
		m.Joined = m.join != nil
	}
	sim.Log("group %s prepares rebalance, %d members", g.ID, len(g.Members))
	if wasEmpty && g.C.InitialDelay > 0 {
		g.joinEv.Cancel()
		g.joinEv = sim.After(int64(g.C.InitialDelay)*1e6, func() { g.complete() })
		return
	}
	g.armJoin()
	g.tryComplete()
}

func (g *Group) armJoin() {
	g.joinEv.Cancel()
	max := int32(0)
	for _, m := range g.Members {
		if m.Session > max {
			max = m.Session
		}
	}
	g.joinEv = sim.After(int64(max)*1e6, func() { g.complete() })
}

func (g *Group) tryComplete() {
	if g.State != Preparing {
		return
	}
	for _, m := range g.Members {
		if m.join == nil {
			return
		}
	}
	g.complete()
}

func (g *Group) complete() {
	if g.State != Preparing {
		return
	}
	g.joinEv.Cancel()
	var stay []*Member
	for _, m := range g.Members {
		if m.join != nil {
			stay = append(stay, m)
		} else {
			m.hb.Cancel()
			sim.Log("group %s: member %s did not rejoin", g.ID, m.ID)
		}
	}
	g.Members = stay
	g.Gen++
	if len(stay) == 0 {
		g.State = Empty
		g.Leader = ""
		sim.Log("group %s is empty, gen %d", g.ID, g.Gen)
		if g.C.OnGen != nil {
			g.C.OnGen(g)
		}
		return
	}
	if g.member(g.Leader) == nil {
		g.Leader = stay[0].ID
	}
	g.State = Completing
	g.Proto = stay[0].Proto
	sim.Log("group %s gen %d: %d members, leader %s", g.ID, g.Gen, len(stay), g.Leader)
	if g.C.OnGen != nil {
		g.C.OnGen(g)
	}
	for _, m := range stay {
		m.Assign = nil
		r := m.join
		m.join = nil
		g.touch(m)
		g.joinOK(r, m)
	}
}

func (g *Group) joinOK(r *Req, m *Member) {
	w := r.w()
	w.I16(0)
	w.I32(g.Gen)
	w.Str(g.Proto)
	w.Str(g.Leader)
	w.Str(m.ID)
	if m.ID == g.Leader {
		w.Arr(len(g.Members))
		for _, x := range g.Members {
			w.Str(x.ID)
			w.Bytes(x.Meta)
		}
	} else {
		w.Arr(0)
	}
	r.reply(w)
}

func (r *Req) joinErr(code int16) {
	r.Err = code
	w := r.w()
	w.I16(code)
	w.I32(-1)
	w.Str("")
	w.Str("")
	w.Str("")
	w.Arr(0)
	r.reply(w)
}

func (b *Broker) coordErr(r *Req, group string) int16 { return b.coordErrOf(r, group, 1) }

// coordErrOf: the request has n items.
func (b *Broker) coordErrOf(r *Req, group string, n int) int16 {
	if e := r.whole(n); e != 0 {
		return e
	}
	if b.C.CoordOf(group) != b.ID {
		return 16
	}
	return 0
}

func (b *Broker) findCoordinator(r *Req) {
	gid := r.Body.Str()
	w := r.w()
	id := b.C.CoordOf(gid)
	x := b.C.Broker(id)
	code := r.injected()
	if code == 0 && (x == nil || !x.Up) {
		code = 15
	}
	r.Err = code
	w.I16(code)
	if code != 0 {
		w.I32(-1)
		w.Str("")
		w.I32(-1)
	} else {
		w.I32(id)
		w.Str(x.Host)
		w.I32(x.Port)
	}
	r.reply(w)
}

func (b *Broker) joinGroup(r *Req) {
	q := r.Body
	gid := q.Str()
	session := q.I32()
	mid := q.Str()
	r.Note = mid
	ptype := q.Str()
	n := q.Arr()
	proto, meta := "", []byte(nil)
	for i := 0; i < n; i++ {
		p, m := q.Str(), q.Bytes()
		if i == 0 {
			proto, meta = p, m
		}
	}
	if e := b.coordErr(r, gid); e != 0 {
		r.joinErr(e)
		return
	}
	if session < 1000 || session > 1800000 {
		r.joinErr(26)
		return
	}
	if n == 0 || ptype == "" {
		r.joinErr(23)
		return
	}
	g := b.C.group(gid)
	g.PType = ptype
	var m *Member
	if mid == "" {
		b.C.memberSeq++
		m = &Member{ID: fmt.Sprintf("%s-%08x", r.Client, (b.C.memberSeq*2654435761)&0xffffffff), Owner: r.Owner, Client: r.Client}
		g.Members = append(g.Members, m)
		sim.Log("group %s: new member %s (%s)", gid, m.ID, r.Owner)
	} else {
		m = g.member(mid)
		if m == nil {
			r.joinErr(25)
			return
		}
	}
	same := mid != "" && m.Proto == proto && string(m.Meta) == string(meta)
	m.Session, m.Proto, m.Meta = session, proto, meta
	if m.join != nil && m.join != r {
		m.join.joinErr(27) // superseded
	}
	switch g.State {
	case Completing:
		if same {
			g.touch(m)
			g.joinOK(r, m)
			return
		}
		m.join = r
		g.touch(m)
		g.prepare()
	case Stable:
		if same && m.ID != g.Leader {
			g.touch(m)
			g.joinOK(r, m)
			return
		}
		m.join = r
		g.touch(m)
		g.prepare()
	case Preparing:
		m.join = r
		g.touch(m)
		g.tryComplete2()
	default:
		m.join = r
		g.touch(m)
		g.prepare()
	}
}

// tryComplete2 respects the initial delay of a group that was empty.
func (g *Group) tryComplete2() {
	if g.C.InitialDelay > 0 && g.Gen == 0 {
		return
	}
	g.tryComplete()
}

func (r *Req) syncReply(code int16, assign []byte) {
	r.Err = code
	w := r.w()
	w.I16(code)
	w.Bytes(assign)
	r.reply(w)
}

func (b *Broker) syncGroup(r *Req) {
	q := r.Body
	gid := q.Str()
	gen := q.I32()
	mid := q.Str()
	r.Note = mid
	n := q.Arr()
	as := map[string][]byte{}
	for i := 0; i < n; i++ {
		id := q.Str()
		as[id] = q.Bytes()
	}
	if e := b.coordErr(r, gid); e != 0 {
		r.syncReply(e, nil)
		return
	}
	g := b.C.Groups[gid]
	var m *Member
	if g != nil {
		m = g.member(mid)
	}
	switch {
	case m == nil:
		r.syncReply(25, nil)
	case gen != g.Gen:
		r.syncReply(22, nil)
	case g.State == Preparing:
		r.syncReply(27, nil)
	case g.State == Stable:
		g.touch(m)
		r.syncReply(0, m.Assign)
	case g.State == Completing:
		g.touch(m)
		m.sync = r
		if m.ID == g.Leader {
			g.State = Stable
			for _, x := range g.Members {
				x.Assign = as[x.ID]
				if x.Assign == nil {
					x.Assign = []byte{}
				}
				if b.C.OnSync != nil {
					b.C.OnSync(g, x, x.Assign)
				}
			}
			sim.Log("group %s gen %d is stable", g.ID, g.Gen)
			for _, x := range g.Members {
				if x.sync != nil {
					s := x.sync
					x.sync = nil
					g.touch(x)
					s.syncReply(0, x.Assign)
				}
			}
		}
	default:
		r.syncReply(25, nil)
	}
}

func (b *Broker) heartbeat(r *Req) {
	q := r.Body
	gid := q.Str()
	gen := q.I32()
	mid := q.Str()
	code := b.coordErr(r, gid)
	if code == 0 {
		g := b.C.Groups[gid]
		var m *Member
		if g != nil {
			m = g.member(mid)
		}
		switch {
		case m == nil:
			code = 25
		case gen != g.Gen:
			code = 22
		case g.State == Preparing:
			g.touch(m)
			code = 27
		case g.State == Completing && g.C.HBCompleting:
			g.touch(m)
			code = 27
		default:
			g.touch(m)
		}
	}
	r.Err = code
	w := r.w()
	w.I16(code)
	r.reply(w)
}

func (b *Broker) leaveGroup(r *Req) {
	q := r.Body
	gid := q.Str()
	mid := q.Str()
	code := b.coordErr(r, gid)
	if code == 0 {
		g := b.C.Groups[gid]
		var m *Member
		if g != nil {
			m = g.member(mid)
		}
		if m == nil {
			code = 25
		} else {
			sim.Log("group %s: member %s leaves", gid, mid)
			r.Note = mid
			if m.join != nil {
				m.join.joinErr(25)
				m.join = nil
			}
			g.remove(m)
		}
	}
	r.Err = code
	w := r.w()
	w.I16(code)
	r.reply(w)
}

// TP names a partition in offset maps.
func TP(topic string, part int32) string { return fmt.Sprintf("%s/%d", topic, part) }

func (b *Broker) offsetCommit(r *Req) {
	q := r.Body
	gid := q.Str()
	gen, mid := int32(-1), ""
	if r.Ver >= 1 {
		gen = q.I32()
		mid = q.Str()
	}
	if r.Ver >= 2 && r.Ver <= 4 {
		q.I64()
	}
	type cp struct {
		t   string
		p   int32
		off int64
	}
	var cps []cp
	var tn []string
	nt := q.Arr()
	for i := 0; i < nt; i++ {
		t := q.Str()
		tn = append(tn, t)
		np := q.Arr()
		for j := 0; j < np; j++ {
			x := cp{t: t, p: q.I32(), off: q.I64()}
			if r.Ver == 1 {
				q.I64()
			}
			q.NStr()
			cps = append(cps, x)
		}
	}
	code := b.coordErrOf(r, gid, len(cps))
	g := b.C.group(gid)
	var m *Member
	if code == 0 && r.Ver >= 1 {
		m = g.member(mid)
		switch {
		case gen < 0 && mid == "":
			if g.State != Empty {
				code = 25
			}
		case m == nil:
			code = 25
		case gen != g.Gen:
			code = 22
		case g.State == Completing:
			code = 27
		default:
			g.touch(m)
		}
	}
	r.Err = code
	w := r.w()
	w.Arr(len(tn))
	for _, t := range tn {
		w.Str(t)
		n := 0
		for _, x := range cps {
			if x.t == t {
				n++
			}
		}
		w.Arr(n)
		for _, x := range cps {
			if x.t != t {
				continue
			}
			code := code
			if code == 0 {
				if code = r.item(); code != 0 {
					r.Err = code
				}
			}
			if code == 0 {
				g.Offsets[TP(x.t, x.p)] = x.off
				sim.Log("commit %s %s-%d = %d (%s)", gid, x.t, x.p, x.off, r.Owner)
				if b.C.OnCommit != nil {
					b.C.OnCommit(g, m, x.t, x.p, x.off, r)
				}
			}
			w.I32(x.p)
			w.I16(code)
		}
	}
	r.reply(w)
}

func (b *Broker) offsetFetch(r *Req) {
	q := r.Body
	gid := q.Str()
	nt := q.Arr()
	type tps struct {
		t  string
		ps []int32
	}
	var in []tps
	n := 0
	for i := 0; i < nt; i++ {
		x := tps{t: q.Str()}
		x.ps = q.I32s()
		n += len(x.ps)
		in = append(in, x)
	}
	whole := b.coordErrOf(r, gid, n)
	r.Err = whole
	g := b.C.group(gid)
	w := r.w()
	w.Arr(nt)
	for _, x := range in {
		t, ps := x.t, x.ps
		w.Str(t)
		w.Arr(len(ps))
		for _, p := range ps {
			off, ok := g.Offsets[TP(t, p)]
			code := whole
			if code == 0 {
				if code = r.item(); code != 0 {
					r.Err = code
				}
			}
			if !ok || code != 0 {
				off = -1
			}
			w.I32(p)
			w.I64(off)
			w.NStr(strp(""))
			w.I16(code)
			if code == 0 && b.C.OnFetchOffset != nil {
				b.C.OnFetchOffset(gid, t, p, off, r)
			}
		}
	}
	r.reply(w)
}

func strp(s string) *string { return &s }

// SetOffset stores a committed offset.
func (c *Cluster) SetOffset(group, topic string, part int32, off int64) {
	c.group(group).Offsets[TP(topic, part)] = off
}

// AddPartitions grows a topic.
func (c *Cluster) AddPartitions(topic string, n int) []*Partition {
	t := c.topics[topic]
	var out []*Partition
	for i := 0; i < n; i++ {
		out = append(out, c.addPartition(t, nil))
	}
	sim.Log("topic %s grows to %d partitions", topic, len(t.Parts))
	return out
}

// Subscription decodes the topics of a member's metadata.
func Subscription(meta []byte) (topics []string, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("malformed subscription: %v", e)
		}
	}()
	r := &R{b: meta}
	r.I16()
	for n := r.Arr(); n > 0; n-- {
		topics = append(topics, r.Str())
	}
	return topics, nil
}

// Assignment decodes a member's assignment into partition names.
func Assignment(b []byte) (tps []string, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("malformed assignment: %v", e)
		}
	}()
	if len(b) == 0 {
		return nil, nil
	}
	r := &R{b: b}
	r.I16()
	for n := r.Arr(); n > 0; n-- {
		t := r.Str()
		for _, p := range r.I32s() {
			tps = append(tps, TP(t, p))
		}
	}
	return tps, nil
}
