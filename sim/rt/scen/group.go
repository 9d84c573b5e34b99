package scen

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/childe/healer"
	"github.com/childe/healer/zz_sim/kafka"
	"github.com/childe/healer/zz_sim/sim"
)

func init() {
	register("group", func(e *Env) { groupRun(e, 0) }, "G01", "G02", "G03", "G04", "G05")
	register("group-churn", func(e *Env) { groupRun(e, 1) }, "G01", "G02", "G03", "G04", "G05")
	register("group-faults", func(e *Env) { groupRun(e, 2) }, "G01", "G02", "G03", "G04", "G05")
}

// stream is what one process sees of one partition.
type stream struct {
	pos  int64   // next offset of the current session, -1 if it has none yet
	alts []int64 // start positions it was given since; -1: no committed offset
}

type grp struct {
	e        *Env
	id       string
	fromBeg  bool
	auto     bool
	ars      map[string]*archive
	list     []*archive
	got      map[string]map[int64]bool // handed over to anybody
	members  []*gproc
	byOwner  map[string]*gproc
	assign   map[string][]string // by member id
	floor    map[string]int64    // lowest offset ever committed
	genParts map[string]int      // number of partitions when the generation began
	pend     []string
	gens     int
	style    style
	quiet    bool
}

// gproc is one application process with a group consumer.
type gproc struct {
	owner   string
	topic   string
	c       *healer.GroupConsumer
	ch      chan *healer.FullMessage
	st      map[string]*stream
	mid     string
	joining bool
	started bool
	ready   bool // Consume has returned
	closing bool
	closed  bool
	dead    bool
	deaf    bool
	n       int
}

func newGrp(e *Env, id string) *grp {
	g := &grp{e: e, id: id, ars: map[string]*archive{}, got: map[string]map[int64]bool{}, byOwner: map[string]*gproc{}, assign: map[string][]string{},
		floor: map[string]int64{}, genParts: map[string]int{}, style: style{magic: []int{2}, codec: []int{0}, maxRec: 4, bulk: cfgChance(1, 8)}}
	c := e.C
	c.OnReq = func(r *kafka.Req) {
		p := g.byOwner[r.Owner]
		if p == nil {
			return
		}
		switch r.API {
		case kafka.JoinGroup:
			p.joining = true
		case kafka.SyncGroup:
			p.joining = false
		}
	}
	c.OnDone = func(r *kafka.Req) {
		if p := g.byOwner[r.Owner]; p != nil && r.API == kafka.SyncGroup {
			p.mid = r.Note
		}
	}
	c.OnGen = func(x *kafka.Group) {
		g.gens++
		g.pend = nil
		for _, t := range c.TopicNames() {
			g.genParts[t] = len(c.Topic(t).Parts)
		}
	}
	c.OnSync = g.onSync
	c.OnFetchOffset = func(gid, topic string, part int32, off int64, r *kafka.Req) {
		if p := g.byOwner[r.Owner]; p != nil {
			s := p.stream(kafka.TP(topic, part))
			s.alts = append(s.alts, off)
		}
	}
	c.OnCommit = g.onCommit
	return g
}

func (p *gproc) stream(k string) *stream {
	s := p.st[k]
	if s == nil {
		s = &stream{pos: -2}
		p.st[k] = s
	}
	return s
}

func (g *grp) add(p *kafka.Partition) *archive {
	a := newArchive(p)
	k := kafka.TP(p.Topic, p.ID)
	g.ars[k] = a
	g.list = append(g.list, a)
	g.got[k] = map[int64]bool{}
	return a
}

func (g *grp) onSync(x *kafka.Group, m *kafka.Member, assign []byte) {
	e := g.e
	tps, err := kafka.Assignment(assign)
	if err != nil {
		e.Violate("G03", "a malformed assignment was made", "%v", err)
		return
	}
	g.assign[m.ID] = tps
	subs, err := kafka.Subscription(m.Meta)
	if err != nil {
		e.Violate("G03", "a malformed subscription was sent", "%v", err)
		return
	}
	for _, k := range tps {
		if !contains(subs, strings.Split(k, "/")[0]) {
			e.Violate("G03", "a member was assigned a topic it does not consume", "%s got %s, subscribed to %v", m.ID, k, subs)
			return
		}
	}
	g.pend = append(g.pend, m.ID)
	if len(g.pend) < len(x.Members) {
		return
	}
	g.pend = nil
	// all assignments of the generation are known
	seen := map[string]string{}
	topics := map[string]bool{}
	for _, y := range x.Members {
		ss, _ := kafka.Subscription(y.Meta)
		for _, t := range ss {
			topics[t] = true
		}
		for _, k := range g.assign[y.ID] {
			if o := seen[k]; o != "" {
				e.Violate("G03", "a partition was assigned to two members", "generation %d: %s to %s and %s", x.Gen, k, o, y.ID)
				return
			}
			seen[k] = y.ID
		}
	}
	var names []string
	for t := range sim.Sorted(topics) {
		names = append(names, t)
	}
	sort.Strings(names)
	for _, t := range names {
		for i := 0; i < g.genParts[t]; i++ {
			if k := kafka.TP(t, int32(i)); seen[k] == "" {
				e.Violate("G03", "a partition was assigned to nobody", "generation %d: %s, members %d", x.Gen, k, len(x.Members))
				return
			}
		}
	}
	sim.Probe("assignment-checked")
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if y == x {
			return true
		}
	}
	return false
}

// start of a session without committed offset
func (g *grp) fresh(a *archive) int64 {
	if g.fromBeg {
		return a.p.LogStart
	}
	return -1
}

func (g *grp) onCommit(x *kafka.Group, m *kafka.Member, topic string, part int32, off int64, r *kafka.Req) {
	e := g.e
	if x.ID != g.id {
		return
	}
	k := kafka.TP(topic, part)
	a := g.ars[k]
	p := g.byOwner[r.Owner]
	if p == nil || a == nil {
		e.Violate("G01", "an offset was committed for something nobody consumes", "%s = %d by %s", k, off, r.Owner)
		return
	}
	if off < 0 {
		e.Violate("G01", "a negative offset was committed", "%s: %d", k, off)
		return
	}
	if m == nil {
		e.Violate("G01", "a group member committed without its membership", "%s: %d by %s", k, off, r.Owner)
		return
	}
	s := p.stream(k)
	lim := s.pos
	open := false
	for _, o := range s.alts {
		if o < 0 {
			o = g.fresh(a)
			if o < 0 {
				open = true
			}
		}
		if o > lim {
			lim = o
		}
	}
	if lim < 0 && !open {
		e.Violate("G01", "an offset was committed before the partition was consumed", "%s: %d by %s", k, off, r.Owner)
		return
	}
	if open {
		if off > a.p.Next {
			e.Violate("G01", "an offset beyond the end of the log was committed", "%s: %d by %s, the log ends at %d", k, off, r.Owner, a.p.Next)
			return
		}
	} else if y := a.next(lim); y >= 0 && y < off {
		e.Violate("G01", "an offset beyond the delivered messages was committed", "%s: %d committed by %s, which was given messages below %d only", k, off, r.Owner, lim)
		return
	}
	if f, ok := g.floor[k]; !ok || off < f {
		g.floor[k] = off
	}
	sim.Probe("committed")
}

func (g *grp) see(p *gproc, m *healer.FullMessage) {
	e := g.e
	if m == nil || m.Message == nil {
		e.Violate("G02", "a message without content was delivered", "%+v", m)
		return
	}
	k := kafka.TP(m.TopicName, m.PartitionID)
	a := g.ars[k]
	o := m.Message.Offset
	sim.Log("%s gets %s %d", p.owner, k, o)
	if a == nil || m.TopicName != p.topic {
		e.Violate("G03", "a message of a foreign topic was delivered", "%s to %s, which consumes %s", k, p.owner, p.topic)
		return
	}
	if p.closed {
		e.Violate("G04", "messages are delivered after the consumer was closed", "%s %s offset %d", p.owner, k, o)
		return
	}
	if p.joining {
		e.Violate("G03", "a member delivers messages while it rejoins the group", "%s %s offset %d", p.owner, k, o)
		return
	}
	if !contains(g.assign[p.mid], k) {
		e.Violate("G03", "a message of a partition that is not assigned was delivered", "%s (%s) got %s, its assignment is %v", p.owner, p.mid, k, g.assign[p.mid])
		return
	}
	rec, ok := a.recs[o]
	if !ok {
		e.Violate("G02", "a message that is not in the log was delivered", "%s offset %d", k, o)
		return
	}
	if d := diffMsg(rec, m.Message, false); d != "" {
		e.Violate("G02", "a message was altered", "%s offset %d: %s", k, o, d)
		return
	}
	// it continues the session, or begins one at a position the coordinator gave
	s := p.stream(k)
	good := s.pos >= 0 && a.next(s.pos) == o
	if good {
		// the position may coincide with a new start; both stay possible
	} else {
		for _, x := range s.alts {
			if x < 0 {
				x = g.fresh(a)
				if x < 0 {
					good = true // started at the end of the log, wherever that was
					break
				}
			}
			if a.next(x) == o {
				good = true
				break
			}
		}
		if good {
			s.alts = nil
		}
	}
	if !good {
		e.Violate("G02", "a member skips or repeats messages", "%s %s: offset %d, its position is %d, start positions given by the coordinator: %v", p.owner, k, o, s.pos, s.alts)
		return
	}
	s.pos = o + 1
	g.got[k][o] = true
	p.n++
}

// undelivered lists what nobody was given although it is owed.
func (g *grp) undelivered() string {
	s := ""
	for _, a := range g.list {
		k := kafka.TP(a.p.Topic, a.p.ID)
		base := a.p.LogStart
		if !g.fromBeg {
			f, ok := g.floor[k]
			if !ok {
				continue
			}
			base = f
		}
		if !g.wanted(a.p.Topic) {
			continue
		}
		n, first := 0, int64(-1)
		for _, o := range a.from(base) {
			if a.live(o) && !g.got[k][o] {
				n++
				if first < 0 {
					first = o
				}
			}
		}
		if n > 0 {
			s += fmt.Sprintf(" %s: %d from %d", k, n, first)
		}
	}
	return s
}

func (g *grp) wanted(topic string) bool {
	for _, p := range g.members {
		if p.topic == topic && p.alive() {
			return true
		}
	}
	return false
}

func (p *gproc) alive() bool { return p.started && !p.closing && !p.dead }

func (g *grp) live() (out []*gproc) {
	for _, p := range g.members {
		if p.alive() {
			out = append(out, p)
		}
	}
	return
}

// start brings up a process that consumes the topic.
func (g *grp) start(topic string, cc healer.ConsumerConfig, buffered int) *gproc {
	e := g.e
	p := &gproc{owner: fmt.Sprint("m", len(g.members)), topic: topic, st: map[string]*stream{}, ch: make(chan *healer.FullMessage, buffered), started: true}
	g.members = append(g.members, p)
	g.byOwner[p.owner] = p
	cc.ClientID = "client-" + p.owner
	Spawn(p.owner, "main", func() {
		for {
			c, err := healer.NewGroupConsumer(topic, cc)
			if err == nil {
				p.c = c
				break
			}
			if p.closing {
				p.ready = true
				return
			}
			if now() > e.Until+30*SEC {
				e.Violate("G05", "creating a group consumer fails on a healthy cluster", "%v", err)
				return
			}
			sleep(500 * MS)
		}
		if p.closing {
			p.c.Close()
			p.ready = true
			return
		}
		sim.Tap(p.ch, func(m *healer.FullMessage) { g.see(p, m) })
		Spawn(p.owner+"/reader", "reader", func() {
			for {
				if _, ok := sim.Recv2(p.ch); !ok {
					return
				}
				for p.deaf && !p.closed {
					sleep(100 * MS)
				}
				if appChance(1, 12) {
					pause(200)
				}
				if !g.auto && p.c != nil && appChance(1, 6) {
					Spawn(p.owner, "commit", func() { p.c.CommitOffset() })
				}
			}
		})
		_, err := p.c.Consume(p.ch)
		p.ready = true
		if err != nil {
			e.Violate("G05", "Consume fails", "%v", err)
		}
	})
	return p
}

// crash ends the process without any notice.
func (g *grp) crash(p *gproc) {
	p.dead = true
	sim.Fault("process-crash")
	sim.KillOwner(p.owner)
	sim.KillOwner(p.owner + "/reader")
	g.e.Net.KillOwner(p.owner)
}

// stop closes the consumer of a process and checks how that ends.
func (g *grp) stop(p *gproc, healthy bool) {
	e := g.e
	p.closing = true
	if p.c == nil {
		return
	}
	cg := e.C.Groups[g.id]
	gen, stable := int32(-1), false
	if cg != nil {
		gen, stable = cg.Gen, cg.State == kafka.Stable
	}
	wasReady := p.ready
	expect := map[string]int64{}
	to := time.Duration(cfgPick(30000, 5000)) * time.Millisecond
	at := now()
	ok := CallIn(p.owner, "close", int64(to)+6*SEC, func() {
		if to == 30*time.Second && appChance(1, 2) {
			p.c.Close()
		} else {
			p.c.AwaitClose(to)
		}
	})
	if !ok {
		e.Violate("G04", "closing a group consumer does not respect its timeout", "timeout %v, %v", to, sim.Alive(p.owner))
		return
	}
	dur := now() - at
	if appChance(1, 5) {
		if !CallIn(p.owner, "close-again", int64(to)+6*SEC, func() { p.c.AwaitClose(to) }) {
			e.Violate("G04", "closing a group consumer again does not return", "timeout %v, %v", to, sim.Alive(p.owner))
			return
		}
		sim.Probe("closed-twice")
	}
	sim.Log("%s closed after %d ms", p.owner, dur/MS)
	if healthy && dur > 20*SEC {
		e.Violate("G04", "closing a group consumer takes too long", "%d ms on a healthy cluster", dur/MS)
		return
	}
	if dur < int64(to) {
		p.closed = true
	}
	for k, s := range sim.Sorted(p.st) {
		if s.pos >= 0 && contains(g.assign[p.mid], k) {
			expect[k] = s.pos
		}
	}
	cg = e.C.Groups[g.id]
	if healthy && dur < int64(to) && wasReady && cg != nil {
		for _, m := range cg.Members {
			if m.Owner == p.owner {
				e.Violate("G04", "a closed consumer is still a member of its group", "%s, %d ms after closing began", m.ID, dur/MS)
				return
			}
		}
		sim.Probe("left-group")
		if stable && g.auto && len(expect) > 0 {
			// nobody disturbed the group before this member left it
			var leaveGen int32 = gen
			if cg.Gen == leaveGen || cg.Gen == leaveGen+1 {
				for k, pos := range sim.Sorted(expect) {
					if off, ok := cg.Offsets[k]; !ok || off < pos {
						if x := g.ars[k].next(off); ok && (x < 0 || x >= pos) {
							continue
						}
						if !g.disturbed(at, p) {
							e.Violate("G04", "the last messages before closing were not committed", "%s: messages below %d were delivered, %d is committed", k, pos, off)
							return
						}
					}
				}
				sim.Probe("final-commit")
			}
		}
	}
}

// disturbed tells whether anybody else's joining, leaving or expiry came before
// the member left.
func (g *grp) disturbed(from int64, p *gproc) bool {
	for _, r := range g.e.C.Hist {
		if r.At < from-100*MS {
			continue
		}
		if r.Owner != p.owner && (r.API == kafka.JoinGroup || r.API == kafka.LeaveGroup) {
			return true
		}
		if r.Owner == p.owner && (r.API == kafka.OffsetCommit || r.API == kafka.Heartbeat) && r.Err != 0 {
			return true
		}
		if r.Owner == p.owner && r.API == kafka.JoinGroup {
			return true
		}
	}
	return false
}

func groupRun(e *Env, mode int) {
	nb := 1 + cfg(3)
	if mode == 2 {
		nb = 2 + cfg(2)
	}
	e.Setup(nb)
	e.C.InitialDelay = cfgPick(0, 0, 1000)
	e.C.HBCompleting = cfgChance(1, 2)
	g := newGrp(e, "g")
	topics := []string{"t"}
	e.C.AddTopic("t", 1+cfg(5))
	if cfgChance(1, 4) {
		topics = append(topics, "u")
		e.C.AddTopic("u", 1+cfg(3))
	}
	for _, tn := range topics {
		for _, p := range e.C.Topic(tn).Parts {
			a := g.add(p)
			for i := work(4); i > 0; i-- {
				a.fill(&g.style)
			}
		}
	}
	g.fromBeg = cfgChance(2, 3)
	g.auto = cfgChance(2, 3)
	cc := e.consConfig()
	cc.FetchMaxBytes = cfgPick[int32](1<<20, 300)
	cc.GroupID = "g"
	cc.FromBeginning = g.fromBeg
	cc.AutoCommit = g.auto
	cc.AutoCommitIntervalMS = cfgPick(500, 2000, 100)
	cc.SessionTimeoutMS = cfgPick[int32](6000, 10000)
	cc.MetadataMaxAgeMS = cfgPick(300000, 2000, 10000)
	grow := cc.MetadataMaxAgeMS < 300000 && cfgChance(1, 2)
	maxM := 1 + cfg(3)
	buf := cfgPick(0, 0, 10)
	faults := mode == 2
	if faults {
		e.Until = now() + int64(5+cfg(30))*SEC
		e.Perm = cfgPick(0, 10, 40, 100)
		if cfgChance(1, 2) {
			e.focus = 1 + cfgPick[int16](kafka.FindCoordinator, kafka.JoinGroup, kafka.SyncGroup, kafka.Heartbeat, kafka.OffsetCommit, kafka.OffsetFetch)
			e.Perm = max(e.Perm, 5)
		}
		e.C.MetaLagMS = cfgPick(0, 500)
		e.Chaos([]string{"coord", "leader", "crash", "reset", "blackhole", "crash-silent", "partition", "coord", "noleader", "loss"}, cfg(6))
	}
	healthy := !faults
	pick := func() string { return topics[work(len(topics))] }
	for i := 0; i < maxM; i++ {
		g.start(pick(), cc, buf)
		if cfgChance(1, 2) {
			pause(4000)
		}
	}
	write := func() {
		a := g.list[work(len(g.list))]
		a.fill(&g.style)
	}
	steps := 3 + work(12)
	for i := 0; i < steps; i++ {
		pause(workPick(300, 2000, 5000))
		for j := work(3); j > 0; j-- {
			write()
		}
		l := g.live()
		switch {
		case mode >= 1 && appChance(1, 4) && len(l) > 0:
			p := l[app(len(l))]
			switch app(4) {
			case 0:
				g.stop(p, healthy)
			case 1:
				g.crash(p)
			case 2:
				if appChance(1, 2) { // a deaf application for a while
					p.deaf = true
					sim.After(int64(app(15000))*MS, func() { p.deaf = false })
				}
			case 3: // cut one process off
				if faults {
					b := e.pickBroker()
					ow := p.owner
					e.Net.Cut(ow, b.Addr)
					d := int64(1+app(15)) * SEC
					if now()+d > e.Until {
						d = e.Until - now()
					}
					if d < 0 {
						d = 0
					}
					sim.After(d, func() { e.Net.Heal(ow, b.Addr) })
				}
			}
		case mode >= 1 && appChance(1, 5) && len(g.members) < 6:
			g.start(pick(), cc, buf)
		case grow && appChance(1, 4) && len(g.list) < 9:
			for _, p := range e.C.AddPartitions("t", 1+work(2)) {
				g.add(p)
			}
			sim.Probe("partitions-added")
		}
	}
	if len(g.live()) == 0 && appChance(2, 3) {
		g.start("t", cc, buf)
	}
	for _, p := range g.members {
		p.deaf = false
	}
	if now() < e.Until {
		sleep(e.Until - now())
	}
	for _, p := range g.live() {
		for _, b := range e.C.Brokers {
			e.Net.Heal(p.owner, b.Addr)
		}
	}
	// nothing disturbs the group any more
	if len(g.live()) > 0 {
		since := now()
		settled := func() string {
			cg := e.C.Groups["g"]
			if cg == nil || cg.State != kafka.Stable {
				return "the group is not stable"
			}
			n := map[string]int{}
			for _, m := range cg.Members {
				n[m.Owner]++
			}
			for _, p := range g.live() {
				if !p.ready {
					return p.owner + " has not joined"
				}
				if n[p.owner] != 1 {
					return fmt.Sprintf("%s is a member %d times", p.owner, n[p.owner])
				}
				delete(n, p.owner)
			}
			if len(n) > 0 {
				return fmt.Sprintf("the group has members that are gone: %v", n)
			}
			asg := map[string]bool{}
			for _, m := range cg.Members {
				for _, k := range g.assign[m.ID] {
					asg[k] = true
				}
			}
			for _, a := range g.list {
				if k := kafka.TP(a.p.Topic, a.p.ID); g.wanted(a.p.Topic) && !asg[k] {
					return k + " is assigned to nobody"
				}
			}
			return ""
		}
		var why string
		if !WaitFor(240*SEC, 100*MS, func() bool { why = settled(); return why == "" }) {
			e.Violate("G05", "the group does not settle", "%s, %d s after the last disturbance", why, (now()-since)/SEC)
			if e.Is("G05") {
				return
			}
		} else {
			sim.Probe("settled")
		}
		for i := 0; i < 3; i++ {
			write()
		}
		far := func() (n int64) {
			for _, m := range sim.Sorted(g.got) {
				n += int64(len(m))
			}
			return
		}
		if !WaitMore(90*SEC, 100*MS, far, func() bool { return g.undelivered() == "" }) {
			e.Violate("G02", "messages are never delivered", "%s, group %s", g.undelivered(), e.C.Groups["g"].StateName())
			return
		}
		sim.Probe("all-delivered")
		// and it stays settled, once what happened before has been noticed (lost
		// connections, metadata which the leader refreshes now and then)
		if faults || grow {
			sleep(int64(min(cc.MetadataMaxAgeMS, 10000))*MS + 35*SEC)
			if why = settled(); why != "" {
				e.Violate("G05", "the group does not stay settled", "%s, %d s after the last disturbance", why, (now()-since)/SEC)
				return
			}
		}
		// a refresh of the metadata that overlaps the last rebalance may compare the
		// topics of before with those of after, and have the group join once more
		sleep(5 * SEC)
		if !WaitFor(240*SEC, 100*MS, func() bool { why = settled(); return why == "" }) {
			e.Violate("G05", "the group does not settle", "%s, %d s after the last disturbance", why, (now()-since)/SEC)
			return
		}
		gen := g.gens
		sleep(int64(cc.SessionTimeoutMS)*MS + 5*SEC)
		if g.gens != gen && !(faults && cc.MetadataMaxAgeMS > 10000) {
			e.Violate("G05", "the group rebalances without reason", "%d generations in an undisturbed group", g.gens-gen)
			return
		}
	}
	// everybody leaves
	for _, p := range g.members {
		if p.closing || p.dead {
			continue
		}
		if cfgChance(1, 4) {
			p.deaf = true
		}
		for i := work(3); i > 0; i-- {
			write()
		}
		pause(1000)
		g.stop(p, true)
	}
	sleep(15 * SEC)
	for _, p := range g.members {
		if p.dead || p.c == nil {
			continue
		}
		at := now()
		e.releasedBy("G04", p.owner, "a closed group consumer", true, true)
		for _, r := range e.C.Hist {
			if r.Owner == p.owner && r.At > at {
				e.Violate("G04", "a closed group consumer goes on sending requests", "%s", kafka.APIName(r.API))
				return
			}
		}
	}
}
