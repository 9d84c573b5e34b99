package scen

import (
	"fmt"
	"time"

	"github.com/childe/healer"
	"github.com/childe/healer/zz_sim/kafka"
	"github.com/childe/healer/zz_sim/sim"
)

func init() {
	register("consume-start", func(e *Env) { consumeStart(e, false) }, "C02")
	register("consume-start-faults", func(e *Env) { consumeStart(e, true) }, "C02")
	register("consumer", func(e *Env) { consumerRun(e, false) }, "C01", "C02", "C04", "G01")
	register("consumer-faults", func(e *Env) { consumerRun(e, true) }, "C01", "C02", "C03", "C04", "G01")
}

// span is where a consumer may start: at any offset from lo to hi.
type span struct {
	lo, hi int64
	why    string
}

// first checks the first delivered offset against the allowed start positions.
func (a *archive) first(e *Env, prop string, sp []span, off int64) bool {
	for _, s := range sp {
		// some position p in [lo, hi] must make off the first live record at or after p
		if off < s.lo {
			continue
		}
		skipped := false
		for _, x := range a.from(s.hi) {
			if x >= off {
				break
			}
			if a.live(x) {
				skipped = true
				break
			}
		}
		if !skipped {
			return true
		}
	}
	e.Violate(prop, "the consumer starts at the wrong position", "%s-%d: first message has offset %d, allowed start positions: %v, log %d..%d",
		a.p.Topic, a.p.ID, off, sp, a.p.LogStart, a.p.Next)
	return false
}

// consumeStart: where a SimpleConsumer begins, and where it goes on when its
// position is not in the log any more.
func consumeStart(e *Env, faults bool) {
	e.Setup(1 + cfg(3))
	e.C.AddTopic("t", 1+cfg(2))
	if cfgChance(1, 4) {
		e.C.Versions[kafka.ListOffsets] = kafka.VRange{Min: 0, Max: 0}
	}
	if cfgChance(1, 4) {
		e.C.Versions[kafka.OffsetFetch] = kafka.VRange{Min: 0, Max: 1}
	}
	t := e.C.Topic("t")
	pid := int32(cfg(len(t.Parts)))
	st := style{magic: []int{2}, codec: []int{0}, maxRec: 4, bulk: cfgChance(1, 8)}
	a := newArchive(t.Parts[pid])
	for i := work(10); i > 0; i-- {
		a.fill(&st)
	}
	if cfgChance(1, 2) && a.p.Next > 0 {
		a.p.Retain(int64(work(int(a.p.Next) + 1)))
	}
	cc := e.consConfig()
	cc.FetchMaxBytes = 1 << 20
	cc.AutoCommit = cfgChance(1, 2)
	cc.AutoCommitIntervalMS = cfgPick(500, 100)
	start := cfgPick[int64](-2, -1, 0)
	if start == 0 {
		switch cfg(4) {
		case 0, 1:
			start = a.p.LogStart + int64(work(int(a.p.Next-a.p.LogStart)+1))
		case 2:
			start = int64(work(int(a.p.LogStart) + 1))
		case 3:
			start = a.p.Next + int64(1+work(10))
		}
	}
	committed := int64(-1)
	if cfgChance(1, 2) {
		cc.GroupID = "g"
		if cfgChance(2, 3) {
			switch cfg(5) {
			case 0, 1, 2:
				committed = a.p.LogStart + int64(work(int(a.p.Next-a.p.LogStart)+1))
			case 3:
				committed = int64(work(int(a.p.LogStart) + 1))
			case 4:
				committed = a.p.Next + int64(1+work(10))
			}
			e.C.SetOffset("g", "t", pid, committed)
		}
	}
	if faults {
		e.Until = now() + int64(1+cfg(6))*SEC
		e.Perm = cfgPick(50, 300)
		e.Chaos([]string{"leader", "crash", "reset", "coord", "noleader", "loss"}, cfg(4))
	}
	var c *healer.SimpleConsumer
	var err error
	for {
		if !CallIn(app1, "new", 120*SEC, func() { c, err = healer.NewSimpleConsumer("t", pid, cc) }) {
			e.Violate("C02", "creating a consumer does not return", "%v", sim.Alive(app1))
			return
		}
		if err == nil {
			break
		}
		if !faults || now() > e.Until+20*SEC {
			e.Violate("C02", "creating a consumer fails on a healthy cluster", "%v", err)
			return
		}
		sleep(500 * MS)
	}
	endAt := a.p.Next // the end of the log when the consumer was started
	ls := a.p.LogStart
	ch := make(chan *healer.FullMessage, cfgPick(0, 10))
	var sp []span
	latest := func(why string) span { return span{endAt, 1 << 60, why} }
	tr := &track{e: e, a: a, prop: "C02", pos: -1}
	inRange := func(o int64) bool { return o >= ls && o <= endAt }
	pos := start
	if start < 0 && committed >= 0 {
		pos = committed
	}
	switch {
	case pos >= 0 && inRange(pos):
		sp = append(sp, span{pos, pos, "explicit or committed offset"})
		tr.pos = pos
	case start == -2:
		sp = append(sp, span{ls, ls, "earliest"})
	case start == -1:
		sp = append(sp, latest("latest"))
	default:
		sp = append(sp, span{ls, ls, "reset to earliest"}, latest("reset to latest"))
	}
	// A position beyond the end becomes valid when the log grows past it.
	if pos > endAt {
		sp = append(sp, span{pos, pos, "position beyond the end"})
	}
	stable := false // no retention any more
	sim.Tap(ch, func(m *healer.FullMessage) {
		if m == nil || m.Message == nil {
			e.Violate("C02", "a message without content was delivered", "%+v", m)
			return
		}
		if tr.pos < 0 && tr.n == 0 {
			if !a.first(e, "C02", sp, m.Message.Offset) {
				return
			}
			tr.pos = m.Message.Offset
		}
		tr.see(m)
	})
	returned := false
	retAt := int64(0)
	Spawn(app1, "consume", func() {
		_, err = c.Consume(start, ch)
		returned = true
		retAt = a.p.Next
		// the position has been looked up by now, unless it was out of range
		if start == -1 && pos < 0 && !faults {
			for i := range sp {
				if sp[i].why == "latest" {
					sp[i].hi = retAt
				}
			}
		}
	})
	// mid-run retention may take the log away under a slow reader
	slow := cfgChance(1, 3)
	if slow {
		tr.jump = func(from, to int64) bool {
			// started at the latest position: a reset may skip to the end
			return start != -2
		}
	}
	Spawn("reader", "reader", func() {
		for {
			if _, ok := sim.Recv2(ch); !ok {
				return
			}
			if slow && !stable && appChance(1, 3) {
				sleep(int64(app(3000)) * MS)
			}
		}
	})
	early := cfgChance(1, 3)
	for i := 1 + work(8); i > 0; i-- {
		pause(500)
		if early {
			a.fill(&st)
		}
		if slow && workChance(1, 3) {
			a.p.Retain(a.p.LogStart + int64(work(int(a.p.Next-a.p.LogStart)+1)))
			ls = a.p.LogStart
			for i := range sp {
				if sp[i].why == "earliest" || sp[i].why == "reset to earliest" {
					sp[i].hi = ls
				}
			}
			if tr.n == 0 && pos < 0 && start == -1 {
				sp = append(sp, latest("reset to latest"))
			}
			if tr.n == 0 && pos >= 0 && pos < ls { // the start position is gone
				tr.pos = -1
				if start == -2 || start >= 0 {
					sp = append(sp, span{0, ls, "reset to earliest"})
				}
				if start == -1 || start >= 0 {
					sp = append(sp, latest("reset to latest"))
				}
			}
		}
	}
	if now() < e.Until {
		sleep(e.Until - now())
	}
	stable = true
	if !WaitFor(120*SEC, 50*MS, func() bool { return returned }) {
		e.Violate("C02", "Consume does not return", "%v", sim.Alive(app1))
		return
	}
	if err != nil {
		e.Violate("C02", "Consume fails", "%v", err)
		return
	}
	sleep(60 * SEC) // every reset is done
	mark := a.p.Next
	for i := 0; i < 3; i++ {
		a.fill(&st)
		pause(300)
	}
	// Whatever the start position was, what is written from now on is delivered
	// (a position that is still ahead of the log aside).
	ok := WaitMore(120*SEC, 50*MS, func() int64 { return tr.pos }, func() bool {
		x := tr.pos
		if x < mark {
			x = mark
		}
		return a.next(x) < 0 || pos >= a.p.Next && tr.n == 0
	})
	if !ok {
		e.Violate("C02", "new messages are not delivered", "%s-%d: position %d (start %d, committed %d), log %d..%d, %v", a.p.Topic, a.p.ID, tr.pos, start, committed, a.p.LogStart, a.p.Next, sim.Alive(app1))
		return
	}
	if tr.n > 0 {
		sim.Probe("delivered")
	} else {
		sim.Probe("nothing-delivered")
	}
	CallIn(app1, "stop", 60*SEC, func() { c.Stop() })
}

// ---------------------------------------------------------------- Consumer

// consumerRun: a Consumer reads several partitions; it is closed and another
// one goes on from the committed offsets.
func consumerRun(e *Env, faults bool) {
	nb := 1 + cfg(3)
	if faults {
		nb = 2 + cfg(2)
	}
	e.Setup(nb)
	topics := []string{"t"}
	e.C.AddTopic("t", 1+cfg(4))
	if cfgChance(1, 2) {
		topics = append(topics, "u")
		e.C.AddTopic("u", 1+cfg(3))
	}
	st := style{magic: []int{2}, codec: []int{0}, maxRec: 4, bulk: cfgChance(1, 8)}
	ars := map[string]*archive{}
	var list []*archive
	assign := map[string][]int{}
	useAssign := cfgChance(1, 2)
	wanted := map[string]bool{}
	for _, tn := range topics {
		for _, p := range e.C.Topic(tn).Parts {
			a := newArchive(p)
			ars[kafka.TP(tn, p.ID)] = a
			list = append(list, a)
			for i := work(5); i > 0; i-- {
				a.fill(&st)
			}
			if !useAssign || workChance(2, 3) {
				wanted[kafka.TP(tn, p.ID)] = true
				assign[tn] = append(assign[tn], int(p.ID))
			}
		}
		if useAssign && len(assign[tn]) == 0 {
			assign[tn] = []int{0}
			wanted[kafka.TP(tn, 0)] = true
		}
	}
	cc := e.consConfig()
	cc.FetchMaxBytes = cfgPick[int32](1<<20, 200)
	cc.FromBeginning = cfgChance(2, 3)
	cc.AutoCommit = cfgChance(2, 3)
	cc.AutoCommitIntervalMS = cfgPick(300, 1000, 50)
	if cfgChance(2, 3) {
		cc.GroupID = "g"
	}
	if faults {
		e.Until = now() + int64(2+cfg(15))*SEC
		e.Perm = cfgPick(0, 20, 60)
		e.Chaos([]string{"leader", "crash", "reset", "blackhole", "crash-silent", "partition", "coord", "noleader", "loss"}, cfg(5))
	}
	prop1 := "C01"
	if faults {
		prop1 = "C01|C03"
	}
	// one round is one life of a consumer
	rounds := 1 + cfg(2)
	var trs map[string]*track
	commits := map[string]int64{}
	deliv := map[string]int64{} // end of what any life delivered
	e.C.OnCommit = func(g *kafka.Group, m *kafka.Member, topic string, part int32, off int64, r *kafka.Req) {
		k := kafka.TP(topic, part)
		tr := trs[k]
		if tr == nil {
			e.Violate("G01", "an offset was committed for a partition that was not consumed", "%s = %d", k, off)
			return
		}
		if tr.pos >= 0 {
			if x := tr.a.next(tr.pos); x >= 0 && x < off {
				e.Violate("G01", "an offset beyond the delivered messages was committed", "%s: %d committed, but only messages below %d were delivered", k, off, tr.pos)
				return
			}
		} else if off > tr.a.p.Next {
			e.Violate("G01", "an offset beyond the end of the log was committed", "%s: %d committed, log ends at %d", k, off, tr.a.p.Next)
			return
		}
		if off < 0 {
			e.Violate("G01", "a negative offset was committed", "%s: %d", k, off)
			return
		}
		commits[k] = off
		sim.Probe("committed")
	}
	for round := 0; round < rounds; round++ {
		owner := fmt.Sprint("app", round)
		var c *healer.Consumer
		var err error
		for {
			if !CallIn(owner, "new", 120*SEC, func() { c, err = healer.NewConsumer(cc, topics...) }) {
				e.Violate("C03", "creating a consumer does not return", "%v", sim.Alive(owner))
				return
			}
			if err == nil {
				break
			}
			if !faults || now() > e.Until+20*SEC {
				e.Violate("C03", "creating a consumer fails on a healthy cluster", "%v", err)
				return
			}
			sleep(500 * MS)
		}
		if useAssign {
			c.Assign(assign)
		} else if cfgChance(1, 2) {
			c.Subscribe(topics...)
		}
		trs = map[string]*track{}
		spans := map[string][]span{}
		for _, a := range list {
			k := kafka.TP(a.p.Topic, a.p.ID)
			if !wanted[k] {
				continue
			}
			tr := &track{e: e, a: a, prop: prop1, pos: -1}
			if o, ok := commits[k]; ok && cc.GroupID != "" {
				tr.pos = o
			} else if cc.FromBeginning {
				tr.pos = a.p.LogStart
			} else {
				spans[k] = []span{{a.p.Next, 1 << 60, "latest"}}
			}
			trs[k] = tr
		}
		ch := make(chan *healer.FullMessage, cfgPick(0, 0, 20))
		stopped, late := false, 0
		sim.Tap(ch, func(m *healer.FullMessage) {
			if m == nil || m.Message == nil {
				e.Violate("C01", "a message without content was delivered", "%+v", m)
				return
			}
			k := kafka.TP(m.TopicName, m.PartitionID)
			tr := trs[k]
			if tr == nil {
				e.Violate("C01", "a message of a partition that was not asked for was delivered", "%s", k)
				return
			}
			if stopped {
				late++
				e.Violate("C04", "messages are delivered after the consumer was closed", "%s offset %d", k, m.Message.Offset)
				return
			}
			if tr.pos < 0 && tr.n == 0 {
				if !tr.a.first(e, "C02", spans[k], m.Message.Offset) {
					return
				}
				tr.pos = m.Message.Offset
			} else if tr.n == 0 && m.Message.Offset != tr.a.next(tr.pos) {
				e.Violate("C02|C01", "the consumer starts at the wrong position", "%s: first message has offset %d, the start position is %d", k, m.Message.Offset, tr.pos)
				return
			}
			tr.see(m)
			if tr.pos > deliv[k] {
				deliv[k] = tr.pos
			}
		})
		returned := false
		Spawn(owner, "consume", func() {
			_, err = c.Consume(ch)
			for k := range sim.Sorted(spans) {
				spans[k][0].hi = trs[k].a.p.Next
			}
			returned = true
		})
		deaf := false
		Spawn("reader", "reader", func() {
			for {
				if _, ok := sim.Recv2(ch); !ok {
					return
				}
				for deaf && !stopped {
					sleep(100 * MS)
				}
				if appChance(1, 10) {
					pause(100)
				}
			}
		})
		early := cfgChance(1, 3)
		if early {
			for i := work(6); i > 0; i-- {
				list[work(len(list))].fill(&st)
				pause(1000)
			}
			pause(3000)
		} else {
			if !WaitFor(e.Until-now()+150*SEC, 20*MS, func() bool { return returned }) {
				e.Violate("C03", "Consume does not return", "%v", sim.Alive(owner))
				return
			}
			for i := work(12); i > 0; i-- {
				list[work(len(list))].fill(&st)
				pause(600)
			}
			if now() < e.Until {
				sleep(e.Until - now())
			}
			for k, tr := range sim.Sorted(trs) { // a consumer at the end of the log shows where it is
				if tr.pos < 0 {
					_ = k
					tr.a.fill(&st)
				}
			}
			far := func() (n int64) {
				for _, tr := range sim.Sorted(trs) {
					n += tr.pos
				}
				return
			}
			ok := WaitMore(150*SEC, 50*MS, far, func() bool {
				for _, tr := range sim.Sorted(trs) {
					if tr.pos < 0 || tr.a.next(tr.pos) >= 0 {
						return false
					}
				}
				return true
			})
			if !ok {
				prop := "C01"
				if faults {
					prop = "C03|C01"
				}
				s := ""
				for k, tr := range sim.Sorted(trs) {
					if tr.pos < 0 || tr.a.next(tr.pos) >= 0 {
						s += fmt.Sprintf(" %s position %d of %d", k, tr.pos, tr.a.p.Next)
					}
				}
				e.Violate(prop, "the consumer makes no progress", "%s, %v", s, sim.Alive(owner))
				return
			}
			sim.Probe("caught-up")
		}
		deaf = cfgChance(1, 4)
		to := time.Duration(cfgPick(30000, 3000)) * time.Millisecond
		at := now()
		if !CallIn(owner, "close", int64(to)+5*SEC, func() { c.AwaitClose(to) }) {
			e.Violate("C04", "AwaitClose does not respect its timeout", "timeout %v, %v", to, sim.Alive(owner))
			return
		}
		dur := now() - at
		if !faults && dur > 8*SEC {
			e.Violate("C04", "closing a consumer takes too long", "%d ms on a healthy cluster", dur/MS)
			return
		}
		if dur < int64(to) { // everything has stopped
			stopped = true
			sim.Probe("closed-in-time")
		}
		if faults && now() < e.Until { // let what the timeout cut off finish
			sleep(e.Until - now())
		}
		sleep(12 * SEC)
		at = now()
		stopped = true
		sleep(4 * SEC)
		for _, r := range e.C.Hist {
			if r.Owner == owner && r.At > at {
				e.Violate("C04", "a closed consumer goes on sending requests", "%s %d ms after the close", kafka.APIName(r.API), (r.At-at)/MS)
				return
			}
		}
		e.releasedBy("C04", owner, "a closed consumer", true, true)
		if !returned {
			e.Violate("C04", "Consume does not return after AwaitClose", "%v", sim.Alive(owner))
			return
		}
		if round+1 < rounds {
			for i := work(5); i > 0; i-- {
				list[work(len(list))].fill(&st)
			}
		}
	}
}
