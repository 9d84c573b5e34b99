package scen

import (
	"fmt"
	"time"

	"github.com/childe/healer"
	"github.com/childe/healer/zz_sim/kafka"
	"github.com/childe/healer/zz_sim/sim"
)

func init() {
	register("progress", func(e *Env) { progress(e, 0) }, "C05")
	register("progress-coord", func(e *Env) { progress(e, 1) }, "C05")
	register("progress-faults", func(e *Env) { progress(e, 2) }, "C05")
}

// progress: a consumer with a group id (of one partition, of topics, or as the
// only member of the group) hands messages over; what it commits keeps up.
func progress(e *Env, mode int) {
	e.Setup(1 + cfg(3))
	kind := cfg(3)
	nparts := 1 + cfg(3)
	e.C.AddTopic("t", nparts)
	st := style{magic: []int{2}, codec: []int{0}, maxRec: 4, ctl: cfgChance(1, 3), bulk: cfgChance(1, 8)}
	ars := map[string]*archive{}
	var list []*archive
	for _, p := range e.C.Topic("t").Parts {
		if kind == 0 && p.ID > 0 {
			break
		}
		a := newArchive(p)
		ars[kafka.TP("t", p.ID)] = a
		list = append(list, a)
		for i := work(5); i > 0; i-- {
			a.fill(&st)
		}
	}
	cc := e.consConfig()
	cc.FetchMaxBytes = cfgPick[int32](1<<20, 300)
	cc.FromBeginning = true
	cc.GroupID = "g"
	cc.AutoCommit = cfgChance(3, 4)
	cc.AutoCommitIntervalMS = cfgPick(300, 1000, 5000)
	cc.OffsetsStorage = cfgPick(1, 1, 0)
	cc.SessionTimeoutMS = cfgPick[int32](3000, 6000)
	moved := false
	switch mode {
	case 1: // only the coordinator moves
		e.Until = now() + 20*SEC
		for i := 1 + cfg(2); i > 0; i-- {
			sim.After(int64(flt(12000))*MS, func() { moved = true; e.one("coord", 0) })
		}
	case 2:
		e.Until = now() + int64(3+cfg(15))*SEC
		e.Perm = cfgPick(0, 20, 60)
		e.Chaos([]string{"leader", "crash", "reset", "blackhole", "crash-silent", "partition", "coord", "coord", "noleader", "loss"}, cfg(6))
	}
	slack := int64(cc.AutoCommitIntervalMS)*MS + 3*SEC
	if mode > 0 {
		slack += 90 * SEC
	}

	pos := map[string]int64{}   // end of what was handed over
	last := map[string]int64{}  // committed last
	asked := map[string]int64{} // handed over when CommitOffset was called last
	ncommit, nasked := 0, 0
	e.C.OnCommit = func(g *kafka.Group, m *kafka.Member, topic string, part int32, off int64, r *kafka.Req) {
		k := kafka.TP(topic, part)
		a := ars[k]
		if a == nil {
			e.Violate("C05|G01", "an offset was committed for a partition that was not consumed", "%s = %d", k, off)
			return
		}
		ncommit++
		sim.Probe("committed")
		if !cc.AutoCommit && nasked == 0 {
			e.Violate("C05", "an offset was committed though automatic commits are off", "%s = %d", k, off)
			return
		}
		if x := a.next(pos[k]); off < 0 || x >= 0 && x < off || off > a.p.Next {
			e.Violate("C05|G01", "an offset beyond the messages handed over was committed", "%s: %d committed, but only messages below %d were handed over", k, off, pos[k])
			return
		}
		if off < last[k] && mode == 0 {
			e.Violate("C05", "the committed offset goes back", "%s: %d committed after %d", k, off, last[k])
			return
		}
		last[k] = off
	}
	behind := func(want map[string]int64) string {
		s := ""
		for k, w := range sim.Sorted(want) {
			if w == 0 {
				continue
			}
			if x := ars[k].next(last[k]); x >= 0 && x < w {
				s += fmt.Sprintf(" %s: handed over up to %d, committed %d.", k, w, last[k])
			}
		}
		return s
	}

	for life := 1 + cfg(2); life > 0; life-- {
		ch := make(chan *healer.FullMessage, cfgPick(0, 0, 20))
		owner := fmt.Sprint("app", life)
		start := map[string]int64{}
		for k, o := range sim.Sorted(last) {
			start[k] = o
		}
		seen := map[string]bool{}
		sim.Tap(ch, func(m *healer.FullMessage) {
			k := kafka.TP(m.TopicName, m.PartitionID)
			if m.Message == nil || ars[k] == nil {
				return
			}
			if !seen[k] && mode == 0 {
				if x := ars[k].next(start[k]); x != m.Message.Offset {
					e.Violate("C05|C02", "the successor does not go on where the committed offset says", "%s: committed %d, starts at %d", k, start[k], m.Message.Offset)
				}
			}
			seen[k] = true
			if m.Message.Offset+1 > pos[k] {
				pos[k] = m.Message.Offset + 1
			}
		})
		quit := false
		Spawn("reader", "reader", func() {
			for {
				if _, ok := sim.Recv2(ch); !ok || quit {
					return
				}
				if appChance(1, 10) {
					pause(100)
				}
			}
		})
		var stop func()
		var commit func()
		ok := CallIn(owner, "start", 200*SEC, func() {
			for {
				var err error
				switch kind {
				case 0:
					var c *healer.SimpleConsumer
					if c, err = healer.NewSimpleConsumer("t", 0, cc); err == nil {
						_, err = c.Consume(-2, ch)
						stop = c.Stop
						commit = c.CommitOffset
					}
				case 1:
					var c *healer.Consumer
					if c, err = healer.NewConsumer(cc, "t"); err == nil {
						_, err = c.Consume(ch)
						stop = func() { c.AwaitClose(30 * time.Second) }
					}
				case 2:
					var c *healer.GroupConsumer
					if c, err = healer.NewGroupConsumer("t", cc); err == nil {
						_, err = c.Consume(ch)
						stop = func() { c.AwaitClose(30 * time.Second) }
						commit = c.CommitOffset
					}
				}
				if err == nil {
					return
				}
				if mode < 2 || now() > e.Until+20*SEC {
					e.Violate("C05|C03", "creating a consumer fails on a healthy cluster", "%v", err)
					return
				}
				sleep(500 * MS)
			}
		})
		if !ok {
			e.Violate("C05|C03", "starting a consumer does not return", "%v", sim.Alive(owner))
			return
		}
		delivered := func() bool {
			for k, a := range sim.Sorted(ars) {
				if a.next(pos[k]) >= 0 {
					return false
				}
			}
			return true
		}
		for i := work(12); i > 0; i-- {
			list[work(len(list))].fill(&st)
			pause(1500)
			if commit != nil && !cc.AutoCommit && workChance(1, 2) {
				nasked++
				if !CallIn(owner, "commit", 60*SEC, commit) {
					e.Violate("C05", "CommitOffset does not return", "%v", sim.Alive(owner))
					return
				}
			}
		}
		idle := cfgChance(2, 3)
		if idle || mode == 2 {
			if now() < e.Until {
				sleep(e.Until - now())
			}
			if !WaitFor(150*SEC, 50*MS, delivered) {
				return // C03 decides that
			}
			if cc.AutoCommit {
				if !WaitFor(slack, 50*MS, func() bool { return behind(pos) == "" }) {
					e.Violate("C05", "what was handed over is not committed", "%s", behind(pos))
					return
				}
				sim.Probe("kept-up")
			} else if commit != nil {
				// the application asks again until the moved coordinator is found
				for k, w := range sim.Sorted(pos) {
					asked[k] = w
				}
				for until := now() + slack + 10*SEC; ; {
					nasked++
					sleep(1 * SEC)
					if !CallIn(owner, "commit", 60*SEC, commit) {
						e.Violate("C05", "CommitOffset does not return", "%v", sim.Alive(owner))
						return
					}
					b := behind(asked)
					if b == "" {
						break
					}
					if mode == 0 || now() > until {
						e.Violate("C05", "CommitOffset does not commit what was handed over", "%s", b)
						return
					}
				}
				sim.Probe("asked")
			}
		}
		if !CallIn(owner, "stop", 200*SEC, stop) {
			return // C04 decides that
		}
		quit = true
		undisturbed := mode == 0 || mode == 1 && !moved
		if cc.AutoCommit && (undisturbed || idle) {
			if b := behind(pos); b != "" && (kind != 2 || undisturbed) {
				e.Violate("C05", "what was handed over is not committed when the consumer has stopped", "%s", b)
				return
			}
			sim.Probe("stopped")
		}
		if !cc.AutoCommit && nasked == 0 && ncommit > 0 {
			e.Violate("C05", "an offset was committed though automatic commits are off", "%d commits", ncommit)
		}
		if mode == 2 && now() < e.Until {
			sleep(e.Until - now())
		}
		sleep(2 * SEC)
		for k := range sim.Sorted(pos) { // the successor repeats what was not committed
			pos[k] = last[k]
		}
		for i := work(4); i > 0; i-- {
			list[work(len(list))].fill(&st)
		}
	}
}
