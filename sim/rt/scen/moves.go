package scen

import (
	"fmt"

	"github.com/aviddiviner/go-murmur"
	"github.com/childe/healer/zz_sim/kafka"
	"github.com/childe/healer/zz_sim/sim"
)

func init() {
	register("producer-moves", producerMoves, "P05")
	register("producer-refresh", producerRefresh, "P01", "P04")
}

// producerMoves: leaders are moved (as an administrator or the cluster does to
// balance load) while messages keep coming in; nothing else happens.
func producerMoves(e *Env) {
	e.Setup(2 + cfg(2))
	n := 1 + cfg(5)
	e.C.AddTopic("t", n)
	lag := cfgPick(0, 300)
	e.C.MetaLagMS = lag
	pc := e.prodConfig()
	if pc.Acks == 0 {
		pc.Acks = -1
	}
	pc.MetadataMaxAgeMS = cfgPick(500, 50, 200, 2000)
	pc.FlushIntervalMS = cfgPick(200, 10, 1000, 4000)
	l := newLedger(e, "P05", "P05", pc.MessageMaxCount)
	e.keyWatch(l, n, pc.Acks)
	void := int32(-1)
	moved := map[int32]bool{}
	last := now()
	moving := now() + int64(1+cfg(6))*SEC
	e.Until = moving
	for i := 1 + cfg(4); i > 0; i-- {
		sim.After(int64(flt(6000))*MS, func() {
			if now() >= moving {
				return
			}
			part := e.C.Topic("t").Parts[flt(n)]
			if n > 1 && part.ID == 0 {
				return // one partition is never touched
			}
			if part.ID == void {
				return
			}
			moved[part.ID] = true
			last = now()
			e.C.MoveLeader(part)
		})
	}
	// a partition that has lost its leader for longer does not keep the others from being followed
	if n > 2 && cfgChance(1, 2) {
		part := e.C.Topic("t").Parts[1+cfg(n-1)]
		void = part.ID
		moved[part.ID] = true
		if cfgChance(1, 2) {
			e.C.Vacate(part, 600*SEC)
		} else {
			sim.After(int64(flt(3000))*MS, func() {
				if now() >= moving {
					return
				}
				e.C.Vacate(part, 600*SEC)
				last = now()
			})
		}
	}
	p := e.newProducer("P05", pc)
	if p == nil {
		return
	}
	last = now()
	settled := func() int64 { return last + int64(lag)*MS + 2*int64(pc.MetadataMaxAgeMS)*MS + 2*SEC }
	keyed := func(k []byte) int32 { return int32(murmur.MurmurHash2(k, 0) % uint32(n)) }
	ng := 1 + work(3)
	g := &Group{}
	for i := 0; i < ng; i++ {
		i := i
		gap := workPick(5, 40, 300)
		g.Go(app1, fmt.Sprint("adder", i), func() {
			for k := 0; k < 400 && (now() < moving || now() < settled()+2*SEC); k++ {
				size, kind := e.sizes()
				key := mkey()
				late := now() > moving && now() > settled()
				a := l.do(p, fmt.Sprintf("%d.%d", i, k), key, size, kind, false)
				if a.err != nil {
					away := key != nil && keyed(key) == void
					if late && !away {
						e.Violate("P05", "messages are rejected after a leader moved", "message %s with key %s, %d ms after the last move: %v", a.id, short(key), (now()-last)/MS, a.err)
						return
					}
					if key != nil && !moved[keyed(key)] {
						e.Violate("P05", "a message for a partition that was not moved is rejected", "message %s with key %s for partition %d: %v", a.id, short(key), keyed(key), a.err)
						return
					}
				}
				pause(gap)
				if k > 60 {
					pause(gap * 10)
				}
			}
		})
	}
	if !g.Wait(600 * SEC) {
		e.Violate("P05", "AddMessage does not return", "%v", sim.Alive(app1))
		return
	}
	var post []*add
	if now() < moving {
		sleep(moving - now())
	}
	if now() < settled() {
		sleep(settled() - now())
	}
	if !CallIn(app1, "post", 60*SEC, func() {
		for i := 0; i < 8; i++ {
			post = append(post, l.do(p, fmt.Sprint("post.", i), pkey(i), 3, 0, false))
		}
	}) {
		e.Violate("P05", "AddMessage does not return", "%v", sim.Alive(app1))
		return
	}
	sleep(int64(pc.FlushIntervalMS)*MS + 3*SEC)
	for _, a := range post {
		if a.key != nil && keyed(a.key) == void {
			continue
		}
		if a.err != nil || a.stored != 1 {
			e.Violate("P05", "a message does not reach the new leader", "message %s with key %s, after %d ms: AddMessage %v, stored %d times", a.id, short(a.key), (now()-last)/MS, a.err, a.stored)
			return
		}
	}
	for _, a := range l.lost() {
		if a.key != nil && !moved[keyed(a.key)] {
			e.Violate("P05", "a message for a partition that was not moved is lost", "message %s with key %s for partition %d", a.id, short(a.key), keyed(a.key))
			return
		}
		if a.endAt > settled()+1*SEC && (a.key == nil || keyed(a.key) != void) {
			e.Violate("P05", "a message does not reach the new leader", "message %s with key %s was accepted %d ms after the last move", a.id, short(a.key), (a.endAt-last)/MS)
			return
		}
	}
	if len(moved) > 0 {
		sim.Probe("moved")
	}
	CallIn(app1, "close", 60*SEC, func() { p.Close() })
}

// producerRefresh: the metadata is refreshed again and again while messages
// are added; none of that shows.
func producerRefresh(e *Env) {
	e.Setup(1 + cfg(2))
	n := 1 + cfg(4)
	e.C.AddTopic("t", n)
	pc := e.prodConfig()
	pc.MetadataMaxAgeMS = cfgPick(10, 20, 50)
	pc.FlushIntervalMS = cfgPick(200, 10, 1000)
	l := newLedger(e, "P01", "P01", pc.MessageMaxCount)
	e.keyWatch(l, n, pc.Acks)
	p := e.newProducer("P01", pc)
	if p == nil {
		return
	}
	g := &Group{}
	for i := 1 + work(4); i > 0; i-- {
		i := i
		cnt := 10 + work(60)
		gap := workPick(2, 10, 0)
		g.Go(app1, fmt.Sprint("adder", i), func() {
			for k := 0; k < cnt; k++ {
				key := mkey()
				if appChance(1, 2) {
					key = nil
				}
				a := l.do(p, fmt.Sprintf("%d.%d", i, k), key, work(40), 0, false)
				if a.err != nil {
					e.Violate("P01", "a healthy producer rejects a message", "AddMessage(%s): %v", a.id, a.err)
					return
				}
				if gap > 0 {
					pause(gap)
				}
			}
		})
	}
	if !g.Wait(600 * SEC) {
		e.Violate("P01", "AddMessage does not return", "on a healthy cluster")
		return
	}
	if !CallIn(app1, "close", 60*SEC, func() { p.Close() }) {
		e.Violate("P04", "Close does not return", "on a healthy cluster: %v", sim.Alive(app1))
		return
	}
	if pc.Acks == 0 {
		sleep(2 * SEC)
	}
	if x := l.lost(); len(x) > 0 {
		e.Violate("P04|P01", "accepted messages are lost", "%d messages:%s", len(x), ids(x))
		return
	}
	at := now()
	sleep(3 * SEC)
	for _, r := range e.C.Hist {
		if r.Owner == app1 && r.At > at+2*SEC {
			e.Violate("P04", "a closed producer goes on sending requests", "%s at %dms, Close returned at %dms", kafka.APIName(r.API), r.At/MS, at/MS)
			return
		}
	}
	e.released("P04", "a closed producer", true, true)
}
