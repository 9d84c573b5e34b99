package scen

import (
	"fmt"

	"github.com/aviddiviner/go-murmur"
	"github.com/childe/healer"
	"github.com/childe/healer/zz_sim/kafka"
	"github.com/childe/healer/zz_sim/sim"
)

func init() {
	register("producer", producerOK, "P01", "P03", "P04")
	register("producer-faults", producerFaults, "P02", "P03", "P04", "P05")
}

func (e *Env) newProducer(prop string, pc healer.ProducerConfig) *healer.Producer {
	var p *healer.Producer
	var err error
	if !CallIn(app1, "new", 60*SEC, func() { p, err = healer.NewProducer("t", pc) }) {
		e.Violate(prop, "creating a producer does not return", "on a healthy cluster")
		return nil
	}
	if err != nil {
		e.Violate(prop, "creating a producer fails", "on a healthy cluster: %v", err)
		return nil
	}
	return p
}

func (e *Env) keyWatch(l *ledger, n int, acks int16) {
	l.split = true
	l.counts = []count{{-1 << 60, n}}
	// Unacknowledged batches on the connections of two senders can overtake each other.
	l.loose = acks == 0
	l.onStore = func(a *add, p *kafka.Partition) {
		if a.key == nil {
			return
		}
		// every number of partitions the producer may have known when it got the message
		for i := len(l.counts) - 1; i >= 0; i-- {
			want := int32(murmur.MurmurHash2(a.key, 0) % uint32(l.counts[i].n))
			if p.ID == want {
				return
			}
			if l.counts[i].at < a.startAt-l.slack {
				break
			}
		}
		c := l.counts[len(l.counts)-1]
		e.Violate("P03", "a key went to another partition", "message %s with key %s stored in partition %d, its key belongs to %d of %d", a.id, short(a.key), p.ID,
			int32(murmur.MurmurHash2(a.key, 0)%uint32(c.n)), c.n)
	}
}

// grow adds partitions to the topic of a ledger.
func (e *Env) grow(l *ledger) {
	e.C.AddPartitions("t", 1+cfg(3))
	l.counts = append(l.counts, count{now(), len(e.C.Topic("t").Parts)})
	sim.Log("topic t has %d partitions now", len(e.C.Topic("t").Parts))
	sim.Probe("grown")
}

func mkey() []byte {
	k := work(9)
	if k < 3 {
		return nil
	}
	return pkey(k - 2)
}

// producerOK: the multi-partition producer on a healthy cluster.
func producerOK(e *Env) {
	e.Setup(1 + cfg(3))
	n := 1 + cfg(5)
	e.C.AddTopic("t", n)
	pc := e.prodConfig()
	pc.MetadataMaxAgeMS = cfgPick(300000, 50, 400, 3000)
	l := newLedger(e, "P01", "P03|P01", pc.MessageMaxCount)
	e.keyWatch(l, n, pc.Acks)
	p := e.newProducer("P01", pc)
	if p == nil {
		return
	}
	l.slack = int64(pc.MetadataMaxAgeMS)*MS + 5*SEC
	growing := cfgChance(1, 3)
	if growing {
		sim.After(int64(cfg(3000))*MS, func() { e.grow(l) })
	}
	ng := 1 + work(4)
	reuse := cfgChance(1, 2)
	closing := false
	closedAt := uint64(0)
	early := cfgChance(1, 3)
	g := &Group{}
	for i := 0; i < ng; i++ {
		i := i
		cnt := 1 + work(25)
		g.Go(app1, fmt.Sprint("adder", i), func() {
			for k := 0; k < cnt; k++ {
				size, kind := e.sizes()
				was := closedAt
				a := l.do(p, fmt.Sprintf("%d.%d", i, k), mkey(), size, kind, reuse)
				if was != 0 && a.err == nil {
					e.Violate("P04", "a closed producer accepts a message", "AddMessage called after Close returned gives no error")
					return
				}
				if a.err != nil && !closing {
					e.Violate("P01", "a healthy producer rejects a message", "AddMessage(%s): %v", a.id, a.err)
					return
				}
				if appChance(1, 3) {
					pause(workPick(3, 30, 300))
				}
			}
		})
	}
	if early {
		pause(1000)
	} else {
		if !g.Wait(600 * SEC) {
			e.Violate("P01", "AddMessage does not return", "on a healthy cluster")
			return
		}
		if growing && pc.MetadataMaxAgeMS <= 3000 {
			sleep(3*SEC + l.slack)
			if !CallIn(app1, "grown", 60*SEC, func() {
				for i := 1; i < 12; i++ {
					if a := l.do(p, fmt.Sprint("grown.", i), pkey(i), 3, 0, false); a.err != nil {
						e.Violate("P01|P03", "a healthy producer rejects a message", "AddMessage(%s) after the topic has grown: %v", a.id, a.err)
					}
				}
			}) {
				e.Violate("P01", "AddMessage does not return", "on a healthy cluster")
				return
			}
		}
		if cfgChance(1, 2) {
			sleep(int64(pc.FlushIntervalMS)*MS + 3*SEC)
			if x := l.lost(); len(x) > 0 {
				e.Violate("P01", "accepted messages are not sent within the flush interval", "%d messages:%s", len(x), ids(x))
				return
			}
			sim.Probe("flushed-by-interval")
		}
	}
	closing = true
	if !CallIn(app1, "close", 60*SEC, func() { p.Close() }) {
		e.Violate("P04", "Close does not return", "on a healthy cluster: %v", sim.Alive(app1))
		return
	}
	closedAt = sim.Seq()
	if pc.Acks == 0 {
		sleep(2 * SEC)
	}
	for _, a := range l.order {
		if a.end != 0 && a.end < closedAt && a.err == nil && a.stored == 0 {
			e.Violate("P04|P01", "Close loses accepted messages", "message %s was accepted and is not stored when Close returns", a.id)
			return
		}
	}
	at := now()
	stored := 0
	for _, a := range l.order {
		stored += a.stored
	}
	if !g.Wait(600 * SEC) {
		e.Violate("P04", "AddMessage on a closed producer does not return", "%v", sim.Alive(app1))
		return
	}
	if appChance(1, 2) {
		CallIn(app1, "close again", 60*SEC, func() { p.Close() })
	}
	for _, k := range [][]byte{nil, []byte("kk")} {
		if a := l.do(p, "late"+string(k), k, 5, 0, false); a.err == nil {
			e.Violate("P04", "a closed producer accepts a message", "AddMessage after Close gives no error (key %s)", short(k))
			return
		}
	}
	sleep(int64(pc.FlushIntervalMS)*MS + 3*SEC)
	after := 0
	for _, a := range l.order {
		after += a.stored
		if a.err != nil && a.stored > 0 {
			e.Violate("P01", "a rejected message was stored", "message %s: AddMessage returned %v", a.id, a.err)
			return
		}
	}
	if x := l.lost(); len(x) > 0 {
		e.Violate("P01", "accepted messages are lost", "%d messages:%s", len(x), ids(x))
		return
	}
	if after != stored {
		e.Violate("P04", "a closed producer goes on sending", "%d messages stored after Close returned", after-stored)
		return
	}
	for _, r := range e.C.Hist {
		if r.Owner == app1 && r.At > at+2*SEC {
			e.Violate("P04", "a closed producer goes on sending requests", "%s at %dms, Close returned at %dms", kafka.APIName(r.API), r.At/MS, at/MS)
			return
		}
	}
	e.released("P04", "a closed producer", true, true)
}

// producerFaults: leaders move, brokers fail and come back; afterwards every
// partition can be written again within one metadata refresh.
func producerFaults(e *Env) {
	e.Setup(2 + cfg(2))
	n := 1 + cfg(5)
	e.C.AddTopic("t", n)
	e.C.MetaLagMS = cfgPick(0, 500)
	pc := e.prodConfig()
	if pc.Acks == 0 {
		pc.Acks = -1
	}
	pc.MetadataMaxAgeMS = cfgPick(1000, 300, 4000)
	l := newLedger(e, "P02|P05", "P02|P05|P03", pc.MessageMaxCount)
	e.keyWatch(l, n, pc.Acks)
	p := e.newProducer("P02", pc)
	if p == nil {
		return
	}
	e.Until = now() + int64(2+cfg(15))*SEC
	e.Perm = cfgPick(0, 20, 60, 200)
	kinds := []string{"leader", "leader", "crash", "reset", "blackhole", "crash-silent", "partition", "noleader", "loss", "loss-silent"}
	e.Chaos(kinds, 1+cfg(6))
	l.slack = e.Until - now() + 20*SEC + 2*int64(pc.MetadataMaxAgeMS)*MS
	if cfgChance(1, 4) {
		sim.After(int64(cfg(1000))*(e.Until-now())/1000, func() { e.grow(l) })
	}
	ng := 1 + work(3)
	reuse := cfgChance(1, 2)
	g := &Group{}
	for i := 0; i < ng; i++ {
		i := i
		cnt := 3 + work(30)
		g.Go(app1, fmt.Sprint("adder", i), func() {
			for k := 0; k < cnt; k++ {
				size, kind := e.sizes()
				l.do(p, fmt.Sprintf("%d.%d", i, k), mkey(), size, kind, reuse)
				if appChance(1, 2) {
					pause(workPick(3, 100, 1500))
				}
			}
		})
	}
	if !g.Wait(3000 * SEC) {
		e.Violate("P02", "AddMessage does not return", "%v", sim.Alive(app1))
		return
	}
	if now() < e.Until {
		sleep(e.Until - now())
	}
	// one refresh may be under way against a dead connection; the next one succeeds
	sleep(20*SEC + 2*int64(pc.MetadataMaxAgeMS)*MS)
	keys := [][]byte{nil}
	for i := 1; i < 8; i++ {
		keys = append(keys, pkey(i))
	}
	// a first use may find a connection that died unnoticed
	CallIn(app1, "resync", 300*SEC, func() {
		for i, k := range keys {
			l.do(p, fmt.Sprint("resync.", i), k, 3, 0, false)
		}
	})
	sleep(20*SEC + 2*int64(pc.MetadataMaxAgeMS)*MS)
	var post []*add
	if !CallIn(app1, "post", 300*SEC, func() {
		for i, k := range keys {
			post = append(post, l.do(p, fmt.Sprint("post.", i), k, 3, 0, false))
		}
	}) {
		e.Violate("P05|P02", "producer hangs after faults are over", "%v", sim.Alive(app1))
		return
	}
	sleep(int64(pc.FlushIntervalMS)*MS + 3*SEC)
	for _, a := range post {
		if a.err != nil || a.stored != 1 {
			e.Violate("P05|P02", "producer does not recover after leader changes", "message %s with key %s: AddMessage %v, stored %d times", a.id, short(a.key), a.err, a.stored)
			return
		}
	}
	sim.Probe("recovered")
	if !CallIn(app1, "close", 60*SEC, func() { p.Close() }) {
		e.Violate("P04|P02", "Close does not return", "%v", sim.Alive(app1))
		return
	}
	e.released("P04", "a closed producer", true, true)
}
