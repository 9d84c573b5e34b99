package scen

import (
	"context"
	"fmt"
	"time"

	"github.com/childe/healer"
	"github.com/childe/healer/zz_sim/kafka"
	"github.com/childe/healer/zz_sim/sim"
)

func init() {
	register("consume-outage", consumeOutage, "C04")
	register("group-outage", groupOutage, "G04")
	register("producer-outage", producerOutage, "P04")
	register("brokers-outage", brokersOutage, "B06")
}

// Outage lets something fail from now on and for good, until EndOutage.
func (e *Env) Outage() {
	apis := []int16{kafka.Fetch, kafka.ListOffsets, kafka.Metadata, kafka.FindCoordinator, kafka.OffsetFetch, kafka.OffsetCommit, kafka.Produce, kafka.JoinGroup, kafka.SyncGroup, kafka.Heartbeat, kafka.ApiVersions, kafka.LeaveGroup}
	kind := flt(8)
	switch kind {
	case 0, 1: // every broker is away
		silent := fltChance(1, 2)
		for _, b := range e.C.Brokers {
			e.C.Crash(b.ID, silent)
		}
		sim.Fault("outage-all-brokers")
	case 2: // every broker is cut off
		for _, b := range e.C.Brokers {
			e.Net.Cut("*", b.Addr)
		}
		sim.Fault("outage-network")
	case 3: // one broker is away
		b := e.pickBroker()
		e.C.Crash(b.ID, fltChance(1, 2))
		sim.Fault("outage-one-broker")
	default: // one or two kinds of requests fail
		bad := map[int16]kafka.Action{}
		for i := 1 + flt(2); i > 0; i-- {
			api := apis[flt(len(apis))]
			a := kafka.Action{Kind: []string{"error", "error", "close-before", "stall", "stall-before", "half-stall", "rst-before", "cut"}[flt(8)], Cut: flt(30)}
			if a.Kind == "error" {
				a.ErrCode = errCodes[api][flt(len(errCodes[api]))]
			}
			bad[api] = a
			sim.Log("outage: %s of every %s", a.Kind, kafka.APIName(api))
		}
		e.Persist = func(r *kafka.Req) kafka.Action { return bad[r.API] }
		sim.Fault("outage-api")
	}
}

// EndOutage repairs everything.
func (e *Env) EndOutage() {
	e.Persist = nil
	e.HealAll()
}

// outageBound is how long ending may take during an outage: several requests in
// a row to several brokers run into their timeouts.
const outageBound = 400 * SEC

// quiet checks that the owner has ended: nothing running, open or sent, neither
// during the outage nor after it.
func (e *Env) quiet(prop, owner, what string) {
	at := now()
	if !WaitFor(60*SEC, 50*MS, func() bool { return len(e.Net.OpenConns(owner)) == 0 && len(sim.Alive(owner)) == 0 }) {
		e.releasedBy(prop, owner, what, true, true)
		return
	}
	at = now()
	e.EndOutage()
	sleep(20 * SEC)
	for _, r := range e.C.Hist {
		if r.Owner == owner && r.At > at+5*SEC { // the network may deliver now what was sent before
			e.Violate(prop, what+" goes on sending requests", "%s %d ms later", kafka.APIName(r.API), (r.At-at)/MS)
			return
		}
	}
	e.releasedBy(prop, owner, what, true, true)
}

// consumeOutage: a SimpleConsumer or Consumer is stopped while something fails for good.
func consumeOutage(e *Env) {
	e.Setup(1 + cfg(3))
	e.C.AddTopic("t", 1+cfg(3))
	t := e.C.Topic("t")
	st := style{magic: []int{2}, codec: []int{0}, maxRec: 4, bulk: cfgChance(1, 8)}
	var ars []*archive
	for _, p := range t.Parts {
		a := newArchive(p)
		ars = append(ars, a)
		for i := work(6); i > 0; i-- {
			a.fill(&st)
		}
	}
	cc := e.consConfig()
	cc.FetchMaxBytes = 1 << 20
	cc.FromBeginning = cfgChance(1, 2)
	cc.AutoCommit = cfgChance(1, 2)
	cc.AutoCommitIntervalMS = cfgPick(300, 1000)
	if cfgChance(1, 2) {
		cc.GroupID = "g"
	}
	start := cfgPick[int64](-2, -1, 0)
	simple := cfgChance(2, 3)
	before := cfgChance(1, 3) // the outage begins before Consume
	ch := make(chan *healer.FullMessage, cfgPick(0, 3, 50))
	stopped, late := false, 0
	sim.Tap(ch, func(m *healer.FullMessage) {
		if stopped {
			late++
			e.Violate("C04", "messages are delivered after the consumer was stopped", "%d messages", late)
		}
	})
	var sc *healer.SimpleConsumer
	var mc *healer.Consumer
	var err error
	if !CallIn(app1, "new", 60*SEC, func() {
		if simple {
			sc, err = healer.NewSimpleConsumer("t", int32(cfg(len(t.Parts))), cc)
		} else {
			mc, err = healer.NewConsumer(cc, "t")
		}
	}) || err != nil {
		e.Violate("C03", "creating a consumer fails on a healthy cluster", "%v", err)
		return
	}
	if before {
		e.Outage()
	} else {
		sim.After(int64(cfg(4000))*MS, func() { e.Outage() })
	}
	g := &Group{}
	g.Go(app1, "consume", func() {
		if simple {
			sc.Consume(start, ch)
		} else {
			mc.Consume(ch)
		}
	})
	deaf := cfgChance(1, 3)
	Spawn("reader", "reader", func() {
		for {
			if deaf && appChance(1, 5) {
				return
			}
			if _, ok := sim.Recv2(ch); !ok {
				return
			}
		}
	})
	Spawn("writer", "writer", func() {
		for i := work(15); i > 0; i-- {
			pause(800)
			ars[work(len(ars))].fill(&st)
		}
	})
	sleep(int64(app(workPick(200, 4000, 12000))) * MS)
	if simple {
		if appChance(1, 4) {
			Spawn(app1, "stop too", func() { sc.Stop() })
		}
		if !CallIn(app1, "stop", outageBound, func() { sc.Stop() }) {
			e.Violate("C04", "Stop does not return", "during an outage: %v", sim.Alive(app1))
			return
		}
	} else {
		to := time.Duration(cfgPick(30000, 3000)) * time.Millisecond
		if !CallIn(app1, "close", int64(to)+5*SEC, func() { mc.AwaitClose(to) }) {
			e.Violate("C04", "AwaitClose does not respect its timeout", "timeout %v, %v", to, sim.Alive(app1))
			return
		}
		WaitFor(outageBound, 100*MS, func() bool { return len(sim.Alive(app1)) == 0 })
	}
	stopped = true
	if !g.Wait(60 * SEC) {
		e.Violate("C04", "Consume does not return after Stop", "%v", sim.Alive(app1))
		return
	}
	sim.Probe("stopped")
	e.quiet("C04", app1, "a stopped consumer")
}

// groupOutage: a member of a group is closed while something fails for good.
func groupOutage(e *Env) {
	e.Setup(1 + cfg(3))
	e.C.AddTopic("t", 1+cfg(4))
	t := e.C.Topic("t")
	st := style{magic: []int{2}, codec: []int{0}, maxRec: 4, bulk: cfgChance(1, 8)}
	var ars []*archive
	for _, p := range t.Parts {
		a := newArchive(p)
		ars = append(ars, a)
		for i := work(6); i > 0; i-- {
			a.fill(&st)
		}
	}
	cc := e.consConfig()
	cc.FetchMaxBytes = 1 << 20
	cc.GroupID = "g"
	cc.FromBeginning = cfgChance(1, 2)
	cc.AutoCommit = cfgChance(2, 3)
	cc.AutoCommitIntervalMS = cfgPick(300, 1000)
	cc.SessionTimeoutMS = cfgPick[int32](3000, 6000)
	cc.MetadataMaxAgeMS = cfgPick(300000, 1000)
	before := cfgChance(1, 3)
	ch := make(chan *healer.FullMessage, cfgPick(0, 3, 50))
	stopped := false
	sim.Tap(ch, func(m *healer.FullMessage) {
		if stopped {
			e.Violate("G04", "messages are delivered after the group consumer was closed", "%s-%d", m.TopicName, m.PartitionID)
		}
	})
	var c *healer.GroupConsumer
	var err error
	if !CallIn(app1, "new", 60*SEC, func() { c, err = healer.NewGroupConsumer("t", cc) }) || err != nil {
		e.Violate("G05", "creating a group consumer fails on a healthy cluster", "%v", err)
		return
	}
	if before {
		e.Outage()
	} else {
		sim.After(int64(cfg(8000))*MS, func() { e.Outage() })
	}
	g := &Group{}
	g.Go(app1, "consume", func() { c.Consume(ch) })
	deaf := cfgChance(1, 3)
	Spawn("reader", "reader", func() {
		for {
			if deaf && appChance(1, 5) {
				return
			}
			if _, ok := sim.Recv2(ch); !ok {
				return
			}
		}
	})
	Spawn("writer", "writer", func() {
		for i := work(15); i > 0; i-- {
			pause(800)
			ars[work(len(ars))].fill(&st)
		}
	})
	if cfgChance(1, 3) { // another member comes and goes
		Spawn("other", "other", func() {
			pause(4000)
			o, err := healer.NewGroupConsumer("t", cc)
			if err != nil {
				return
			}
			Spawn("other", "other consumes", func() { o.Consume(nil) })
			pause(6000)
			o.AwaitClose(3 * time.Second)
		})
	}
	sleep(int64(app(workPick(200, 6000, 20000))) * MS)
	for i := 1 + app(2); i > 0; i-- {
		to := time.Duration(cfgPick(30000, 3000)) * time.Millisecond
		if !CallIn(app1, "close", int64(to)+6*SEC, func() { c.AwaitClose(to) }) {
			e.Violate("G04", "closing a group consumer does not respect its timeout", "timeout %v, %v", to, sim.Alive(app1))
			return
		}
	}
	WaitFor(outageBound, 100*MS, func() bool { return len(sim.Alive(app1)) == 0 })
	stopped = true
	if !g.Wait(60 * SEC) {
		e.Violate("G04", "Consume does not return after closing", "%v", sim.Alive(app1))
		return
	}
	sim.Probe("closed")
	e.quiet("G04", app1, "a closed group consumer")
}

// producerOutage: producers with messages at hand are closed while something
// fails for good.
func producerOutage(e *Env) {
	e.Setup(1 + cfg(3))
	n := 1 + cfg(4)
	e.C.AddTopic("t", n)
	pc := e.prodConfig()
	pc.MetadataMaxAgeMS = cfgPick(300000, 300, 2000)
	l := newLedger(e, "P02", "P02", pc.MessageMaxCount)
	simple := cfgChance(1, 2)
	if !simple {
		e.keyWatch(l, n, pc.Acks)
	}
	var p interface {
		AddMessage(k, v []byte) error
		Close()
	}
	if simple {
		var sp *healer.SimpleProducer
		var err error
		if !CallIn(app1, "new", 60*SEC, func() { sp, err = healer.NewSimpleProducer(context.Background(), "t", int32(cfg(n)), pc) }) || err != nil {
			e.Violate("P01", "creating a producer fails", "on a healthy cluster: %v", err)
			return
		}
		p = sp
	} else {
		mp := e.newProducer("P01", pc)
		if mp == nil {
			return
		}
		p = mp
	}
	sim.After(int64(cfg(3000))*MS, func() { e.Outage() })
	g := &Group{}
	closedAt := uint64(0)
	for i := 1 + work(3); i > 0; i-- {
		i, cnt := i, 1+work(25)
		g.Go(app1, fmt.Sprint("adder", i), func() {
			for k := 0; k < cnt; k++ {
				was := closedAt
				a := l.do(p, fmt.Sprintf("%d.%d", i, k), mkey(), 5, 0, false)
				if was != 0 && a.err == nil {
					e.Violate("P04", "a closed producer accepts a message", "AddMessage called after Close returned gives no error")
					return
				}
				if appChance(1, 2) {
					pause(workPick(3, 300, 1500))
				}
			}
		})
	}
	sleep(int64(app(workPick(300, 4000, 12000))) * MS)
	for i := 1 + app(2); i > 0; i-- {
		if !CallIn(app1, "close", outageBound, func() { p.Close() }) {
			e.Violate("P04", "Close does not return", "during an outage: %v", sim.Alive(app1))
			return
		}
		closedAt = sim.Seq()
	}
	if !g.Wait(outageBound) {
		e.Violate("P04", "AddMessage on a closed producer does not return", "during an outage: %v", sim.Alive(app1))
		return
	}
	for _, k := range [][]byte{nil, []byte("kk")} {
		if a := l.do(p, "late"+string(k), k, 5, 0, false); a.err == nil {
			e.Violate("P04", "a closed producer accepts a message", "AddMessage after Close gives no error (key %s)", short(k))
			return
		}
	}
	sim.Probe("closed")
	e.quiet("P04", app1, "a closed producer")
}

// brokersOutage: the connections to a cluster are closed while something fails for good.
func brokersOutage(e *Env) {
	e.Setup(1 + cfg(3))
	e.C.AddTopic("t", 1+cfg(4))
	bc := healer.DefaultBrokerConfig()
	bc.Net.ConnectTimeoutMS = cfgPick(1000, 2000)
	bc.Net.TimeoutMS = cfgPick(2000, 1200)
	bc.Sasl = e.sasl()
	var bs *healer.Brokers
	var err error
	if !CallIn(app1, "new", 60*SEC, func() { bs, err = healer.NewBrokersWithConfig(e.C.Bootstrap(), bc) }) || err != nil {
		e.Violate("B03", "a healthy cluster cannot be opened", "%v", err)
		return
	}
	sim.After(int64(cfg(2000))*MS, func() { e.Outage() })
	g := &Group{}
	closed := false
	for i := 1 + work(4); i > 0; i-- {
		i := i
		g.Go(app1, fmt.Sprint("user", i), func() {
			for k := work(12); k >= 0; k-- {
				was := closed
				var err error
				switch work(4) {
				case 0:
					_, err = bs.RequestMetaData("c", []string{"t"})
				case 1:
					_, err = bs.RequestOffsets("c", "t", -1, -1, 1)
				case 2:
					_, err = bs.FindCoordinator("c", "g")
				case 3:
					_, err = bs.GetBroker(e.C.Brokers[work(len(e.C.Brokers))].ID)
				}
				if was && err == nil {
					e.Violate("B06", "a request on closed brokers succeeds", "user %d", i)
					return
				}
				pause(workPick(10, 400))
			}
		})
	}
	sleep(int64(app(workPick(100, 3000, 8000))) * MS)
	for i := 1 + app(2); i > 0; i-- {
		if !CallIn(app1, "close", outageBound, func() { bs.Close() }) {
			e.Violate("B06", "Close does not return", "during an outage: %v", sim.Alive(app1))
			return
		}
		closed = true
	}
	if !g.Wait(outageBound) {
		e.Violate("B06", "requests do not end after Close", "during an outage: %v", sim.Alive(app1))
		return
	}
	sim.Probe("closed")
	e.quiet("B06", app1, "a closed set of brokers")
}
