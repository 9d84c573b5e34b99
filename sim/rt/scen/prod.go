package scen

import (
	"context"
	"fmt"

	"github.com/childe/healer"
	"github.com/childe/healer/zz_sim/kafka"
	"github.com/childe/healer/zz_sim/sim"
)

// add is one AddMessage call of the workload.
type add struct {
	id         string
	key, val   []byte
	start, end uint64 // event sequence numbers of call and return (end 0: still running)
	startAt    int64
	endAt      int64
	err        error
	stored     int
	storedAt   int64
	part       int32
}

// ledger compares what was handed to producers with what the brokers stored.
type ledger struct {
	e       *Env
	adds    map[string]*add
	order   []*add
	prop    string // property for content and multiplicity
	propOr  string // property for order
	max     int    // largest batch allowed
	maxS    map[string]uint64
	maxID   map[string]string
	split   bool // messages with and without key travel separately
	loose   bool // messages without key have no order
	parts   map[int32][]*add
	last    int64 // time of the latest append
	onStore func(a *add, p *kafka.Partition)
	counts  []count // numbers of partitions the topic has had
	slack   int64   // how old the metadata of a producer may be
}

func newLedger(e *Env, prop, propOrder string, max int) *ledger {
	l := &ledger{e: e, adds: map[string]*add{}, prop: prop, propOr: propOrder, max: max, maxS: map[string]uint64{}, maxID: map[string]string{}, parts: map[int32][]*add{}}
	e.C.OnProduce = l.onProduce
	e.C.OnBad = func(r *kafka.Req, what string) {
		if r.API == kafka.Produce {
			e.Violate(prop, "invalid batch on the wire", "broker %d rejects a produce request: %s", r.Broker.ID, what)
		}
		e.onBad(r, what)
	}
	return l
}

// count is the number of partitions from a time on.
type count struct {
	at int64
	n  int
}

// onProduce runs when a broker appends a batch.
func (l *ledger) onProduce(p *kafka.Partition, b *kafka.Batch, r *kafka.Req) {
	e := l.e
	l.last = now()
	if l.max > 0 && len(b.Recs) > l.max {
		e.Violate(l.prop, "batch larger than the configured maximum", "%d records in one batch, message.max.count is %d", len(b.Recs), l.max)
		return
	}
	if len(b.Recs) == 0 {
		e.Violate(l.prop, "empty batch", "a produce request with an empty batch reached the broker")
		return
	}
	for i, rec := range b.Recs {
		if rec.Off != b.Base+int64(i) {
			e.Violate(l.prop, "records of a batch do not get distinct consecutive offsets", "record %d of the batch at %d has offset %d", i, b.Base, rec.Off)
			return
		}
		id := idOf(rec.Val)
		a := l.adds[id]
		if a == nil {
			e.Violate(l.prop, "a record nobody produced was stored", "%s-%d offset %d value %s", p.Topic, p.ID, rec.Off, short(rec.Val))
			return
		}
		a.stored++
		a.storedAt = now()
		a.part = p.ID
		if a.stored > 1 {
			e.Violate(l.prop, "a message was stored more than once", "message %s stored again at %s-%d offset %d", id, p.Topic, p.ID, rec.Off)
			return
		}
		if !same(rec.Key, a.key) {
			e.Violate(l.prop, "key altered", "message %s: key %s stored as %s", id, short(a.key), short(rec.Key))
			return
		}
		if string(rec.Val) != string(a.val) {
			e.Violate(l.prop, "value altered", "message %s: value %s stored as %s", id, short(a.val), short(rec.Val))
			return
		}
		if len(rec.Headers) != 0 {
			e.Violate(l.prop, "headers invented", "message %s has %d headers", id, len(rec.Headers))
			return
		}
		if d := rec.TS - (sim.EpochNS+now())/1000000; d > 3600_000*2 || d < -3600_000*2 {
			e.Violate(l.prop, "timestamp is not the time of production", "message %s stored with timestamp %d, now is %d", id, rec.TS, (sim.EpochNS+now())/1000000)
			return
		}
		cl := fmt.Sprint(p.ID)
		if l.split && a.key == nil {
			cl += "n"
		}
		if a.end != 0 && a.end < l.maxS[cl] && !(l.loose && a.key == nil) {
			e.Violate(l.propOr, "messages stored out of order", "message %s was accepted before message %s was even handed over, but is stored after it in %s-%d",
				id, l.maxID[cl], p.Topic, p.ID)
			return
		}
		if a.start > l.maxS[cl] {
			l.maxS[cl] = a.start
			l.maxID[cl] = id
		}
		l.parts[p.ID] = append(l.parts[p.ID], a)
		if l.onStore != nil {
			l.onStore(a, p)
		}
	}
}

type adder interface {
	AddMessage(key, value []byte) error
}

// do performs one AddMessage and scribbles over the caller's buffers afterwards.
func (l *ledger) do(p adder, id string, key []byte, size, kind int, reuse bool) *add {
	val := payload(id, size, kind)
	spare := workPick(0, 0, 1, 3000)
	if spare > 0 {
		val = append(make([]byte, 0, len(val)+spare), val...)
	}
	a := &add{id: id, key: append([]byte(nil), key...), val: append([]byte(nil), val...)}
	if key == nil {
		a.key = nil
	} else if len(key) == 0 {
		a.key = []byte{}
	}
	l.adds[id] = a
	l.order = append(l.order, a)
	kb := key
	if key != nil {
		kb = append(make([]byte, 0, len(key)+1+spare), key...)
	}
	a.start = sim.Seq()
	a.startAt = now()
	a.err = p.AddMessage(kb, val)
	a.end = sim.Seq()
	a.endAt = now()
	sim.Log("add %s -> %v", id, a.err)
	if reuse {
		for i := range kb {
			kb[i] = '#'
		}
		for i := range val {
			val[i] = '#'
		}
	}
	return a
}

// lost lists accepted messages that are not stored.
func (l *ledger) lost() []*add {
	var out []*add
	for _, a := range l.order {
		if a.end != 0 && a.err == nil && a.stored == 0 {
			out = append(out, a)
		}
	}
	return out
}

func ids(as []*add) string {
	s := ""
	for i, a := range as {
		if i == 6 {
			return s + fmt.Sprintf(" ... (%d)", len(as))
		}
		s += " " + a.id
	}
	return s
}

func pkey(i int) []byte {
	switch i {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return []byte("k")
	}
	return []byte(fmt.Sprintf("key-%d-%s", i, "abcdefghijklmnopqrstuvwxyz"[:i%26]))
}

func (e *Env) prodConfig() healer.ProducerConfig {
	c := healer.DefaultProducerConfig()
	c.BootstrapServers = e.C.Bootstrap()
	c.ClientID = "sim-producer"
	c.Net.ConnectTimeoutMS = cfgPick(1000, 2000)
	c.Net.TimeoutMS = cfgPick(3000, 1500)
	c.CompressionType = cfgPick("none", "gzip", "snappy", "lz4")
	c.MessageMaxCount = cfgPick(1, 3, 2, 5, 8, 20, 1024)
	c.FlushIntervalMS = cfgPick(200, 10, 50, 1000)
	c.Acks = cfgPick[int16](-1, 1, -1, 1, -1, 0)
	c.RetryBackOffMS = 100
	c.Sasl = e.sasl()
	return c
}

func (e *Env) sizes() (int, int) {
	switch work(6) {
	case 0, 1, 2:
		return work(40), 0
	case 3:
		return work(1500), 1
	case 4:
		return work(300), 2
	}
	return work(20000), work(3)
}

const app1 = "app"

// quiesce checks that nothing of a closed component is left.
func (e *Env) released(prop, what string, conn, gor bool) {
	e.releasedBy(prop, app1, what, conn, gor)
}

func (e *Env) releasedBy(prop, owner, what string, conn, gor bool) {
	ok := WaitFor(10*SEC, 20*MS, func() bool {
		return (!conn || len(e.Net.OpenConns(owner)) == 0) && (!gor || len(sim.Alive(owner)) == 0)
	})
	if ok {
		sim.Probe("released")
		return
	}
	if c := e.Net.OpenConns(owner); conn && len(c) > 0 {
		e.Violate(prop, what+" leaves connections open", "%s", conns(c))
	}
	if g := sim.Alive(owner); gor && len(g) > 0 {
		e.Violate(prop, what+" leaves goroutines running", "%v", g)
	}
}

func init() {
	register("simple-producer", simpleProducer, "P01", "P04")
	register("simple-producer-faults", simpleProducerFaults, "P02")
	register("simple-producer-sync", simpleProducerSync, "P02")
}

// simpleProducer: one SimpleProducer on a healthy cluster, several goroutines
// adding, flushing and finally closing it.
func simpleProducer(e *Env) {
	e.Setup(1 + cfg(3))
	e.C.AddTopic("t", 1+cfg(3))
	t := e.C.Topic("t")
	part := int32(cfg(len(t.Parts)))
	pc := e.prodConfig()
	l := newLedger(e, "P01", "P01", pc.MessageMaxCount)
	var p *healer.SimpleProducer
	var err error
	if !CallIn(app1, "new", 60*SEC, func() { p, err = healer.NewSimpleProducer(context.Background(), "t", part, pc) }) {
		e.Violate("P01", "creating a producer does not return", "on a healthy cluster")
		return
	}
	if err != nil {
		e.Violate("P01", "creating a producer fails", "on a healthy cluster: %v", err)
		return
	}
	ng := 1 + work(4)
	reuse := cfgChance(1, 2)
	closing := false
	closedAt := uint64(0)
	early := cfgChance(1, 3) // close while calls are under way
	g := &Group{}
	for i := 0; i < ng; i++ {
		i := i
		n := 1 + work(25)
		g.Go(app1, fmt.Sprint("adder", i), func() {
			for k := 0; k < n; k++ {
				size, kind := e.sizes()
				was := closedAt
				a := l.do(p, fmt.Sprintf("%d.%d", i, k), pkey(work(5)), size, kind, reuse)
				if was != 0 && a.err == nil {
					e.Violate("P04", "a closed producer accepts a message", "AddMessage called after Close returned gives no error")
					return
				}
				if a.err != nil && !closing {
					e.Violate("P01", "a healthy producer rejects a message", "AddMessage(%s): %v", a.id, a.err)
					return
				}
				if appChance(1, 12) {
					if err := p.Flush(); err != nil && !closing {
						e.Violate("P01", "Flush fails on a healthy cluster", "%v", err)
						return
					}
					if a.err == nil && a.stored == 0 && !closing && pc.Acks != 0 {
						e.Violate("P01", "Flush returned before an accepted message was stored", "message %s", a.id)
						return
					}
				}
				if appChance(1, 3) {
					pause(workPick(3, 30, 300))
				}
			}
		})
	}
	if early {
		pause(300)
	} else {
		if !g.Wait(600 * SEC) {
			e.Violate("P01", "AddMessage does not return", "on a healthy cluster")
			return
		}
		if cfgChance(1, 2) {
			// nothing but the flush interval sends the rest
			sleep(int64(pc.FlushIntervalMS)*MS + 3*SEC)
			if x := l.lost(); len(x) > 0 {
				e.Violate("P01", "accepted messages are not sent within the flush interval", "%d messages:%s", len(x), ids(x))
				return
			}
			sim.Probe("flushed-by-interval")
		}
	}
	closing = true
	if !CallIn(app1, "close", 60*SEC, func() { p.Close() }) {
		e.Violate("P04", "Close does not return", "on a healthy cluster")
		return
	}
	closedAt = sim.Seq()
	if pc.Acks == 0 {
		sleep(2 * SEC) // sent, but nobody confirms it
	}
	for _, a := range l.order {
		if a.end != 0 && a.end < closedAt && a.err == nil && a.stored == 0 {
			e.Violate("P04|P01", "Close loses accepted messages", "message %s was accepted and is not stored when Close returns", a.id)
			return
		}
	}
	at := now()
	stored := 0
	for _, a := range l.order {
		stored += a.stored
	}
	g.Wait(600 * SEC)
	if appChance(1, 2) {
		CallIn(app1, "close again", 60*SEC, func() { p.Close() })
	}
	a := l.do(p, "late", nil, 5, 0, false)
	if a.err == nil {
		e.Violate("P04", "a closed producer accepts a message", "AddMessage after Close gives no error")
		return
	}
	sleep(int64(pc.FlushIntervalMS)*MS + 3*SEC)
	after := 0
	for _, a := range l.order {
		after += a.stored
		if a.err != nil && a.stored > 0 {
			e.Violate("P01", "a rejected message was stored", "message %s: AddMessage returned %v", a.id, a.err)
			return
		}
	}
	if x := l.lost(); len(x) > 0 {
		e.Violate("P01", "accepted messages are lost", "%d messages:%s", len(x), ids(x))
		return
	}
	if after != stored {
		e.Violate("P04", "a closed producer goes on sending", "%d messages stored after Close returned", after-stored)
		return
	}
	for _, r := range e.C.Hist {
		if r.Owner == app1 && r.At > at+2*SEC {
			e.Violate("P04", "a closed producer goes on sending requests", "%s at %dms, Close returned at %dms", kafka.APIName(r.API), r.At/MS, at/MS)
			return
		}
	}
	e.released("P04", "a closed producer", true, true)
}

// simpleProducerFaults: concurrent use while connections fail. Nothing may be
// duplicated, altered or reordered; afterwards the producer works again.
func simpleProducerFaults(e *Env) {
	e.Setup(1)
	e.C.AddTopic("t", 1)
	pc := e.prodConfig()
	l := newLedger(e, "P02", "P02", pc.MessageMaxCount)
	var p *healer.SimpleProducer
	var err error
	CallIn(app1, "new", 60*SEC, func() { p, err = healer.NewSimpleProducer(context.Background(), "t", 0, pc) })
	if err != nil || p == nil {
		e.Violate("P02", "creating a producer fails", "on a healthy cluster: %v", err)
		return
	}
	e.Until = now() + int64(2+cfg(12))*SEC
	e.Perm = cfgPick(60, 200, 20, 0)
	if pc.Acks == 0 { // nothing tells the producer that a silent connection is dead
		e.Kinds = []string{"close-before", "rst-before", "delay", "error"}
		e.Chaos([]string{"reset", "crash"}, cfg(5))
	} else {
		e.Chaos([]string{"reset", "crash", "blackhole", "crash-silent", "partition"}, cfg(5))
	}
	ng := 1 + work(3)
	reuse := cfgChance(1, 2)
	g := &Group{}
	for i := 0; i < ng; i++ {
		i := i
		n := 3 + work(30)
		g.Go(app1, fmt.Sprint("adder", i), func() {
			for k := 0; k < n; k++ {
				size, kind := e.sizes()
				l.do(p, fmt.Sprintf("%d.%d", i, k), pkey(work(5)), size, kind, reuse)
				if appChance(1, 8) {
					p.Flush()
				}
				if appChance(1, 2) {
					pause(workPick(3, 100, 1500))
				}
			}
		})
	}
	if !g.Wait(3000 * SEC) {
		e.Violate("P02", "AddMessage does not return", "%v", sim.Alive(app1))
		return
	}
	if now() < e.Until {
		sleep(e.Until - now())
	}
	sleep(10 * SEC)
	// everything works again; the first use may still find the dead connection
	CallIn(app1, "resync", 60*SEC, func() {
		l.do(p, "resync", nil, 3, 0, false)
		p.Flush()
		for i := 0; i < 3 && pc.Acks == 0; i++ {
			sleep(2 * SEC)
			l.do(p, fmt.Sprint("resync.", i), nil, 3, 0, false)
			p.Flush()
		}
	})
	for i := 0; i < 4; i++ {
		id := fmt.Sprint("post.", i)
		var fe error
		if !CallIn(app1, "post", 60*SEC, func() {
			l.do(p, id, nil, 3, 0, false)
			fe = p.Flush()
		}) {
			e.Violate("P02", "producer does not return after faults are over", "%v", sim.Alive(app1))
			return
		}
		a := l.adds[id]
		if pc.Acks == 0 {
			sleep(2 * SEC)
		}
		if fe != nil || a.err != nil || a.stored != 1 {
			e.Violate("P02", "producer does not recover", "10 s after the last fault message %s: AddMessage %v, Flush %v, stored %d times", id, a.err, fe, a.stored)
			return
		}
	}
	sim.Probe("recovered")
}

// simpleProducerSync: one caller, no timer; every result is checked against an
// exact model of what reached the broker.
func simpleProducerSync(e *Env) {
	e.Setup(1)
	e.C.AddTopic("t", 1)
	pc := e.prodConfig()
	pc.FlushIntervalMS = 1000 * 3600 * 24
	if pc.Acks == 0 {
		pc.Acks = -1
	}
	l := newLedger(e, "P02", "P02", pc.MessageMaxCount)
	var p *healer.SimpleProducer
	var err error
	CallIn(app1, "new", 60*SEC, func() { p, err = healer.NewSimpleProducer(context.Background(), "t", 0, pc) })
	if err != nil || p == nil {
		e.Violate("P02", "creating a producer fails", "on a healthy cluster: %v", err)
		return
	}
	e.Until = now() + 1<<60
	e.Perm = cfgPick(100, 400, 30)
	if cfgChance(1, 3) {
		e.Kinds = []string{"error"}
	}
	var buf []*add
	dirty := false // a fault may still affect the next request
	n := 5 + work(40)
	done := CallIn(app1, "caller", 100000*SEC, func() {
		for k := 0; k < n; k++ {
			h := len(e.C.Hist)
			var res error
			var batch []*add
			flush := workChance(1, 4)
			if flush {
				res = p.Flush()
				batch, buf = buf, nil
			} else {
				size, kind := e.sizes()
				a := l.do(p, fmt.Sprint("m", k), pkey(work(5)), size, kind, true)
				res = a.err
				buf = append(buf, a)
				if len(buf) >= pc.MessageMaxCount {
					batch, buf = buf, nil
				}
			}
			sim.Log("call %d flush=%v -> %v", k, flush, res)
			faulty := dirty
			for _, r := range e.C.Hist[h:] {
				if r.Fault != "" || r.Err != 0 {
					faulty = true
				}
			}
			sent := len(e.C.Hist) > h
			if len(batch) == 0 {
				if res != nil {
					e.Violate("P02", "error although nothing was sent", "%v", res)
				}
				if sent {
					e.Violate("P02", "requests although nothing had to be sent", "%d requests", len(e.C.Hist)-h)
				}
				for _, a := range buf {
					if a.stored > 0 {
						e.Violate("P02", "message sent before the batch was full", "message %s", a.id)
					}
				}
				continue
			}
			st := 0
			for _, a := range batch {
				st += a.stored
			}
			if st != 0 && st != len(batch) {
				e.Violate("P02", "a batch was stored in part", "%d of %d", st, len(batch))
			}
			if res == nil && st == 0 {
				e.Violate("P02", "a failed send is reported as success", "%d messages:%s", len(batch), ids(batch))
			}
			if res != nil && !faulty {
				e.Violate("P02", "a send fails without any fault", "%v", res)
			}
			for _, r := range e.C.Hist[h:] {
				if r.API == kafka.Produce && r.Fault == "error" && res == nil {
					e.Violate("P02", "an error code of the broker is not reported", "code %d", r.Err)
				}
			}
			if res != nil {
				sim.Probe("send-failed")
			} else {
				sim.Probe("send-ok")
			}
			// a connection closed behind our back is noticed with the next request
			dirty = res != nil
			for _, r := range e.C.Hist[h:] {
				if r.Fault != "" && r.Fault != "error" && r.Fault != "delay" {
					dirty = true
				}
			}
		}
	})
	if !done {
		e.Violate("P02", "a call does not return", "%v", sim.Alive(app1))
	}
}
