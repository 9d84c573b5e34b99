package scen

import (
	"fmt"
	"sort"

	"github.com/childe/healer"
	"github.com/childe/healer/zz_sim/kafka"
	"github.com/childe/healer/zz_sim/sim"
)

// archive remembers every record ever written to a partition.
type archive struct {
	p    *kafka.Partition
	recs map[int64]kafka.Rec
	offs []int64 // in order
	gone map[int64]bool
	seq  int
}

func newArchive(p *kafka.Partition) *archive {
	return &archive{p: p, recs: map[int64]kafka.Rec{}, gone: map[int64]bool{}}
}

func (a *archive) note(b *kafka.Batch) {
	for _, r := range b.Recs {
		a.recs[r.Off] = r
		a.offs = append(a.offs, r.Off)
	}
}

// live tells whether the record is still in the log.
func (a *archive) live(off int64) bool { return !a.gone[off] && off >= a.p.LogStart }

// next is the first live offset at or after pos, -1 if there is none.
func (a *archive) next(pos int64) int64 {
	for _, o := range a.from(pos) {
		if a.live(o) {
			return o
		}
	}
	return -1
}

// from are the offsets at or after pos, which are in order.
func (a *archive) from(pos int64) []int64 {
	return a.offs[sort.Search(len(a.offs), func(i int) bool { return a.offs[i] >= pos }):]
}

// style is how the other producers of a topic write.
type style struct {
	magic  []int
	codec  []int
	big    int
	ctl    bool
	maxRec int
	logTS  bool // the topic uses the time of the append
	bulk   bool // some batches have many records
	huge   int  // records of more than a megabyte still to come
}

func (e *Env) style() style {
	s := style{magic: []int{2}, codec: []int{0}, maxRec: cfgPick(1, 4, 12)}
	switch cfg(4) {
	case 1:
		s.codec = []int{0, 1, 2, 3}
	case 2:
		s.magic = []int{0, 1, 2}
		s.codec = []int{0, 1, 2, 3}
	case 3:
		s.codec = []int{cfg(4)}
		s.magic = []int{cfg(3)}
	}
	s.big = cfgPick(0, 0, 3000, 200)
	s.ctl = cfgChance(1, 4)
	s.logTS = cfgChance(1, 6)
	s.bulk = cfgChance(1, 8)
	if cfgChance(1, 24) {
		s.huge = 1 + cfg(2)
	}
	return s
}

// fill appends one batch written by somebody else.
func (a *archive) fill(s *style) {
	if s.ctl && workChance(1, 6) {
		a.p.Control()
		return
	}
	mi := work(len(s.magic))
	magic := s.magic[mi]
	n := 1 + work(s.maxRec)
	if s.bulk && workChance(1, 4) {
		n = 60 + work(200)
	}
	ts := (sim.EpochNS + now()) / 1000000
	var recs []kafka.Rec
	for i := 0; i < n; i++ {
		a.seq++
		size := work(30)
		if s.big > 0 && workChance(1, 4) {
			size = work(s.big)
		}
		if s.huge > 0 && workChance(1, 8) {
			s.huge--
			size = 1<<20 + work(2<<20)
			sim.Probe("huge")
		}
		r := kafka.Rec{Key: pkey(work(5)), Val: payload(fmt.Sprintf("%s-%d-%d", a.p.Topic, a.p.ID, a.seq), size, work(3)), TS: ts + int64(work(50))}
		switch work(14) {
		case 0:
			r.Val = nil
		case 1:
			r.Val = []byte{}
		case 2: // producers may choose any timestamp
			r.TS = ts - int64(work(7))*1000000007
		case 3:
			r.TS = ts + int64(work(7))*1000000007
		}
		if magic == 2 {
			for j := work(4); j > 1; j-- {
				h := kafka.Header{Key: fmt.Sprint("h", j), Value: []byte("hv")}
				switch work(4) {
				case 0:
					h.Value = nil
				case 1:
					h.Value = []byte{}
				}
				r.Headers = append(r.Headers, h)
			}
		}
		recs = append(recs, r)
	}
	a.note(a.p.AppendAs(magic, s.codec[work(len(s.codec))], recs, ts, s.ctl && magic == 2 && workChance(1, 2), s.logTS && magic > 0))
}

// compact drops some records.
func (a *archive) compact() {
	keepEmpty := workChance(1, 2)
	a.p.Compact(func(r kafka.Rec) bool {
		if a.gone[r.Off] {
			return true
		}
		if workChance(1, 2) {
			a.gone[r.Off] = true
			return true
		}
		return false
	}, keepEmpty)
	sim.Log("compacted %s-%d", a.p.Topic, a.p.ID)
}

// track follows the stream of one partition as an application sees it.
type track struct {
	e     *Env
	a     *archive
	prop  string
	pos   int64 // next offset expected
	n     int
	lossy bool // timestamps and headers do not survive (old fetch version)
	jump  func(from, to int64) bool
}

func (t *track) see(m *healer.FullMessage) bool {
	e := t.e
	if m == nil || m.Message == nil {
		e.Violate(t.prop, "a message without content was delivered", "%+v", m)
		return false
	}
	o := m.Message.Offset
	p := t.a.p
	if m.TopicName != p.Topic || m.PartitionID != p.ID {
		e.Violate(t.prop, "message of another partition", "%s-%d instead of %s-%d", m.TopicName, m.PartitionID, p.Topic, p.ID)
		return false
	}
	r, ok := t.a.recs[o]
	if !ok {
		e.Violate(t.prop, "a message that is not in the log was delivered", "%s-%d offset %d value %s", p.Topic, p.ID, o, short(m.Message.Value))
		return false
	}
	if o < t.pos && t.pos >= 0 {
		e.Violate(t.prop, "a message was delivered again or out of order", "%s-%d offset %d after %d", p.Topic, p.ID, o, t.pos-1)
		return false
	}
	if t.pos >= 0 {
		for _, x := range t.a.from(t.pos) {
			if x >= o {
				break
			}
			if t.a.live(x) && (t.jump == nil || !t.jump(t.pos, o)) {
				e.Violate(t.prop, "a message was skipped", "%s-%d offset %d: %d was delivered after %d", p.Topic, p.ID, x, o, t.pos-1)
				return false
			}
		}
	}
	if d := diffMsg(r, m.Message, t.lossy); d != "" {
		e.Violate(t.prop, "a message was altered", "%s-%d offset %d: %s", p.Topic, p.ID, o, d)
		return false
	}
	t.pos = o + 1
	t.n++
	return true
}

func diffMsg(r kafka.Rec, m *healer.Message, lossy bool) string {
	if !same(r.Key, m.Key) {
		return fmt.Sprintf("key %s delivered as %s", short(r.Key), short(m.Key))
	}
	if !same(r.Val, m.Value) {
		return fmt.Sprintf("value %s delivered as %s", short(r.Val), short(m.Value))
	}
	if lossy {
		return ""
	}
	if m.MagicByte >= 1 && int64(m.Timestamp) != r.TS {
		return fmt.Sprintf("timestamp %d delivered as %d", r.TS, m.Timestamp)
	}
	if len(m.Headers) != len(r.Headers) {
		return fmt.Sprintf("%d headers delivered as %d", len(r.Headers), len(m.Headers))
	}
	for i, h := range r.Headers {
		if h.Key != m.Headers[i].Key || !same(h.Value, m.Headers[i].Value) {
			return fmt.Sprintf("header %q=%s delivered as %q=%s", h.Key, short(h.Value), m.Headers[i].Key, short(m.Headers[i].Value))
		}
	}
	return ""
}

func (e *Env) consConfig() healer.ConsumerConfig {
	c := healer.DefaultConsumerConfig()
	c.BootstrapServers = e.C.Bootstrap()
	c.ClientID = "sim-consumer"
	c.Net.ConnectTimeoutMS = cfgPick(1000, 2000)
	c.Net.TimeoutMS = cfgPick(2000, 1200)
	c.FetchMaxWaitMS = cfgPick[int32](300, 50, 1000)
	c.FetchMinBytes = cfgPick[int32](1, 1, 500)
	c.FetchMaxBytes = cfgPick[int32](1<<20, 10<<20, 100, 400, 3000, 1500000000)
	c.RetryBackOffMS = cfgPick(100, 20)
	c.SessionTimeoutMS = 6000
	c.Sasl = e.sasl()
	return c
}

// oldFetch lets the brokers offer only old versions of Fetch; it reports
// whether timestamps and headers are lost thereby.
func (e *Env) oldFetch() bool {
	switch cfg(6) {
	case 4:
		e.C.Versions[kafka.Fetch] = kafka.VRange{Min: 0, Max: 8}
	case 5:
		e.C.Versions[kafka.Fetch] = kafka.VRange{Min: 0, Max: 3}
		return true
	}
	return false
}

func init() {
	register("consume", func(e *Env) { simpleConsume(e, false) }, "C01", "C04")
	register("consume-faults", func(e *Env) { simpleConsume(e, true) }, "C01", "C03", "C04")
}

// simpleConsume: one SimpleConsumer reads a partition that others write.
func simpleConsume(e *Env, faults bool) {
	nb := 1 + cfg(3)
	if faults {
		nb = 2 + cfg(2)
	}
	e.Setup(nb)
	e.C.AddTopic("t", 1+cfg(3))
	t := e.C.Topic("t")
	pid := int32(cfg(len(t.Parts)))
	lossy := e.oldFetch()
	st := e.style()
	a := newArchive(t.Parts[pid])
	for i := work(12); i > 0; i-- {
		a.fill(&st)
	}
	comp := cfgChance(1, 3)
	if comp {
		a.compact()
	}
	if cfgChance(1, 4) && a.p.Next > 0 {
		a.p.Retain(int64(work(int(a.p.Next))))
	}
	cc := e.consConfig()
	var ch chan *healer.FullMessage
	if cfgChance(1, 2) {
		ch = make(chan *healer.FullMessage, cfgPick(0, 1, 50))
	}
	start := int64(-2)
	pos := a.p.LogStart
	if cfgChance(1, 2) {
		start = a.p.LogStart + int64(work(int(a.p.Next-a.p.LogStart)+1))
		pos = start
	}
	prop := "C01"
	if faults {
		prop = "C01|C03"
	}
	tr := &track{e: e, a: a, prop: prop, pos: pos, lossy: lossy}
	if faults {
		e.Until = now() + int64(2+cfg(15))*SEC
		e.Perm = cfgPick(0, 20, 60, 200)
		e.C.MetaLagMS = cfgPick(0, 500)
		e.Chaos([]string{"leader", "crash", "reset", "blackhole", "crash-silent", "partition", "leader", "noleader", "loss", "loss-silent"}, cfg(6))
	}
	var c *healer.SimpleConsumer
	var err error
	for i := 0; ; i++ {
		if !CallIn(app1, "new", 300*SEC, func() { c, err = healer.NewSimpleConsumer("t", pid, cc) }) {
			e.Violate("C03", "creating a consumer does not return", "%v", sim.Alive(app1))
			return
		}
		if err == nil {
			break
		}
		if !faults || now() > e.Until+20*SEC {
			e.Violate("C03", "creating a consumer fails on a healthy cluster", "%v", err)
			return
		}
		sleep(500 * MS)
	}
	early := cfgChance(1, 3) // stop at an arbitrary point
	stopped, stopping := false, false
	var out <-chan *healer.FullMessage
	consumed := false
	g := &Group{}
	g.Go(app1, "consume", func() {
		out, err = c.Consume(start, ch)
		consumed = true
	})
	stall := cfgChance(1, 5) // the application stops reading for a while
	deaf := cfgChance(1, 4)  // it does not read any more when it stops the consumer
	reader := func() {
		if !WaitFor(3000*SEC, 5*MS, func() bool { return consumed }) {
			return
		}
		if err != nil {
			e.Violate("C03", "Consume fails", "%v", err)
			return
		}
		late := 0
		for {
			was := stopped
			m, ok := sim.Recv2(out)
			if !ok {
				return
			}
			if was {
				if late++; late > cap(out)+1 {
					e.Violate("C04", "messages are delivered after the consumer was stopped", "%d messages", late)
					return
				}
			}
			if !tr.see(m) {
				return
			}
			sim.Log("got %d", m.Message.Offset)
			if stall && !stopping && appChance(1, 8) {
				sleep(int64(app(20)) * SEC)
			}
			if appChance(1, 10) {
				pause(100)
			}
			if deaf && early && !stopped {
				deaf = appChance(9, 10)
				if !deaf {
					for !stopped {
						sleep(200 * MS)
					}
				}
			}
		}
	}
	Spawn("reader", "reader", reader)
	// others go on writing
	Spawn("writer", "writer", func() {
		for i := work(15); i > 0; i-- {
			pause(400)
			a.fill(&st)
			if comp && appChance(1, 10) {
				a.compact()
			}
		}
		stopping = stopping || false
		a.seq = 1 << 30
	})
	if early {
		sleep(int64(app(8000)) * MS)
	} else {
		WaitFor(600*SEC, 50*MS, func() bool { return a.seq >= 1<<30 })
		if now() < e.Until {
			sleep(e.Until - now())
		}
		stall = false
		if !WaitMore(150*SEC, 20*MS, func() int64 { return tr.pos }, func() bool { return consumed && a.next(tr.pos) < 0 }) {
			prop := "C01"
			if faults {
				prop = "C03|C01"
			}
			e.Violate(prop, "the consumer makes no progress", "%s-%d: position %d, log end %d, %v", a.p.Topic, a.p.ID, tr.pos, a.p.Next, sim.Alive(app1))
			return
		}
		sim.Probe("caught-up")
	}
	if tr.n > 0 {
		sim.Probe("delivered")
	}
	stopping = true
	if appChance(1, 4) {
		Spawn(app1, "stop too", func() { c.Stop() })
	}
	if !CallIn(app1, "stop", 60*SEC, func() { c.Stop() }) {
		e.Violate("C04", "Stop does not return", "%v", sim.Alive(app1))
		return
	}
	stopped = true
	at := now()
	if !g.Wait(60 * SEC) {
		e.Violate("C04", "Consume does not return after Stop", "%v", sim.Alive(app1))
		return
	}
	sleep(8 * SEC)
	for _, r := range e.C.Hist {
		if r.Owner == app1 && r.At > at+5*SEC {
			e.Violate("C04", "a stopped consumer goes on sending requests", "%s at %dms, Stop returned at %dms", kafka.APIName(r.API), r.At/MS, at/MS)
			return
		}
	}
	e.released("C04", "a stopped consumer", true, true)
}
