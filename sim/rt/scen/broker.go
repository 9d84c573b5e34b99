package scen

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/childe/healer"
	"github.com/childe/healer/zz_sim/kafka"
	"github.com/childe/healer/zz_sim/sim"
)

func init() {
	register("calls", func(e *Env) { brokerCalls(e, 0) }, "B01", "B04", "B05", "B06")
	register("calls-faults", func(e *Env) { brokerCalls(e, 1) }, "B01", "B02", "B03", "B04", "B05")
	register("calls-upgrade", func(e *Env) { brokerCalls(e, 2) }, "B01", "B03", "B05")
	register("calls-close", func(e *Env) { brokerCalls(e, 3) }, "B02", "B06")
	register("timeouts", timeouts, "B02")
	register("auth", auth, "B02", "B04")
	register("connect", connect, "B02", "B03", "B06")
	register("any-broker", anyBroker, "B02", "B03", "B06")
}

// caller is one application that uses the connection layer.
type caller struct {
	e     *Env
	bs    *healer.Brokers
	owner string
	exact bool // leadership and coordination do not move
	last  string
}

// facts fills the cluster with distinguishable topics and groups.
func (e *Env) facts() {
	n := 2 + cfg(3)
	for i := 0; i < n; i++ {
		t := e.C.AddTopic(fmt.Sprintf("topic-%d", i), 1+work(5))
		for _, p := range t.Parts {
			for k := work(4); k > 0; k-- {
				p.Append(2, 0, []kafka.Rec{{Val: []byte("v")}, {Val: []byte("w")}}, 1000)
			}
			if work(3) == 0 {
				p.Retain(int64(work(int(p.Next) + 1)))
			}
		}
	}
	for i := 0; i < 1+cfg(3); i++ {
		g := fmt.Sprintf("group-%d", i)
		for _, tn := range e.C.TopicNames() {
			for _, p := range e.C.Topic(tn).Parts {
				if work(3) > 0 || tn == "topic-0" && p.ID == 0 {
					e.C.SetOffset(g, tn, p.ID, int64(1000*(i+1)+work(500)))
				}
			}
		}
	}
}

// versions lets every broker offer its own range of the APIs healer knows in
// several versions.
func (e *Env) versions(b *kafka.Broker) {
	r := func(api int16, xs ...kafka.VRange) {
		b.SetVersion(api, xs[flt(len(xs))])
	}
	r(kafka.Metadata, kafka.VRange{Min: 0, Max: 12}, kafka.VRange{Min: 0, Max: 1}, kafka.VRange{Min: 0, Max: 3}, kafka.VRange{Min: 1, Max: 1},
		kafka.VRange{Min: 4, Max: 12}, kafka.VRange{Min: 2, Max: 6}, kafka.VRange{Min: 7, Max: 7}, kafka.VRange{Min: 0, Max: 6})
	r(kafka.ListOffsets, kafka.VRange{Min: 0, Max: 8}, kafka.VRange{Min: 0, Max: 0}, kafka.VRange{Min: 1, Max: 8}, kafka.VRange{Min: 0, Max: 1})
	r(kafka.OffsetFetch, kafka.VRange{Min: 0, Max: 8}, kafka.VRange{Min: 0, Max: 1}, kafka.VRange{Min: 1, Max: 8}, kafka.VRange{Min: 1, Max: 1})
	r(kafka.OffsetCommit, kafka.VRange{Min: 0, Max: 8}, kafka.VRange{Min: 0, Max: 2}, kafka.VRange{Min: 2, Max: 8})
	r(kafka.ListGroups, kafka.VRange{Min: 0, Max: 5}, kafka.VRange{Min: 0, Max: 4}, kafka.VRange{Min: 0, Max: 3}, kafka.VRange{Min: 0, Max: 2},
		kafka.VRange{Min: 0, Max: 1}, kafka.VRange{Min: 0, Max: 0}, kafka.VRange{Min: 5, Max: 5}, kafka.VRange{Min: 2, Max: 4}, kafka.VRange{Min: 3, Max: 3})
	r(kafka.Fetch, kafka.VRange{Min: 0, Max: 13}, kafka.VRange{Min: 0, Max: 10}, kafka.VRange{Min: 4, Max: 9}, kafka.VRange{Min: 7, Max: 7})
	r(kafka.DescribeAcls, kafka.VRange{Min: 0, Max: 3}, kafka.VRange{Min: 0, Max: 1}, kafka.VRange{Min: 0, Max: 0}, kafka.VRange{Min: 2, Max: 2})
}

func (e *Env) brokerConfig(short bool) *healer.BrokerConfig {
	c := healer.DefaultBrokerConfig()
	c.Net.ConnectTimeoutMS = cfgPick(1000, 2000, 500)
	c.Net.TimeoutMS = cfgPick(1500, 3000, 1000, 6000)
	if cfgChance(1, 2) {
		c.Net.TimeoutMSForEachAPI = make([]int, cfgPick(68, 10, 17))
		for i := range c.Net.TimeoutMSForEachAPI {
			c.Net.TimeoutMSForEachAPI[i] = cfgPick(0, 0, 1200, 2500, 400)
		}
	}
	c.Sasl = e.sasl()
	return c
}

// timeoutOf is how long a request may wait for its answer.
func timeoutOf(c *healer.BrokerConfig, api int) int64 {
	t := c.Net.TimeoutMS
	if api < len(c.Net.TimeoutMSForEachAPI) && c.Net.TimeoutMSForEachAPI[api] > 0 {
		t = c.Net.TimeoutMSForEachAPI[api]
	}
	return int64(t) * MS
}

// single is how long one request on one broker may take, with a reconnection.
func single(c *healer.BrokerConfig, api int) int64 {
	d := int64(c.Net.ConnectTimeoutMS)*MS + 2*timeoutOf(c, 18)
	if c.Sasl.Mechanism != "" {
		d += 2*timeoutOf(c, 17) + 2*timeoutOf(c, 36)
	}
	return d + 2*timeoutOf(c, api)
}

// slowest is the longest such time over the APIs used here.
func slowest(c *healer.BrokerConfig) (d int64) {
	for _, api := range []int{1, 2, 3, 9, 10, 15, 16, 32} {
		if x := single(c, api); x > d {
			d = x
		}
	}
	return d
}

// call makes one request and judges the answer; it returns the error.
func (x *caller) call() error {
	e := x.e
	bad := func(what, format string, a ...any) {
		e.Violate("B01", "a response does not answer the request", "%s: %s", what, fmt.Sprintf(format, a...))
	}
	ns := e.C.TopicNames()
	topic := ns[work(len(ns))]
	t := e.C.Topic(topic)
	gs := e.C.GroupNames()
	group := gs[work(len(gs))]
	ids := []int32{}
	for _, b := range e.C.Brokers {
		ids = append(ids, b.ID)
	}
	id := ids[work(len(ids))]
	k := work(9)
	x.last = fmt.Sprintf("call %d %s %s broker %d", k, topic, group, id)
	switch k {
	case 0, 1: // metadata
		names := []string{topic}
		if work(2) == 0 {
			for _, n := range ns {
				if n != topic && work(2) == 0 {
					names = append(names, n)
				}
			}
		}
		r, err := x.bs.RequestMetaData("sim", names)
		if err != nil {
			return err
		}
		got := map[string]bool{}
		for _, tm := range r.TopicMetadatas {
			if got[tm.TopicName] || !contains(names, tm.TopicName) {
				bad("metadata", "asked for %v, got %s", names, tm.TopicName)
				return nil
			}
			got[tm.TopicName] = true
			mt := e.C.Topic(tm.TopicName)
			seen := map[int32]bool{}
			for _, pm := range tm.PartitionMetadatas {
				p := e.C.Part(tm.TopicName, pm.PartitionID)
				if p == nil || seen[pm.PartitionID] {
					bad("metadata", "%s has no such partition %d", tm.TopicName, pm.PartitionID)
					return nil
				}
				seen[pm.PartitionID] = true
				if x.exact && pm.Leader != p.Leader || fmt.Sprint(sortedI(pm.Replicas)) != fmt.Sprint(sortedI(p.Replicas)) || fmt.Sprint(sortedI(pm.Isr)) != fmt.Sprint(sortedI(p.ISR)) {
					bad("metadata", "%s-%d: leader %d replicas %v isr %v, got %+v", p.Topic, p.ID, p.Leader, p.Replicas, p.ISR, *pm)
					return nil
				}
			}
			if len(seen) != len(mt.Parts) || tm.TopicErrorCode != 0 {
				bad("metadata", "%s has %d partitions, got %d (error %d)", tm.TopicName, len(mt.Parts), len(seen), tm.TopicErrorCode)
				return nil
			}
		}
		if len(got) != len(names) {
			bad("metadata", "asked for %v, got %v", names, got)
			return nil
		}
		if len(r.Brokers) == 0 {
			bad("metadata", "no brokers")
		}
		for _, bi := range r.Brokers {
			if b := e.C.Broker(bi.NodeID); b == nil || b.Host != bi.Host || b.Port != bi.Port {
				bad("metadata", "broker %+v", *bi)
				return nil
			}
		}
	case 2, 3: // offsets
		part := int32(work(len(t.Parts)+1)) - 1
		tv := workPick[int64](-1, -2)
		rs, err := x.bs.RequestOffsets("sim", topic, part, tv, 1)
		if err != nil {
			return err
		}
		seen := map[int32]bool{}
		for _, r := range rs {
			for tn, ps := range sim.Sorted(r.TopicPartitionOffsets) {
				for i := range ps {
					p := e.C.Part(tn, ps[i].Partition)
					if tn != topic || p == nil || seen[p.ID] || part >= 0 && p.ID != part {
						bad("offsets", "asked for %s partition %d, got %s-%d", topic, part, tn, ps[i].Partition)
						return nil
					}
					seen[p.ID] = true
					want := p.Next
					if tv == -2 {
						want = p.LogStart
					}
					if got := ps[i].GetOffset(); got != want || ps[i].ErrorCode != 0 {
						bad("offsets", "%s-%d time %d: %d, got %d (error %d)", tn, p.ID, tv, want, got, ps[i].ErrorCode)
						return nil
					}
				}
			}
		}
		if want := len(t.Parts); part < 0 && len(seen) != want || part >= 0 && len(seen) != 1 {
			bad("offsets", "asked for partition %d of %d of %s, got %d", part, want, topic, len(seen))
		}
	case 4: // coordinator
		r, err := x.bs.FindCoordinator("sim", group)
		if err != nil {
			return err
		}
		b := e.C.Broker(r.Coordinator.NodeID)
		if b == nil || b.Host != r.Coordinator.Host || b.Port != r.Coordinator.Port || x.exact && b.ID != e.C.CoordOf(group) {
			bad("coordinator", "of %s is %d, got %+v", group, e.C.CoordOf(group), r.Coordinator)
		}
	case 5: // groups of one broker
		b, err := x.bs.GetBroker(id)
		if err != nil {
			return err
		}
		r, err := b.RequestListGroups("sim")
		if err != nil {
			return err
		}
		x.groups("groups of a broker", r, id)
	case 6: // committed offsets
		b, err := x.bs.GetBroker(e.C.CoordOf(group))
		if err != nil {
			return err
		}
		req := healer.NewOffsetFetchRequest(1, "sim", group)
		want := map[string]int64{}
		for _, p := range t.Parts {
			if work(2) == 0 || len(want) == 0 {
				req.AddPartiton(topic, p.ID)
				k := kafka.TP(topic, p.ID)
				off, ok := e.C.Groups[group].Offsets[k]
				if !ok {
					off = -1
				}
				want[k] = off
			}
		}
		resp, err := b.RequestAndGet(req)
		if err != nil {
			return err
		}
		r, ok := resp.(healer.OffsetFetchResponse)
		if !ok {
			bad("committed offsets", "answer of type %T", resp)
			return nil
		}
		n := 0
		for _, tp := range r.Topics {
			for _, p := range tp.Partitions {
				n++
				if o, ok := want[kafka.TP(tp.Topic, p.PartitionID)]; !ok || o != p.Offset || p.ErrorCode != 0 {
					bad("committed offsets", "group %s %v, got %s-%d = %d (error %d)", group, want, tp.Topic, p.PartitionID, p.Offset, p.ErrorCode)
					return nil
				}
			}
		}
		if n != len(want) {
			bad("committed offsets", "group %s: %v, got %d", group, want, n)
		}
	case 7: // any broker will do; the request travels from one to the next
		resp, err := x.bs.Request(healer.NewListGroupsRequest("sim"))
		if err != nil {
			return err
		}
		r, ok := resp.(*healer.ListGroupsResponse)
		if !ok {
			bad("groups of any broker", "answer of type %T", resp)
			return nil
		}
		x.groups("groups of any broker", r, -1)
	case 8: // a broker of its own
		b, err := x.bs.NewBroker(id)
		if err != nil {
			return err
		}
		r, err := b.RequestListGroups("sim")
		b.Close()
		if err != nil {
			return err
		}
		x.groups("groups of a broker", r, id)
	}
	return nil
}

// groups judges a list of groups of one broker (or of some broker).
func (x *caller) groups(what string, r *healer.ListGroupsResponse, id int32) {
	e := x.e
	got := map[string]bool{}
	for _, g := range r.Groups {
		mg := e.C.Groups[g.GroupID]
		if mg == nil || got[g.GroupID] || g.GroupState != "" && g.GroupState != mg.StateName() {
			e.Violate("B01", "a response does not answer the request", "%s: group %+v", what, *g)
			return
		}
		got[g.GroupID] = true
	}
	match := func(id int32) bool {
		for _, n := range e.C.GroupNames() {
			if (e.C.CoordOf(n) == id) != got[n] {
				return false
			}
		}
		return true
	}
	if !x.exact {
		return
	}
	ok := false
	for _, b := range e.C.Brokers {
		ok = ok || (id < 0 || id == b.ID) && match(b.ID)
	}
	if !ok {
		e.Violate("B01", "a response does not answer the request", "%s: broker %d, got %v", what, id, got)
	}
}

func sortedI(xs []int32) []int32 {
	ys := append([]int32(nil), xs...)
	sort.Slice(ys, func(i, j int) bool { return ys[i] < ys[j] })
	return ys
}

// open creates the connection layer, again and again while there are faults.
func (e *Env) open(owner string, bc *healer.BrokerConfig, prop string) *healer.Brokers {
	nb := int64(len(e.C.Brokers))
	for {
		var bs *healer.Brokers
		var err error
		t0 := now()
		if !CallIn(owner, "NewBrokersWithConfig", nb*slowest(bc)+5*SEC, func() { bs, err = healer.NewBrokersWithConfig(e.C.Bootstrap(), bc) }) {
			e.Violate("B02", "NewBrokersWithConfig does not return", "%v", sim.Alive(owner))
			return nil
		}
		if err == nil {
			return bs
		}
		if c := e.Net.OpenConns(owner); len(c) > 0 {
			e.Violate("B06", "a failed NewBrokersWithConfig leaves connections open", "%v: %s", err, conns(c))
		}
		if t0 > e.Until {
			e.Violate(prop, "the brokers cannot be reached though the cluster is healthy", "%v", err)
			return nil
		}
		sleep(int64(100+app(400)) * MS)
	}
}

// brokerCalls: concurrent requests through the connection layer.
// mode 0: healthy; 1: faults; 2: brokers restart with other versions; 3: closed while in use.
func brokerCalls(e *Env, mode int) {
	e.Setup(1 + cfg(4))
	e.facts()
	if cfgChance(1, 2) {
		for _, b := range e.C.Brokers {
			e.versions(b)
		}
	}
	bc := e.brokerConfig(true)
	workers := 1 + cfg(5)
	switch mode {
	case 1:
		e.Until = now() + int64(2+cfg(10))*SEC
		e.Perm = cfgPick(20, 100, 300)
		e.Chaos([]string{"crash", "crash-silent", "partition", "reset", "blackhole", "skew"}, cfg(5))
	case 2:
		e.Until = now() + int64(2+cfg(10))*SEC
		n := 1 + flt(3)
		for i := 0; i < n; i++ {
			at := int64(flt(1000)) * (e.Until - now()) / 1000
			sim.After(at, func() {
				b := e.pickBroker()
				if !b.Up {
					return
				}
				e.C.Crash(b.ID, false)
				sim.After(int64(5+flt(300))*MS, func() {
					if !b.Up {
						e.versions(b)
						e.C.Restart(b.ID)
					}
				})
			})
		}
	case 3:
		if cfgChance(1, 2) {
			e.Until = now() + int64(1+cfg(5))*SEC
			e.Perm = cfgPick(100, 300)
			e.Chaos([]string{"crash", "crash-silent", "partition", "reset", "blackhole"}, cfg(4))
		}
	}
	e.C.FailoverMS = 100000000
	bs := e.open(app1, bc, "B03")
	if bs == nil {
		return
	}
	nb := int64(len(e.C.Brokers))
	bound := int64(workers)*(2*nb+3)*(slowest(bc)+SEC) + 20*SEC
	stop, closed := false, false
	closedAt := int64(0)
	g := &Group{}
	calls, fails := 0, 0
	for w := 0; w < workers; w++ {
		x := &caller{e: e, bs: bs, owner: app1, exact: true}
		ops := 3 + cfg(12)
		g.Go(app1, fmt.Sprintf("caller%d", w), func() {
			for i := 0; i < ops && !stop; i++ {
				t0 := now()
				was := closed
				err := x.call()
				calls++
				d := now() - t0
				if d > bound {
					e.Violate("B02", "a request takes longer than its timeouts allow", "%s: %d ms, bound %d ms", x.last, d/MS, bound/MS)
				}
				if err != nil {
					fails++
				}
				if err == nil && was && !strings.HasPrefix(x.last, "call 8") {
					e.Violate("B06", "a request succeeds after the brokers were closed", "%s", x.last)
				}
				if err != nil && mode == 0 {
					e.Violate("B01", "a request fails on a healthy cluster", "%s: %v", x.last, err)
				}
				pause(cfgPick(0, 100, 500))
			}
		})
	}
	if mode == 3 {
		sleep(int64(app(3000)) * MS)
		if !CallIn(app1, "Close", bound, func() { bs.Close() }) {
			e.Violate("B06", "closing the brokers does not return", "%v", sim.Alive(app1))
			return
		}
		closed = true
		closedAt = now()
		if cfgChance(1, 2) {
			CallIn(app1, "Close again", bound, func() { bs.Close() })
		}
	}
	if !g.Wait(bound * 15) {
		e.Violate("B02", "a request does not return", "%v", sim.Alive(app1))
		e.Violate("B06", "a request does not return after the brokers were closed", "%v", sim.Alive(app1))
		return
	}
	_ = closedAt
	sim.Probe("calls")
	if mode == 3 {
		if b, err := bs.GetBroker(e.C.Brokers[0].ID); err == nil {
			e.Violate("B06", "closed brokers hand out a broker", "%v", b)
		}
		e.released("B06", "closing the brokers", true, true)
		return
	}
	if mode == 1 || mode == 2 {
		if now() < e.Until {
			sleep(e.Until - now())
		}
		e.HealAll()
		e.Perm = 0
		for _, b := range e.C.Brokers {
			b := b
			ok := false
			var err error
			for i := 0; i < 2 && !ok; i++ {
				if !CallIn(app1, "after the faults", bound, func() {
					var hb *healer.Broker
					if hb, err = bs.GetBroker(b.ID); err == nil {
						_, err = hb.RequestListGroups("sim")
					}
					ok = err == nil
				}) {
					e.Violate("B02|B03", "a request does not return after the faults", "%v", sim.Alive(app1))
					return
				}
			}
			if !ok {
				e.Violate("B03", "a broker stays unusable after the faults", "broker %d: %v", b.ID, err)
				return
			}
		}
		sim.Probe("recovered")
		x := &caller{e: e, bs: bs, owner: app1, exact: true}
		for i := 0; i < 6; i++ {
			var err error
			if !CallIn(app1, "after the faults", bound, func() { err = x.call() }) {
				e.Violate("B02|B03", "a request does not return after the faults", "%v", sim.Alive(app1))
				return
			}
			if err != nil {
				e.Violate("B03", "a request fails after every broker has recovered", "%s: %v", x.last, err)
				return
			}
		}
		// a broker that joins later is found
		if cfgChance(1, 3) {
			nbk := e.C.AddBroker(e.C.Brokers[len(e.C.Brokers)-1].ID + 5)
			var err error
			ok := CallIn(app1, "new broker", bound*2, func() {
				var hb *healer.Broker
				if hb, err = bs.GetBroker(nbk.ID); err == nil {
					_, err = hb.RequestListGroups("sim")
				}
			})
			if !ok || err != nil {
				e.Violate("B03", "a broker that joined later cannot be used", "returned %v, %v", ok, err)
				return
			}
		}
	}
	if !CallIn(app1, "Close", bound, func() { bs.Close() }) {
		e.Violate("B06", "closing the brokers does not return", "%v", sim.Alive(app1))
		return
	}
	e.released("B06", "closing the brokers", true, true)
}

// timeouts: one caller, one broker that does not answer; the configured
// timeouts bound every call tightly.
func timeouts(e *Env) {
	e.Setup(1)
	e.facts()
	bc := e.brokerConfig(true)
	bs := e.open(app1, bc, "B01")
	if bs == nil {
		return
	}
	b, err := bs.GetBroker(e.C.Brokers[0].ID)
	if err != nil {
		return
	}
	big := cfgChance(1, 2)
	for i := 0; i < 1+cfg(4); i++ {
		var req healer.Request
		var api int
		switch work(5) {
		case 0:
			req, api = healer.NewListGroupsRequest("sim"), 16
		case 1:
			req, api = healer.NewFindCoordinatorRequest("sim", "group-0"), 10
		case 2:
			req, api = healer.NewMetadataRequest("sim", []string{"topic-0"}), 3
		case 3:
			r := healer.NewOffsetFetchRequest(1, "sim", "group-0")
			r.AddPartiton("topic-0", 0)
			req, api = r, 9
		case 4:
			var names []string
			n := 1
			if big {
				n = 3000
			}
			for k := 0; k < n; k++ {
				names = append(names, fmt.Sprintf("some-long-group-name-%d", k))
			}
			req, api = healer.NewDescribeGroupsRequest("sim", names), 15
		}
		// what goes wrong, and when it gets right again
		kind := workPick("stall", "hold", "silent", "partition", "half", "drip", "none", "stall-connect")
		heal := int64(0)
		switch kind {
		case "stall":
			e.C.Fault = func(r *kafka.Req) kafka.Action { return kafka.Action{Kind: "stall"} }
		case "half":
			cut := flt(30)
			e.C.Fault = func(r *kafka.Req) kafka.Action { return kafka.Action{Kind: "half-stall", Cut: cut} }
		case "drip":
			e.C.Fault = func(r *kafka.Req) kafka.Action {
				return kafka.Action{Kind: "delay", Delay: timeoutOf(bc, int(r.API)) * int64(50+flt(100)) / 100}
			}
		case "hold":
			for _, c := range e.Net.OpenConns(app1) {
				c.Hold = true
			}
			sim.Fault("connection-blackhole")
		case "silent":
			e.C.Crash(e.C.Brokers[0].ID, true)
			heal = 1
		case "partition":
			e.Net.Cut("*", e.C.Brokers[0].Addr)
			heal = 2
		case "stall-connect":
			for _, c := range e.Net.OpenConns(app1) {
				c.Abort()
			}
			api0 := cfgPick[int16](18, 17, 36)
			e.C.Fault = func(r *kafka.Req) kafka.Action {
				if r.API == api0 {
					return kafka.Action{Kind: "stall"}
				}
				return kafka.Action{}
			}
		}
		bound := single(bc, api) + SEC
		if kind != "stall-connect" && len(e.Net.OpenConns(app1)) > 0 { // no connection has to be set up
			bound = 2*timeoutOf(bc, api) + SEC
		}
		t0 := now()
		var err error
		if !CallIn(app1, "request", bound+10*SEC, func() { _, err = b.RequestAndGet(req) }) {
			e.Violate("B02", "a request does not return within its timeouts", "api %d while %s: after %d ms: %v", api, kind, (now()-t0)/MS, sim.Alive(app1))
			return
		}
		if d := now() - t0; d > bound {
			e.Violate("B02", "a request takes longer than its timeouts allow", "api %d while %s: %d ms, bound %d ms (%v)", api, kind, d/MS, bound/MS, err)
			return
		}
		if err != nil {
			sim.Probe("timed-out-" + kind)
		}
		e.C.Fault = nil
		switch heal {
		case 1:
			e.C.Restart(e.C.Brokers[0].ID)
		case 2:
			e.Net.Heal("*", e.C.Brokers[0].Addr)
		}
		for k := 0; k < 2; k++ {
			_, err = b.RequestAndGet(healer.NewListGroupsRequest("sim"))
			if err == nil {
				break
			}
		}
		if err != nil {
			e.Violate("B03", "a broker stays unusable after the faults", "after %s: %v", kind, err)
			return
		}
	}
	CallIn(app1, "Close", 60*SEC, func() { bs.Close() })
	e.released("B06", "closing the brokers", true, true)
}

// auth: SASL with right and wrong credentials, rotated passwords, faults
// during the handshake.
func auth(e *Env) {
	e.Setup(1 + cfg(3))
	e.facts()
	e.C.SaslUser, e.C.SaslPass = "alice", "s3cret"
	e.C.SaslMechs = cfgPick([]string{"PLAIN"}, []string{"SCRAM-SHA-256", "PLAIN"}, []string{"PLAIN", "GSSAPI"})
	bc := e.brokerConfig(true)
	bc.Sasl = e.sasl()
	e.C.AuthDelayMS = cfgPick(0, 100, 1500)
	wrong := cfgPick("", "", "password", "user", "mechanism", "none", "unoffered", "empty")
	switch wrong {
	case "password":
		bc.Sasl.Password = "guess"
	case "user":
		bc.Sasl.User = "mallory"
	case "mechanism":
		bc.Sasl.Mechanism = "SCRAM-SHA-256"
	case "unoffered":
		e.C.SaslMechs = []string{"SCRAM-SHA-256", "GSSAPI"}
	case "empty":
		bc.Sasl.Password = ""
	case "none":
		bc.Sasl = healer.SaslConfig{}
	}
	faults := cfgChance(1, 2)
	if faults {
		e.Until = now() + int64(2+cfg(6))*SEC
		e.Perm = cfgPick(50, 300)
		e.Chaos([]string{"crash", "reset", "blackhole"}, cfg(3))
		if cfgChance(1, 2) {
			e.Only = func(r *kafka.Req) bool {
				return r.API == kafka.SaslHandshake || r.API == kafka.SaslAuthenticate || r.API == kafka.ApiVersions
			}
		}
	}
	// per connection: the order of authentication
	shook := map[int]bool{}
	e.C.OnDone = func(r *kafka.Req) {
		if r.API == kafka.SaslHandshake && r.Err == 0 {
			shook[r.Conn.ID] = true
		}
	}
	e.C.OnReq = func(r *kafka.Req) {
		if r.API == kafka.SaslAuthenticate && !shook[r.Conn.ID] {
			e.Violate("B04", "credentials are sent though the broker has not accepted the mechanism", "%s to broker %d", r.Owner, r.Broker.ID)
		}
	}
	nb := int64(len(e.C.Brokers))
	bound := 3*(2*nb+3)*(slowest(bc)+SEC) + 20*SEC
	good := wrong == ""
	if good || wrong != "none" {
		var bs *healer.Brokers
		var err error
		for {
			t0 := now()
			if !CallIn(app1, "NewBrokersWithConfig", bound, func() { bs, err = healer.NewBrokersWithConfig(e.C.Bootstrap(), bc) }) {
				e.Violate("B02", "NewBrokersWithConfig does not return", "%v", sim.Alive(app1))
				e.Violate("B04", "authentication does not end", "%v", sim.Alive(app1))
				return
			}
			if err == nil || !good || t0 > e.Until {
				break
			}
			sleep(200 * MS)
		}
		if !good {
			if err == nil {
				e.Violate("B04", "authentication that cannot succeed is reported as success", "wrong %s", wrong)
				return
			}
			if appChance(1, 3) {
				var hb *healer.Broker
				if !CallIn(app1, "NewBroker", bound, func() { hb, err = healer.NewBroker(e.C.Brokers[0].Addr, -1, bc) }) {
					e.Violate("B04", "authentication does not end", "%v", sim.Alive(app1))
					return
				}
				if err == nil {
					e.Violate("B04", "authentication that cannot succeed is reported as success", "NewBroker with wrong %s: %v", wrong, hb)
					return
				}
			}
			e.released("B04", "a failed authentication", true, true)
			sim.Probe("auth-refused-" + wrong)
			return
		}
		if err != nil {
			e.Violate("B04", "valid credentials are not accepted", "%v", err)
			return
		}
		rotated := false
		rot := cfgChance(1, 3)
		g := &Group{}
		for w := 0; w < 1+cfg(3); w++ {
			x := &caller{e: e, bs: bs, owner: app1}
			g.Go(app1, "caller", func() {
				for i := 0; i < 3+cfg(6); i++ {
					err := x.call()
					if err != nil && !faults && !rotated {
						e.Violate("B04", "a request of an authenticated client fails on a healthy cluster", "%s: %v", x.last, err)
					}
					pause(600)
					if !faults && fltChance(1, 6) {
						for _, c := range e.Net.OpenConns(app1) {
							if fltChance(1, 2) {
								c.Abort()
								sim.Fault("connection-reset")
							}
						}
						rotated = true // requests may fail from here on
					}
				}
			})
		}
		if !g.Wait(bound * 10) {
			e.Violate("B02", "a request does not return", "%v", sim.Alive(app1))
			e.Violate("B04", "a request does not return", "%v", sim.Alive(app1))
			return
		}
		if now() < e.Until {
			sleep(e.Until - now())
		}
		e.HealAll()
		e.Perm = 0
		// every broker is usable again, or refuses the rotated password
		if rot {
			e.C.SaslPass = "rotated"
			for _, c := range e.Net.OpenConns(app1) {
				c.Abort()
			}
			sleep(SEC)
		}
		for _, b := range e.C.Brokers {
			var err error
			for i := 0; i < 3; i++ {
				if !CallIn(app1, "after", bound, func() {
					var hb *healer.Broker
					if hb, err = bs.GetBroker(b.ID); err == nil {
						_, err = hb.RequestListGroups("sim")
					}
				}) {
					e.Violate("B04", "a request does not return", "%v", sim.Alive(app1))
					return
				}
				if err == nil {
					break
				}
			}
			if rot && err == nil {
				e.Violate("B04", "a request succeeds though authentication was refused", "broker %d", b.ID)
				return
			}
			if !rot && err != nil {
				e.Violate("B04", "a reconnected client is not authenticated again", "broker %d: %v", b.ID, err)
				return
			}
		}
		sim.Probe("auth-done")
		CallIn(app1, "Close", bound, func() { bs.Close() })
		e.released("B04", "closing the brokers", true, true)
		return
	}
	// no credentials: the brokers hang up on everything
	e.C.OnBad = nil
	if !CallIn(app1, "NewBrokersWithConfig", bound, func() {
		_, err := healer.NewBrokersWithConfig(e.C.Bootstrap(), bc)
		if err == nil {
			e.Violate("B04", "authentication that cannot succeed is reported as success", "no credentials")
		}
	}) {
		e.Violate("B02", "NewBrokersWithConfig does not return", "%v", sim.Alive(app1))
		return
	}
	e.released("B04", "a failed authentication", true, true)
}

// connect: reaching a cluster of which some bootstrap servers are down, wrong
// or virtual addresses.
func connect(e *Env) {
	e.Setup(2 + cfg(3))
	e.facts()
	bc := e.brokerConfig(true)
	var boot []string
	sick := map[int32]kafka.Action{}
	sickAPI := cfgPick[int16](kafka.ApiVersions, kafka.Metadata, kafka.Metadata)
	e.C.Fault = func(r *kafka.Req) kafka.Action {
		if a, ok := sick[r.Broker.ID]; ok && r.API == sickAPI {
			return a
		}
		return kafka.Action{}
	}
	alive := 0
	for _, b := range e.C.Brokers {
		switch cfg(6) {
		case 0:
			e.C.Crash(b.ID, false)
			boot = append(boot, b.Addr)
		case 1:
			e.C.Crash(b.ID, true)
			boot = append(boot, b.Addr)
		case 2:
			vip := fmt.Sprintf("vip-%d:9092", b.ID)
			e.C.Alias(vip, b)
			boot = append(boot, vip)
			alive++
		case 3:
			boot = append(boot, fmt.Sprintf("nowhere-%d:9092", b.ID))
		case 4: // takes connections and does not serve
			sick[b.ID] = cfgPick(kafka.Action{Kind: "close-before"}, kafka.Action{Kind: "rst-before"}, kafka.Action{Kind: "stall"}, kafka.Action{Kind: "half-stall", Cut: 6}, kafka.Action{Kind: "cut", Cut: 9})
			boot = append(boot, b.Addr)
		default:
			boot = append(boot, b.Addr)
			alive++
		}
	}
	for i := len(boot) - 1; i > 0; i-- {
		j := cfg(i + 1)
		boot[i], boot[j] = boot[j], boot[i]
	}
	sleep(2 * SEC)
	bound := int64(len(boot))*(slowest(bc)+SEC) + 2*SEC
	var bs *healer.Brokers
	var err error
	t0 := now()
	if !CallIn(app1, "NewBrokersWithConfig", bound+10*SEC, func() { bs, err = healer.NewBrokersWithConfig(strings.Join(boot, ","), bc) }) || now()-t0 > bound {
		e.Violate("B02", "connecting takes longer than its timeouts allow", "%d ms, bound %d ms: %v", (now()-t0)/MS, bound/MS, sim.Alive(app1))
		return
	}
	if err != nil {
		if alive > 0 {
			e.Violate("B03", "a cluster with a live bootstrap server cannot be reached", "%v: %v", boot, err)
			return
		}
		e.released("B06", "a failed NewBrokersWithConfig", true, true)
		sim.Probe("unreachable")
		return
	}
	if alive == 0 {
		e.Violate("B03", "connecting succeeds without any live bootstrap server", "%v", boot)
		return
	}
	// the live brokers can be used
	for _, b := range e.C.Brokers {
		if _, ok := sick[b.ID]; ok || !b.Up {
			continue
		}
		var err error
		if !CallIn(app1, "use", bound, func() {
			var hb *healer.Broker
			if hb, err = bs.GetBroker(b.ID); err == nil {
				_, err = hb.RequestListGroups("sim")
			}
		}) || err != nil {
			e.Violate("B03", "a live broker cannot be used", "broker %d: %v", b.ID, err)
			return
		}
	}
	var merr error
	if !CallIn(app1, "metadata", bound*2, func() { _, merr = bs.RequestMetaData("sim", e.C.TopicNames()[:1]) }) {
		e.Violate("B02", "a metadata request does not return", "%v", sim.Alive(app1))
		return
	}
	var ke healer.KafkaError
	if merr != nil && !errors.As(merr, &ke) { // partitions may have lost their leaders
		e.Violate("B03", "a request any broker can answer fails though a broker can be reached", "metadata: %v", merr)
		return
	}
	CallIn(app1, "Close", bound, func() { bs.Close() })
	e.released("B06", "closing the brokers", true, true)
}

// anyBroker: brokers fail while the connections are in use; the others answer
// what any broker can answer.
func anyBroker(e *Env) {
	e.Setup(2 + cfg(3))
	e.facts()
	e.C.FailoverMS = cfgPick(300, 100000000)
	bc := e.brokerConfig(true)
	if cfgChance(1, 2) { // through an address the metadata do not know
		for _, b := range e.C.Brokers {
			e.C.Alias(fmt.Sprintf("vip-%d:9092", b.ID), b)
		}
	}
	var boot []string
	for _, b := range e.C.Brokers {
		if len(b.Extra) > 0 {
			boot = append(boot, b.Extra[0])
		} else {
			boot = append(boot, b.Addr)
		}
	}
	bound := 4*int64(len(boot))*(slowest(bc)+SEC) + 20*SEC
	if cfgChance(1, 2) { // some are down when the client starts
		first := e.pickBroker()
		for _, b := range e.C.Brokers {
			if b != first && cfgChance(1, 2) {
				e.C.Crash(b.ID, cfgChance(1, 2))
			}
		}
		sleep(SEC)
	}
	var bs *healer.Brokers
	var err error
	if !CallIn(app1, "NewBrokersWithConfig", bound, func() { bs, err = healer.NewBrokersWithConfig(strings.Join(boot, ","), bc) }) || err != nil {
		e.Violate("B03", "a cluster with a live bootstrap server cannot be reached", "%v: %v", boot, err)
		return
	}
	gs := e.C.GroupNames()
	for round := 1 + cfg(4); round > 0; round-- {
		// all but at least one fail
		keep := e.pickBroker()
		for _, b := range e.C.Brokers {
			if b == keep {
				e.C.Restart(b.ID)
				e.Net.Heal("*", b.Addr)
				continue
			}
			switch flt(5) {
			case 0:
				e.C.Crash(b.ID, false)
			case 1:
				e.C.Crash(b.ID, true)
			case 2:
				e.Net.Cut("*", b.Addr)
			case 3:
				e.C.Restart(b.ID)
				e.Net.Heal("*", b.Addr)
			}
		}
		sleep(int64(flt(1500)) * MS)
		n := 1 + work(4)
		for i := 0; i < n; i++ {
			var what string
			var ke healer.KafkaError
			kind := work(4)
			try := func() {
				switch kind {
				case 0:
					what = "RequestMetaData"
					if _, err = bs.RequestMetaData("sim", e.C.TopicNames()[:1]); errors.As(err, &ke) {
						err = nil // a partition may have lost its leader
					}
				case 1:
					what = "FindCoordinator"
					g := gs[work(len(gs))]
					e.C.Coord[g] = keep.ID
					_, err = bs.FindCoordinator("sim", g)
				case 2:
					what = "Request(ListGroups)"
					_, err = bs.Request(healer.NewListGroupsRequest("sim"))
				case 3:
					what = "RequestMetaData of everything"
					if _, err = bs.RequestMetaData("sim", nil); errors.As(err, &ke) {
						err = nil
					}
				}
			}
			// the connection to the one that is left may have been lost before
			for k := 0; k < 2; k++ {
				if !CallIn(app1, "any", bound, try) {
					e.Violate("B02|B03", "a request does not return", "%s: %v", what, sim.Alive(app1))
					return
				}
				if err == nil {
					break
				}
			}
			if err != nil {
				e.Violate("B03", "a request any broker can answer fails though a broker can be reached", "%s: %v (broker %d is up)", what, err, keep.ID)
				return
			}
			sim.Probe("answered")
		}
	}
	e.HealAll()
	CallIn(app1, "Close", bound, func() { bs.Close() })
	e.released("B06", "closing the brokers", true, true)
}
