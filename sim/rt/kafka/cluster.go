package kafka

import (
	"encoding/binary"
	"fmt"
	"sort"

	"github.com/childe/healer/zz_sim/sim"
	"github.com/childe/healer/zz_sim/vnet"
)

// API keys.
const (
	Produce                 = 0
	Fetch                   = 1
	ListOffsets             = 2
	Metadata                = 3
	OffsetCommit            = 8
	OffsetFetch             = 9
	FindCoordinator         = 10
	JoinGroup               = 11
	Heartbeat               = 12
	LeaveGroup              = 13
	SyncGroup               = 14
	DescribeGroups          = 15
	ListGroups              = 16
	SaslHandshake           = 17
	ApiVersions             = 18
	CreateTopics            = 19
	DeleteTopics            = 20
	DescribeAcls            = 29
	CreateAcls              = 30
	DeleteAcls              = 31
	DescribeConfigs         = 32
	AlterConfigs            = 33
	DescribeLogDirs         = 35
	SaslAuthenticate        = 36
	CreatePartitions        = 37
	DeleteGroups            = 42
	ElectLeaders            = 43
	IncrementalAlterConfigs = 44
	AlterReassign           = 45
	ListReassign            = 46
)

var apiNames = map[int16]string{0: "Produce", 1: "Fetch", 2: "ListOffsets", 3: "Metadata", 8: "OffsetCommit", 9: "OffsetFetch", 10: "FindCoordinator",
	11: "JoinGroup", 12: "Heartbeat", 13: "LeaveGroup", 14: "SyncGroup", 15: "DescribeGroups", 16: "ListGroups", 17: "SaslHandshake", 18: "ApiVersions",
	19: "CreateTopics", 20: "DeleteTopics", 29: "DescribeAcls", 30: "CreateAcls", 31: "DeleteAcls", 32: "DescribeConfigs", 33: "AlterConfigs",
	35: "DescribeLogDirs", 36: "SaslAuthenticate", 37: "CreatePartitions", 42: "DeleteGroups", 43: "ElectLeaders", 44: "IncrementalAlterConfigs",
	45: "AlterPartitionReassignments", 46: "ListPartitionReassignments"}

// APIName names an API key.
func APIName(k int16) string {
	if n, ok := apiNames[k]; ok {
		return n
	}
	return fmt.Sprint("api", k)
}

// VRange is an advertised version range.
type VRange struct{ Min, Max int16 }

// DefaultVersions is what a recent 3.x broker advertises.
func DefaultVersions() map[int16]VRange {
	return map[int16]VRange{0: {0, 9}, 1: {0, 13}, 2: {0, 8}, 3: {0, 12}, 8: {0, 8}, 9: {0, 8}, 10: {0, 4}, 11: {0, 9}, 12: {0, 4}, 13: {0, 5}, 14: {0, 5},
		15: {0, 5}, 16: {0, 5}, 17: {0, 1}, 18: {0, 3}, 19: {0, 7}, 20: {0, 6}, 29: {0, 3}, 30: {0, 3}, 31: {0, 3}, 32: {0, 4}, 33: {0, 2}, 35: {0, 4},
		36: {0, 2}, 37: {0, 3}, 42: {0, 2}, 43: {0, 2}, 44: {0, 1}, 45: {0, 0}, 46: {0, 0}}
}

// Action is what happens to one request besides being served.
type Action struct {
	Kind    string // "", close-before, rst-before, process-close, process-rst, stall, stall-before, delay, cut, error
	Delay   int64  // ns
	Cut     int    // bytes of the response that still arrive
	ErrCode int16
}

// Req is one request seen by a broker.
type Req struct {
	Seq     uint64
	At      int64
	Owner   string
	Broker  *Broker
	Conn    *vnet.Conn
	API     int16
	Ver     int16
	Corr    int32
	Client  string
	Body    *R
	Fault   string
	Act     Action
	some    bool // the injected error concerns some items only
	Served  bool // the broker executed it
	Replied bool // a complete response was sent
	Err     int16
	Note    string
	cs      *connState
	flex    bool
}

type connState struct {
	buf    []byte
	queue  [][]byte
	busy   bool
	conn   *vnet.Conn
	authed bool
	mech   string
	dead   bool
	cur    *Req
	next   []byte // being served
}

// Partition is a replicated log; the model keeps the one committed copy.
type Partition struct {
	Topic    string
	ID       int32
	Leader   int32
	Epoch    int32
	Replicas []int32
	ISR      []int32
	Target   []int32 // reassignment target
	Batches  []*Batch
	LogStart int64
	Next     int64
	waiters  []*fetchWait
	Size     int64
}

// Topic is a set of partitions.
type Topic struct {
	Name  string
	Err   int16 // error to report in metadata
	Parts []*Partition
}

// ACL is one access control entry.
type ACL struct {
	RType           int8
	RName           string
	Pattern         int8
	Principal, Host string
	Op, Perm        int8
}

// Cluster is the model.
type Cluster struct {
	Net        *vnet.Net
	Brokers    []*Broker
	topics     map[string]*Topic
	names      []string
	Groups     map[string]*Group
	gnames     []string
	Coord      map[string]int32
	Controller int32
	ClusterID  *string
	Versions   map[int16]VRange
	NewTags    bool // responses carry tagged fields the client does not know
	tagN       uint32
	Configs    map[string]map[string]string
	ACLs       []ACL

	SaslUser, SaslPass string // authentication required if user is set
	SaslMechs          []string

	ServeUS      int // service time
	FailoverMS   int
	InitialDelay int // group.initial.rebalance.delay.ms
	HBCompleting bool
	MetaLagMS    int
	TruncTail    bool // fetch responses may end in a partial batch
	AutoUp       bool
	AuthDelayMS  int // how long a connection stays open after a refused authentication
	Rotate       int // order in which metadata lists partitions

	Fault         func(r *Req) Action
	OnReq         func(r *Req) // before serving
	OnDone        func(r *Req) // after serving
	OnProduce     func(p *Partition, b *Batch, r *Req)
	OnCommit      func(g *Group, m *Member, topic string, part int32, off int64, r *Req)
	OnFetchOffset func(g string, topic string, part int32, off int64, r *Req)
	OnGen         func(g *Group)
	OnSync        func(g *Group, m *Member, assign []byte)
	OnBad         func(r *Req, what string)

	Hist      []*Req
	memberSeq int
}

// Broker is one node.
type Broker struct {
	C     *Cluster
	ID    int32
	Host  string
	Port  int32
	Addr  string
	H     *vnet.Host
	Up    bool
	Lost  bool // never comes back
	snap  map[string]metaSnap
	Known bool // listed in metadata
	Extra []string
	vers  map[int16]VRange
}

type metaSnap struct {
	leader, epoch int32
	at            int64
}

// New makes a cluster of n brokers on the network.
func New(net *vnet.Net, n int) *Cluster { return NewWith(net, n, 1, 1) }

// NewWith is New with chosen node ids.
func NewWith(net *vnet.Net, n, first, step int) *Cluster {
	c := &Cluster{Net: net, topics: map[string]*Topic{}, Groups: map[string]*Group{}, Coord: map[string]int32{}, Versions: DefaultVersions(),
		Configs: map[string]map[string]string{}, ServeUS: 200, FailoverMS: 300, SaslMechs: []string{"PLAIN"}}
	id := "sim-cluster-0123456789"
	c.ClusterID = &id
	for i := 0; i < n; i++ {
		c.AddBroker(int32(first + i*step))
	}
	c.Controller = int32(first)
	return c
}

// AddBroker adds a node.
func (c *Cluster) AddBroker(id int32) *Broker {
	b := &Broker{C: c, ID: id, Host: fmt.Sprintf("kafka-%d", id), Port: 9092, Up: true, Known: true}
	b.Addr = fmt.Sprintf("%s:%d", b.Host, b.Port)
	b.H = c.Net.AddHost(b.Addr, b)
	c.Brokers = append(c.Brokers, b)
	return b
}

// Alias makes a further address (a VIP) lead to the broker.
func (c *Cluster) Alias(addr string, b *Broker) {
	c.Net.AddHost(addr, b)
	b.Extra = append(b.Extra, addr)
}

// Bootstrap lists every broker address.
func (c *Cluster) Bootstrap() string {
	s := ""
	for i, b := range c.Brokers {
		if i > 0 {
			s += ","
		}
		s += b.Addr
	}
	return s
}

// Broker returns a node by id.
func (c *Cluster) Broker(id int32) *Broker {
	for _, b := range c.Brokers {
		if b.ID == id {
			return b
		}
	}
	return nil
}

// AddTopic creates a topic whose leaders are spread over the brokers.
func (c *Cluster) AddTopic(name string, parts int) *Topic {
	t := &Topic{Name: name}
	for i := 0; i < parts; i++ {
		c.addPartition(t, nil)
	}
	c.topics[name] = t
	c.names = append(c.names, name)
	sort.Strings(c.names)
	return t
}

func (c *Cluster) addPartition(t *Topic, replicas []int32) *Partition {
	i := len(t.Parts)
	if len(replicas) == 0 {
		replicas = c.Placement(t.Name, int32(i))
	}
	p := &Partition{Topic: t.Name, ID: int32(i), Replicas: replicas, ISR: append([]int32(nil), replicas...), Leader: replicas[0], Epoch: 0}
	if b := c.Broker(p.Leader); b == nil || !b.Up {
		p.Leader = -1
		c.elect(p)
	}
	t.Parts = append(t.Parts, p)
	return p
}

// Placement is where a new partition goes when nobody says where.
func (c *Cluster) Placement(topic string, part int32) []int32 {
	rf, off := 2, 0
	if rf > len(c.Brokers) {
		rf = len(c.Brokers)
	}
	for _, ch := range topic {
		off += int(ch)
	}
	var replicas []int32
	for k := 0; k < rf; k++ {
		replicas = append(replicas, c.Brokers[(off+int(part)+k)%len(c.Brokers)].ID)
	}
	return replicas
}

// Topic finds a topic.
func (c *Cluster) Topic(name string) *Topic { return c.topics[name] }

// TopicNames lists topics in order.
func (c *Cluster) TopicNames() []string { return append([]string(nil), c.names...) }

func (c *Cluster) part(topic string, id int32) *Partition {
	t := c.topics[topic]
	if t == nil || id < 0 || int(id) >= len(t.Parts) {
		return nil
	}
	return t.Parts[id]
}

// Part finds a partition.
func (c *Cluster) Part(topic string, id int32) *Partition { return c.part(topic, id) }

// Append stores records as one batch written by somebody else.
func (p *Partition) Append(magic, codec int, recs []Rec, ts int64) *Batch {
	b := &Batch{Base: p.Next, Epoch: p.Epoch, Codec: codec, Magic: magic, BaseTS: ts, MaxTS: ts, Recs: recs}
	for i := range b.Recs {
		b.Recs[i].Off = p.Next + int64(i)
		if b.Recs[i].TS == 0 {
			b.Recs[i].TS = ts
		}
		if b.Recs[i].TS > b.MaxTS {
			b.MaxTS = b.Recs[i].TS
		}
	}
	b.Last = p.Next + int64(len(recs)) - 1
	b.encode()
	p.push(b)
	return b
}

// AppendAs is Append for batches written in a transaction, or to a topic that
// uses the time of the append as the timestamp of its records. The records of
// the batch returned have the timestamps a consumer is to see.
func (p *Partition) AppendAs(magic, codec int, recs []Rec, ts int64, txn, logTime bool) *Batch {
	b := &Batch{Base: p.Next, Epoch: p.Epoch, Codec: codec, Magic: magic, BaseTS: ts, MaxTS: ts, Recs: recs, Txn: txn, LogTime: logTime}
	for i := range b.Recs {
		b.Recs[i].Off = p.Next + int64(i)
		if !logTime && b.Recs[i].TS > b.MaxTS {
			b.MaxTS = b.Recs[i].TS
		}
	}
	b.Last = p.Next + int64(len(recs)) - 1
	b.encode()
	p.push(b)
	if !logTime {
		return b
	}
	seen := *b
	seen.Recs = append([]Rec(nil), recs...)
	for i := range seen.Recs {
		seen.Recs[i].TS = ts
	}
	return &seen
}

// Compact removes the records for which drop returns true, keeping the batch
// and its offset range as log compaction does; emptied batches may remain.
func (p *Partition) Compact(drop func(r Rec) bool, keepEmpty bool) {
	var out []*Batch
	for _, b := range p.Batches {
		var keep []Rec
		for _, r := range b.Recs {
			if !drop(r) {
				keep = append(keep, r)
			}
		}
		if len(keep) == len(b.Recs) {
			out = append(out, b)
			continue
		}
		if len(keep) == 0 && (!keepEmpty || b.Magic < 2) {
			continue
		}
		nb := *b
		nb.Recs = keep
		if nb.Magic < 2 {
			nb.Last = keep[len(keep)-1].Off
		}
		nb.encode()
		out = append(out, &nb)
	}
	p.Batches = out
}

// Control appends a transaction marker.
func (p *Partition) Control() {
	b := &Batch{Base: p.Next, Last: p.Next, Epoch: p.Epoch, Magic: 2, Control: true, Txn: true, Recs: []Rec{{Off: p.Next, Key: []byte{0, 0, 0, 1}, Val: []byte{0, 0, 0, 0, 0, 0}}}}
	b.encode()
	p.push(b)
}

func (p *Partition) push(b *Batch) {
	p.Batches = append(p.Batches, b)
	p.Next = b.Last + 1
	p.Size += int64(len(b.Wire))
	p.notify()
}

// Retain moves the log start forward and drops whole batches before it.
func (p *Partition) Retain(start int64) {
	if start > p.Next {
		start = p.Next
	}
	if start > p.LogStart {
		p.LogStart = start
	}
	for len(p.Batches) > 0 && p.Batches[0].Last < p.LogStart {
		p.Batches = p.Batches[1:]
	}
}

// Records lists live data records at or after the log start.
func (p *Partition) Records() []Rec {
	var out []Rec
	for _, b := range p.Batches {
		if b.Control {
			continue
		}
		for _, r := range b.Recs {
			if r.Off >= p.LogStart {
				out = append(out, r)
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- brokers going up and down

func (c *Cluster) elect(p *Partition) {
	for _, id := range p.ISR {
		if b := c.Broker(id); b != nil && b.Up {
			p.Leader = id
			p.Epoch++
			p.wakeAll()
			return
		}
	}
	if p.Leader != -1 {
		p.Leader = -1
		p.Epoch++
		p.wakeAll()
	}
}

// MoveLeader gives leadership to another live replica.
func (c *Cluster) MoveLeader(p *Partition) bool {
	n := len(p.ISR)
	k := sim.Draw(sim.StreamFault, n)
	for i := 0; i < n; i++ {
		id := p.ISR[(k+i)%n]
		if b := c.Broker(id); id != p.Leader && b != nil && b.Up {
			c.lag(p)
			sim.Log("leader of %s-%d moves %d -> %d", p.Topic, p.ID, p.Leader, id)
			p.Leader = id
			p.Epoch++
			sim.Fault("leader-change")
			p.wakeAll()
			return true
		}
	}
	return false
}

// Vacate takes the leader away for a while, as when its replicas are down.
func (c *Cluster) Vacate(p *Partition, dur int64) {
	if p.Leader == -1 {
		return
	}
	sim.Log("%s-%d has no leader", p.Topic, p.ID)
	sim.Fault("no-leader")
	p.Leader = -1
	p.Epoch++
	p.wakeAll()
	sim.After(dur, func() {
		if p.Leader == -1 {
			c.elect(p)
		}
	})
}

// lag lets every broker report the old leader for a while.
func (c *Cluster) lag(p *Partition) {
	if c.MetaLagMS <= 0 {
		return
	}
	for _, b := range c.Brokers {
		if b.snap == nil {
			b.snap = map[string]metaSnap{}
		}
		b.snap[fmt.Sprintf("%s/%d", p.Topic, p.ID)] = metaSnap{p.Leader, p.Epoch, sim.Now() + int64(sim.Draw(sim.StreamFault, c.MetaLagMS+1))*1e6}
	}
}

// Crash takes a broker down; leadership and coordination move after a delay.
func (c *Cluster) Crash(id int32, silent bool) {
	b := c.Broker(id)
	if !b.Up {
		return
	}
	b.Up = false
	kind := "broker-crash"
	mode := vnet.Refuse
	if silent {
		kind = "broker-crash-silent"
		mode = vnet.Silent
	}
	sim.Fault(kind)
	c.Net.Crash(b.Addr, mode, silent)
	for _, a := range b.Extra {
		c.Net.Crash(a, mode, silent)
	}
	for _, n := range c.gnames {
		if c.CoordOf(n) == id {
			c.Groups[n].dropPending()
		}
	}
	sim.After(int64(c.FailoverMS)*1e6, func() {
		if b.Up {
			return
		}
		for _, n := range c.names {
			for _, p := range c.topics[n].Parts {
				if p.Leader == id {
					c.elect(p)
				}
			}
		}
		if c.Controller == id {
			for _, x := range c.Brokers {
				if x.Up {
					c.Controller = x.ID
					break
				}
			}
		}
		c.moveCoords(id)
	})
}

// Lose takes a broker away for good, if the others have all of its data.
func (c *Cluster) Lose(id int32, silent bool) bool {
	for _, b := range c.Brokers {
		if b.Lost {
			return false
		}
	}
	if len(c.Brokers) < 2 {
		return false
	}
	for _, n := range c.names {
		for _, p := range c.topics[n].Parts {
			for _, x := range p.ISR {
				if x == id && len(p.ISR) < 2 {
					return false
				}
			}
		}
	}
	b := c.Broker(id)
	if !b.Up {
		return false
	}
	sim.Fault("broker-loss")
	c.Crash(id, silent)
	b.Lost = true
	return true
}

// Restart brings a broker back.
func (c *Cluster) Restart(id int32) {
	b := c.Broker(id)
	if b.Up || b.Lost {
		return
	}
	b.Up = true
	sim.Log("broker %d restarts", id)
	c.Net.Restart(b.Addr)
	for _, a := range b.Extra {
		c.Net.Restart(a)
	}
	for _, n := range c.names {
		for _, p := range c.topics[n].Parts {
			if p.Leader == -1 {
				c.elect(p)
			}
		}
	}
	// what only the lost broker did has a new owner now
	if x := c.Broker(c.Controller); x != nil && x.Lost {
		c.Controller = id
	}
	for _, x := range c.Brokers {
		if x.Lost {
			c.moveCoords(x.ID)
		}
	}
}

// moveCoords gives the groups of a broker to others.
func (c *Cluster) moveCoords(id int32) {
	for _, n := range c.gnames {
		c.CoordOf(n)
	}
	var ns []string
	for n, x := range c.Coord {
		if x == id {
			ns = append(ns, n)
		}
	}
	sort.Strings(ns)
	for _, n := range ns {
		c.MoveCoord(n)
	}
}

// CoordOf is the coordinator of a group.
func (c *Cluster) CoordOf(group string) int32 {
	if id, ok := c.Coord[group]; ok {
		return id
	}
	h := 0
	for _, ch := range group {
		h = h*31 + int(ch)
	}
	if h < 0 {
		h = -h
	}
	k := h % len(c.Brokers)
	if c.Brokers[k].Lost {
		k = (k + 1) % len(c.Brokers)
	}
	id := c.Brokers[k].ID
	c.Coord[group] = id
	return id
}

// MoveCoord moves a group to another live broker.
func (c *Cluster) MoveCoord(group string) {
	old := c.CoordOf(group)
	var cand []int32
	for _, b := range c.Brokers {
		if b.Up && b.ID != old {
			cand = append(cand, b.ID)
		}
	}
	if len(cand) == 0 {
		return
	}
	c.Coord[group] = cand[sim.Draw(sim.StreamFault, len(cand))]
	sim.Fault("coordinator-move")
	if g := c.Groups[group]; g != nil {
		g.moved()
	}
}

// ---------------------------------------------------------------- server side of connections

// Accept implements vnet.Handler.
func (b *Broker) Accept(c *vnet.Conn) { c.S = &connState{conn: c, authed: b.C.SaslUser == ""} }

// Closed implements vnet.Handler.
func (b *Broker) Closed(c *vnet.Conn) {
	if cs, ok := c.S.(*connState); ok && !cs.dead {
		cs.dead = true
		if !c.IsClosed() || !b.Up {
			return
		}
		// the client hung up in order: what it sent without expecting an answer still counts
		q := cs.queue
		if cs.next != nil {
			q = append([][]byte{cs.next}, q...)
		}
		cs.next, cs.queue = nil, nil
		for _, p := range q {
			if noAck(p) {
				b.serve(cs, p)
			}
		}
	}
}

// noAck recognises a produce request with acks=0.
func noAck(p []byte) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	r := &R{b: p}
	api, ver := r.I16(), r.I16()
	r.I32()
	r.NStr()
	if isFlex(api, ver) {
		r.flex = true
		r.Tags()
	}
	if api == Produce && ver >= 3 {
		r.NStr()
	}
	return api == Produce && r.I16() == 0
}

// Data implements vnet.Handler.
func (b *Broker) Data(c *vnet.Conn, p []byte) {
	cs := c.S.(*connState)
	if cs.dead {
		return
	}
	cs.buf = append(cs.buf, p...)
	for len(cs.buf) >= 4 {
		n := int(int32(binary.BigEndian.Uint32(cs.buf)))
		if n < 8 || n > 64<<20 {
			b.bad(&Req{Broker: b, Conn: c, Owner: c.Owner}, fmt.Sprintf("request length %d", n))
			cs.dead = true
			c.CloseByServer()
			return
		}
		if len(cs.buf) < 4+n {
			return
		}
		cs.queue = append(cs.queue, append([]byte(nil), cs.buf[4:4+n]...))
		cs.buf = cs.buf[4+n:]
		b.pump(cs)
	}
}

func (b *Broker) bad(r *Req, what string) {
	sim.Log("bad request owner=%s %s v%d: %s", r.Owner, APIName(r.API), r.Ver, what)
	r.Note = what
	if b.C.OnBad != nil {
		b.C.OnBad(r, what)
	}
}

func (b *Broker) pump(cs *connState) {
	if cs.busy || cs.dead || len(cs.queue) == 0 {
		return
	}
	p := cs.queue[0]
	cs.queue = cs.queue[1:]
	cs.busy = true
	cs.next = p
	d := int64(b.C.ServeUS) * 1000
	sim.After(d, func() {
		if cs.dead || !b.Up {
			return
		}
		cs.next = nil
		b.serve(cs, p)
	})
}

func (b *Broker) serve(cs *connState, p []byte) {
	r := &Req{At: sim.Now(), Owner: cs.conn.Owner, Broker: b, Conn: cs.conn, cs: cs, Seq: sim.Seq()}
	cs.cur = r
	drop := func(what string) {
		b.bad(r, what)
		cs.dead = true
		cs.conn.CloseByServer()
	}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(parseError); ok {
				drop("malformed request")
				return
			}
			panic(e)
		}
	}()
	body := &R{b: p}
	r.API = body.I16()
	r.Ver = body.I16()
	r.Corr = body.I32()
	if cl := body.NStr(); cl != nil {
		r.Client = *cl
	}
	if isFlex(r.API, r.Ver) {
		body.flex = true
		body.Tags()
		r.flex = true
	}
	r.Body = body
	b.C.Hist = append(b.C.Hist, r)
	sim.Log("req b%d conn=%d %s %s v%d corr=%d", b.ID, cs.conn.ID, r.Owner, APIName(r.API), r.Ver, r.Corr)
	if b.C.OnReq != nil {
		b.C.OnReq(r)
	}
	vr, ok := b.Vers()[r.API]
	if !ok || r.Ver < vr.Min || r.Ver > vr.Max {
		drop(fmt.Sprintf("version %d of %s is not offered by the broker", r.Ver, APIName(r.API)))
		return
	}
	if !cs.authed && r.API != ApiVersions && r.API != SaslHandshake && r.API != SaslAuthenticate {
		drop("request on an unauthenticated connection")
		return
	}
	if b.C.Fault != nil {
		r.Act = b.C.Fault(r)
		r.Fault = r.Act.Kind
		if r.Fault != "" {
			sim.Fault("req-" + r.Fault)
		}
		switch r.Act.Kind {
		case "close-before":
			cs.dead = true
			cs.conn.CloseByServer()
			return
		case "rst-before":
			cs.dead = true
			cs.conn.ResetByServer()
			return
		case "stall-before":
			return
		}
	}
	b.handle(r)
	r.Served = true
	if b.C.OnDone != nil {
		b.C.OnDone(r)
	}
}

// Vers is what this broker advertises.
func (b *Broker) Vers() map[int16]VRange {
	if b.vers != nil {
		return b.vers
	}
	return b.C.Versions
}

// SetVersion narrows the range of one API on this broker.
func (b *Broker) SetVersion(api int16, v VRange) {
	if b.vers == nil {
		b.vers = map[int16]VRange{}
		for k, x := range b.C.Versions {
			b.vers[k] = x
		}
	}
	b.vers[api] = v
}

func (r *Req) w() *W { return &W{flex: r.flex, c: r.Broker.C} }

// reply sends the response body, subject to the fault chosen for the request.
func (r *Req) reply(w *W) {
	cs := r.cs
	if cs.dead || cs.cur != r {
		return
	}
	h := &W{flex: r.flex, c: r.Broker.C}
	h.I32(r.Corr)
	if r.API != ApiVersions {
		h.Tags()
	}
	body := append(h.b, w.b...)
	out := binary.BigEndian.AppendUint32(nil, uint32(len(body)))
	out = append(out, body...)
	c := cs.conn
	switch r.Act.Kind {
	case "process-close":
		cs.dead = true
		c.CloseByServer()
		return
	case "process-rst":
		cs.dead = true
		c.ResetByServer()
		return
	case "stall":
		return
	case "cut", "cut-rst":
		n := r.Act.Cut % len(out)
		c.Send(out[:n], 0)
		cs.dead = true
		if r.Act.Kind == "cut" {
			c.CloseByServer()
		} else {
			c.ResetByServer()
		}
		return
	case "delay":
		sim.After(r.Act.Delay, func() {
			if cs.dead {
				return
			}
			r.Replied = true
			c.Send(out, 0)
			r.done()
		})
		return
	case "half-stall":
		n := r.Act.Cut % len(out)
		c.Send(out[:n], 0)
		return
	}
	r.Replied = true
	c.Send(out, 0)
	r.done()
}

func (r *Req) done() {
	cs := r.cs
	cs.busy = false
	cs.cur = nil
	r.Broker.pump(cs)
}
