package kafka

import (
	"fmt"

	"github.com/childe/healer/zz_sim/sim"
)

func (b *Broker) handle(r *Req) {
	switch r.API {
	case ApiVersions:
		b.apiVersions(r)
	case SaslHandshake:
		b.saslHandshake(r)
	case SaslAuthenticate:
		b.saslAuth(r)
	case Metadata:
		b.metadata(r)
	case Produce:
		b.produce(r)
	case Fetch:
		b.fetch(r)
	case ListOffsets:
		b.listOffsets(r)
	case FindCoordinator:
		b.findCoordinator(r)
	case JoinGroup:
		b.joinGroup(r)
	case SyncGroup:
		b.syncGroup(r)
	case Heartbeat:
		b.heartbeat(r)
	case LeaveGroup:
		b.leaveGroup(r)
	case OffsetCommit:
		b.offsetCommit(r)
	case OffsetFetch:
		b.offsetFetch(r)
	default:
		b.admin(r)
	}
}

func (r *Req) injected() int16 {
	if r.Act.Kind == "error" {
		return r.Act.ErrCode
	}
	return 0
}

// whole is the injected error of a request with n items that concerns all of
// them; else it may concern some (item).
func (r *Req) whole(n int) int16 {
	if r.Act.Kind != "error" {
		return 0
	}
	if n > 1 && sim.Draw(sim.StreamFault, 3) > 0 {
		r.some = true
		return 0
	}
	return r.Act.ErrCode
}

// item is the injected error of one item.
func (r *Req) item() int16 {
	if r.some && sim.Draw(sim.StreamFault, 2) > 0 {
		return r.Act.ErrCode
	}
	return 0
}

func (b *Broker) apiVersions(r *Req) {
	w := r.w()
	w.I16(r.injected())
	vs := b.Vers()
	var keys []int16
	for k := int16(0); k < 70; k++ {
		if _, ok := vs[k]; ok {
			keys = append(keys, k)
		}
	}
	w.Arr(len(keys))
	for _, k := range keys {
		w.I16(k)
		w.I16(vs[k].Min)
		w.I16(vs[k].Max)
		w.Tags()
	}
	if r.Ver >= 1 {
		w.I32(0)
	}
	w.Tags()
	r.reply(w)
}

func (b *Broker) saslHandshake(r *Req) {
	mech := r.Body.Str()
	w := r.w()
	ok := false
	for _, m := range b.C.SaslMechs {
		if m == mech {
			ok = true
		}
	}
	code := int16(0)
	if !ok {
		code = 33
	} else {
		r.cs.mech = mech
	}
	if e := r.injected(); e != 0 {
		code = e
	}
	r.Err = code
	w.I16(code)
	w.Arr(len(b.C.SaslMechs))
	for _, m := range b.C.SaslMechs {
		w.Str(m)
	}
	r.reply(w)
}

func (b *Broker) saslAuth(r *Req) {
	tok := string(r.Body.Bytes())
	w := r.w()
	if r.cs.mech == "" {
		m := "no handshake"
		w.I16(34)
		w.NStr(&m)
		w.Bytes([]byte{})
		r.Err = 34
		r.reply(w)
		return
	}
	if tok == "\x00"+b.C.SaslUser+"\x00"+b.C.SaslPass && r.injected() == 0 {
		r.cs.authed = true
		w.I16(0)
		w.NStr(nil)
		w.Bytes([]byte{})
		r.reply(w)
		return
	}
	m := "Authentication failed: Invalid username or password"
	w.I16(58)
	w.NStr(&m)
	w.Bytes([]byte{})
	r.Err = 58
	r.reply(w)
	// connection.failed.authentication.delay.ms
	cs, conn := r.cs, r.Conn
	hang := func() {
		if !cs.dead {
			cs.dead = true
			conn.CloseByServer()
		}
	}
	if b.C.AuthDelayMS > 0 {
		sim.After(int64(b.C.AuthDelayMS)*1e6, hang)
	} else {
		hang()
	}
}

// view is the leader of a partition as this broker reports it.
func (b *Broker) view(p *Partition) (leader, epoch int32) {
	if s, ok := b.snap[fmt.Sprintf("%s/%d", p.Topic, p.ID)]; ok && sim.Now() < s.at {
		if s.leader < 0 || b.C.Broker(s.leader) != nil {
			return s.leader, s.epoch
		}
	}
	return p.Leader, p.Epoch
}

func (b *Broker) metadata(r *Req) {
	c := b.C
	n := r.Body.Arr()
	var names []string
	all := n < 0 || (r.Ver == 0 && n == 0)
	for i := 0; i < n; i++ {
		names = append(names, r.Body.Str())
	}
	if all {
		names = c.TopicNames()
	}
	if r.Ver >= 4 {
		r.Body.Bool()
	}
	w := r.w()
	if r.Ver >= 3 {
		w.I32(0)
	}
	var known []*Broker
	for _, x := range c.Brokers {
		if x.Known && (x.Up || x == b) {
			known = append(known, x)
		}
	}
	w.Arr(len(known))
	for _, x := range known {
		w.I32(x.ID)
		w.Str(x.Host)
		w.I32(x.Port)
		if r.Ver >= 1 {
			w.NStr(nil)
		}
	}
	if r.Ver >= 2 {
		w.NStr(c.ClusterID)
	}
	if r.Ver >= 1 {
		w.I32(c.Controller)
	}
	w.Arr(len(names))
	inj0 := r.whole(len(names))
	for _, nm := range names {
		t := c.topics[nm]
		inj := inj0
		if inj == 0 {
			inj = r.item()
		}
		if t == nil || inj != 0 || t.Err != 0 {
			code := int16(3)
			if t != nil {
				code = t.Err
			}
			if inj != 0 {
				code = inj
			}
			r.Err = code
			w.I16(code)
			w.Str(nm)
			if r.Ver >= 1 {
				w.Bool(false)
			}
			w.Arr(0)
			continue
		}
		w.I16(0)
		w.Str(nm)
		if r.Ver >= 1 {
			w.Bool(false)
		}
		w.Arr(len(t.Parts))
		for i := range t.Parts {
			p := t.Parts[(i+c.Rotate)%len(t.Parts)] // brokers list partitions in no particular order
			l, e := b.view(p)
			if l < 0 {
				w.I16(5)
			} else {
				w.I16(0)
			}
			w.I32(p.ID)
			w.I32(l)
			if r.Ver >= 7 {
				w.I32(e)
			}
			w.I32s(p.Replicas)
			w.I32s(p.ISR)
			if r.Ver >= 5 {
				var off []int32
				for _, id := range p.Replicas {
					if x := c.Broker(id); x == nil || !x.Up {
						off = append(off, id)
					}
				}
				w.I32s(off)
			}
		}
	}
	r.reply(w)
}

func (b *Broker) produce(r *Req) {
	q := r.Body
	if r.Ver >= 3 {
		q.NStr()
	}
	acks := q.I16()
	q.I32()
	type pr struct {
		id   int32
		code int16
		base int64
	}
	type tr struct {
		name string
		ps   []pr
	}
	var out []tr
	nt := q.Arr()
	for i := 0; i < nt; i++ {
		t := tr{name: q.Str()}
		np := q.Arr()
		for j := 0; j < np; j++ {
			id := q.I32()
			data := q.Bytes()
			q.Tags()
			res := pr{id: id, base: -1}
			p := b.C.part(t.name, id)
			switch {
			case r.injected() != 0:
				res.code = r.injected()
			case p == nil:
				res.code = 3
			case p.Leader != b.ID:
				res.code = 6
			default:
				bt, err := decodeBatch(data)
				if err != nil {
					b.bad(r, err.Error())
					res.code = 2
					break
				}
				deltas := make([]int64, len(bt.Recs))
				for k := range bt.Recs {
					deltas[k] = bt.Recs[k].Off
				}
				base := p.Next
				for k := range bt.Recs {
					if bt.Codec != 0 {
						bt.Recs[k].Off = base + int64(k) // the broker rebuilds compressed batches
					} else {
						bt.Recs[k].Off = base + deltas[k]
					}
				}
				n := int64(len(bt.Recs))
				bt.Base, bt.Last = base, base+n-1
				bt.Epoch = p.Epoch
				bt.encode()
				p.push(bt)
				res.base = base
				sim.Log("append %s-%d base=%d n=%d", t.name, id, base, n)
				if b.C.OnProduce != nil {
					b.C.OnProduce(p, bt, r)
				}
			}
			if res.code != 0 {
				r.Err = res.code
			}
			t.ps = append(t.ps, res)
		}
		q.Tags()
		out = append(out, t)
	}
	q.Tags()
	if acks == 0 {
		if r.Err != 0 { // as Kafka does: the producer learns of the failure by disconnection
			r.cs.dead = true
			r.Conn.CloseByServer()
			return
		}
		r.Replied = true
		r.done()
		return
	}
	w := r.w()
	w.Arr(len(out))
	for _, t := range out {
		w.Str(t.name)
		w.Arr(len(t.ps))
		for _, p := range t.ps {
			w.I32(p.id)
			w.I16(p.code)
			w.I64(p.base)
			if r.Ver >= 2 {
				w.I64(-1)
			}
			if r.Ver >= 5 {
				w.I64(0)
			}
			if r.Ver >= 8 {
				if p.code != 0 && sim.Draw(sim.StreamFault, 2) > 0 {
					n := sim.Draw(sim.StreamFault, 3)
					w.Arr(n)
					for i := 0; i < n; i++ {
						w.I32(int32(i))
						if i%2 == 0 {
							m := "rejected"
							w.NStr(&m)
						} else {
							w.NStr(nil)
						}
						w.Tags()
					}
					m := "a message about the failure"
					w.NStr(&m)
				} else {
					w.Arr(0)
					w.NStr(nil)
				}
			}
			w.Tags()
		}
		w.Tags()
	}
	if r.Ver >= 1 {
		w.I32(0)
	}
	w.Tags()
	r.reply(w)
}

// ---------------------------------------------------------------- fetch

type fetchWait struct {
	fire func()
}

func (p *Partition) notify() {
	ws := p.waiters
	p.waiters = nil
	for _, x := range ws {
		x.fire()
	}
}
func (p *Partition) wakeAll() { p.notify() }

func (b *Broker) fetch(r *Req) {
	q := r.Body
	q.I32() // replica
	wait := q.I32()
	minB := q.I32()
	maxB := int32(1 << 30)
	if r.Ver >= 3 {
		maxB = q.I32()
	}
	if r.Ver >= 4 {
		q.I8()
	}
	if r.Ver >= 7 {
		q.I32()
		q.I32()
	}
	type fp struct {
		topic string
		id    int32
		epoch int32
		off   int64
		max   int32
	}
	var ps []fp
	var order []string
	nt := q.Arr()
	for i := 0; i < nt; i++ {
		t := q.Str()
		order = append(order, t)
		np := q.Arr()
		for j := 0; j < np; j++ {
			x := fp{topic: t, epoch: -1}
			x.id = q.I32()
			if r.Ver >= 9 {
				x.epoch = q.I32()
			}
			x.off = q.I64()
			if r.Ver >= 5 {
				q.I64()
			}
			x.max = q.I32()
			ps = append(ps, x)
		}
	}
	if r.Ver >= 7 {
		nf := q.Arr()
		for i := 0; i < nf; i++ {
			q.Str()
			q.I32s()
		}
	}
	code := func(x fp) int16 {
		if e := r.injected(); e != 0 {
			return e
		}
		p := b.C.part(x.topic, x.id)
		switch {
		case p == nil:
			return 3
		case p.Leader != b.ID:
			return 6
		case x.epoch >= 0 && x.epoch < p.Epoch:
			return 74
		case x.epoch >= 0 && x.epoch > p.Epoch:
			return 76
		case x.off < p.LogStart || x.off > p.Next:
			return 1
		}
		return 0
	}
	send := func() {
		w := r.w()
		if r.Ver >= 1 {
			w.I32(0)
		}
		if r.Ver >= 7 {
			w.I16(0)
			w.I32(0)
		}
		w.Arr(len(order))
		for _, t := range order {
			w.Str(t)
			n := 0
			for _, x := range ps {
				if x.topic == t {
					n++
				}
			}
			w.Arr(n)
			for _, x := range ps {
				if x.topic != t {
					continue
				}
				e := code(x)
				w.I32(x.id)
				w.I16(e)
				var data []byte
				hw, ls := int64(-1), int64(-1)
				if e == 0 {
					p := b.C.part(x.topic, x.id)
					hw, ls = p.Next, p.LogStart
					m := x.max
					if maxB < m {
						m = maxB
					}
					data = p.read(x.off, int(m), r.Ver, b.C.TruncTail)
				} else {
					r.Err = e
				}
				w.I64(hw)
				if r.Ver >= 4 {
					w.I64(hw)
				}
				if r.Ver >= 5 {
					w.I64(ls)
				}
				if r.Ver >= 4 {
					w.I32(-1)
				}
				w.I32(int32(len(data)))
				w.b = append(w.b, data...)
			}
		}
		r.reply(w)
	}
	ready := func() bool {
		total := 0
		for _, x := range ps {
			if code(x) != 0 {
				return true
			}
			p := b.C.part(x.topic, x.id)
			total += len(p.read(x.off, int(x.max), r.Ver, false))
		}
		return total >= int(minB) || len(ps) == 0
	}
	if wait <= 0 || ready() {
		send()
		return
	}
	fired := false
	var arm func()
	fin := func() {
		if !fired {
			fired = true
			send()
		}
	}
	ev := sim.After(int64(wait)*1e6, fin)
	arm = func() {
		for _, x := range ps {
			if p := b.C.part(x.topic, x.id); p != nil {
				p.waiters = append(p.waiters, &fetchWait{fire: func() {
					if fired || r.cs.dead {
						return
					}
					if ready() {
						ev.Cancel()
						fin()
					} else {
						arm()
					}
				}})
			}
		}
	}
	arm()
}

// read returns the wire bytes a broker would return for a fetch at off.
func (p *Partition) read(off int64, max int, ver int16, trunc bool) []byte {
	var out []byte
	for _, b := range p.Batches {
		if b.Last < off {
			continue
		}
		wire := b.Wire
		if ver < 4 && b.Magic == 2 {
			// down-conversion; it leaves out the records below the fetch offset
			i := 0
			for i < len(b.Recs) && b.Recs[i].Off < off {
				i++
			}
			if b.Control || i == len(b.Recs) {
				continue
			}
			wire = encodeMessageSet(0, b.Codec, b.Recs[i:], false, 0)
		}
		if len(out) == 0 && ver >= 3 {
			out = append(out, wire...)
			if len(out) >= max {
				return out
			}
			continue
		}
		if len(out)+len(wire) > max {
			if trunc || ver < 3 {
				out = append(out, wire[:max-len(out)]...)
			}
			return out
		}
		out = append(out, wire...)
	}
	return out
}

func (b *Broker) listOffsets(r *Req) {
	q := r.Body
	q.I32()
	type res struct {
		id   int32
		code int16
		off  int64
	}
	nt := q.Arr()
	w := r.w()
	w.Arr(nt)
	for i := 0; i < nt; i++ {
		name := q.Str()
		np := q.Arr()
		w.Str(name)
		w.Arr(np)
		inj0 := r.whole(np)
		for j := 0; j < np; j++ {
			inj := inj0
			if inj == 0 {
				inj = r.item()
			}
			id := q.I32()
			ts := q.I64()
			if r.Ver == 0 {
				q.I32()
			}
			x := res{id: id, off: -1}
			p := b.C.part(name, id)
			switch {
			case inj != 0:
				x.code = inj
			case p == nil:
				x.code = 3
			case p.Leader != b.ID:
				x.code = 6
			case ts == -1:
				x.off = p.Next
			case ts == -2:
				x.off = p.LogStart
			default:
				for _, rec := range p.Records() {
					if rec.TS >= ts {
						x.off = rec.Off
						break
					}
				}
			}
			if x.code != 0 {
				r.Err = x.code
			}
			w.I32(id)
			w.I16(x.code)
			if r.Ver == 0 {
				if x.off < 0 {
					w.Arr(0)
				} else {
					w.Arr(1)
					w.I64(x.off)
				}
			} else {
				w.I64(-1)
				w.I64(x.off)
			}
		}
	}
	r.reply(w)
}
