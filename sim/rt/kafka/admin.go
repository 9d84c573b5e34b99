package kafka

import (
	"fmt"
	"sort"
	"strings"

	"github.com/childe/healer/zz_sim/sim"
)

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Applied is appended to the history note for every state change.
func (r *Req) applied(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	if r.Note != "" {
		r.Note += ";"
	}
	r.Note += s
	sim.Log("applied %s", s)
}

func (b *Broker) notController(r *Req, n int) int16 {
	if e := r.whole(n); e != 0 {
		return e
	}
	if b.C.Controller != b.ID {
		return 41
	}
	return 0
}

// or is the error of an item, where code is the one of the whole request.
func (r *Req) or(code int16) int16 {
	if code != 0 {
		return code
	}
	return r.item()
}

func msgFor(code int16) *string {
	if code == 0 {
		return nil
	}
	if code%2 == 0 {
		return nil // brokers may omit the message
	}
	s := fmt.Sprintf("broker says %d", code)
	return &s
}

// InvalidTopic is how the model rejects names.
func InvalidTopic(n string) bool {
	return n == "" || strings.ContainsAny(n, " /\\:") || len(n) > 249
}

func (b *Broker) admin(r *Req) {
	c := b.C
	q := r.Body
	w := r.w()
	switch r.API {
	case CreateTopics:
		type ct struct {
			name string
			n    int32
			rf   int16
			as   map[int32][]int32
			cfg  map[string]string
		}
		n := q.Arr()
		var ts []ct
		for i := 0; i < n; i++ {
			t := ct{name: q.Str(), n: q.I32(), rf: q.I16(), as: map[int32][]int32{}, cfg: map[string]string{}}
			na := q.Arr()
			for j := 0; j < na; j++ {
				p := q.I32()
				t.as[p] = q.I32s()
			}
			nc := q.Arr()
			for j := 0; j < nc; j++ {
				k := q.Str()
				v := q.NStr()
				if v != nil {
					t.cfg[k] = *v
				}
			}
			ts = append(ts, t)
		}
		q.I32()
		nc := b.notController(r, len(ts))
		w.Arr(len(ts))
		for _, t := range ts {
			code := r.or(nc)
			switch {
			case code != 0:
			case InvalidTopic(t.name):
				code = 17
			case c.topics[t.name] != nil:
				code = 36
			case len(t.as) > 0 && (t.n != -1 || t.rf != -1):
				code = 42
			case len(t.as) > 0:
				for i := 0; i < len(t.as); i++ {
					seen := map[int32]bool{}
					for _, id := range t.as[int32(i)] {
						if c.Broker(id) == nil || seen[id] {
							code = 39
						}
						seen[id] = true
					}
					if len(seen) == 0 || len(seen) != len(t.as[0]) {
						code = 39
					}
				}
			case t.n <= 0 && len(t.as) == 0:
				code = 37
			case int(t.rf) > len(c.Brokers) || t.rf <= 0 && len(t.as) == 0:
				code = 38
			}
			if code == 0 {
				tp := &Topic{Name: t.name}
				for i := 0; i < len(t.as); i++ {
					c.addPartition(tp, t.as[int32(i)])
				}
				for i := int32(0); i < t.n; i++ {
					var reps []int32
					for k := 0; k < int(t.rf); k++ {
						reps = append(reps, c.Brokers[(int(i)+k)%len(c.Brokers)].ID)
					}
					c.addPartition(tp, reps)
				}
				c.topics[t.name] = tp
				c.names = append(c.names, t.name)
				sort.Strings(c.names)
				r.applied("create-topic %s %d %d", t.name, t.n, t.rf)
			} else {
				r.Err = code
			}
			w.Str(t.name)
			w.I16(code)
		}
	case DeleteTopics:
		names := q.Strs()
		q.I32()
		nc := b.notController(r, len(names))
		w.Arr(len(names))
		for _, nm := range names {
			code := r.or(nc)
			if code == 0 && c.topics[nm] == nil {
				code = 3
			}
			if code == 0 {
				for _, p := range c.topics[nm].Parts {
					p.wakeAll()
				}
				delete(c.topics, nm)
				for i, x := range c.names {
					if x == nm {
						c.names = append(c.names[:i:i], c.names[i+1:]...)
						break
					}
				}
				r.applied("delete-topic %s", nm)
			} else {
				r.Err = code
			}
			w.Str(nm)
			w.I16(code)
		}
	case CreatePartitions:
		n := q.Arr()
		type cp struct {
			name  string
			count int32
			as    [][]int32
			hasAs bool
		}
		var ps []cp
		for i := 0; i < n; i++ {
			x := cp{name: q.Str(), count: q.I32()}
			na := q.Arr()
			x.hasAs = na >= 0
			for j := 0; j < na; j++ {
				x.as = append(x.as, q.I32s())
				q.Tags()
			}
			q.Tags()
			ps = append(ps, x)
		}
		q.I32()
		vo := q.Bool()
		q.Tags()
		nc := b.notController(r, len(ps))
		w.I32(0)
		w.Arr(len(ps))
		for _, x := range ps {
			code := r.or(nc)
			t := c.topics[x.name]
			switch {
			case code != 0:
			case t == nil:
				code = 3
			case int(x.count) <= len(t.Parts):
				code = 37
			case x.hasAs && len(x.as) != int(x.count)-len(t.Parts):
				code = 39
			}
			if code == 0 && !vo {
				k := 0
				for len(t.Parts) < int(x.count) {
					var reps []int32
					if x.hasAs {
						reps = x.as[k]
						k++
					}
					c.addPartition(t, reps)
				}
				r.applied("create-partitions %s %d %v", x.name, x.count, x.as)
			}
			if code != 0 {
				r.Err = code
			}
			w.Str(x.name)
			w.I16(code)
			w.NStr(msgFor(code))
			w.Tags()
		}
		w.Tags()
	case DescribeConfigs:
		n := q.Arr()
		type res struct {
			t    int8
			name string
			keys []string
		}
		var rs []res
		for i := 0; i < n; i++ {
			rs = append(rs, res{q.I8(), q.Str(), q.Strs()})
		}
		w.I32(0)
		w.Arr(len(rs))
		whole := r.whole(len(rs))
		for _, x := range rs {
			code := r.or(whole)
			if code == 0 {
				code = c.configTarget(b, x.t, x.name)
			}
			var kv [][2]string
			if code == 0 {
				m := c.Configs[cfgKey(x.t, x.name)]
				for _, k := range sortedKeys(m) {
					if x.keys == nil || len(x.keys) == 0 || contains(x.keys, k) {
						kv = append(kv, [2]string{k, m[k]})
					}
				}
			} else {
				r.Err = code
			}
			w.I16(code)
			w.NStr(msgFor(code))
			w.I8(x.t)
			w.Str(x.name)
			w.Arr(len(kv))
			for _, e := range kv {
				w.Str(e[0])
				if e[1] == "<null>" {
					w.NStr(nil)
				} else {
					w.Str(e[1])
				}
				w.Bool(false)
				w.Bool(false)
				w.Bool(false)
			}
		}
	case AlterConfigs, IncrementalAlterConfigs:
		n := q.Arr()
		type ent struct {
			k  string
			op int8
			v  *string
		}
		type res struct {
			t    int8
			name string
			es   []ent
		}
		var rs []res
		for i := 0; i < n; i++ {
			x := res{t: q.I8(), name: q.Str()}
			m := q.Arr()
			for j := 0; j < m; j++ {
				e := ent{k: q.Str()}
				if r.API == IncrementalAlterConfigs {
					e.op = q.I8()
				}
				e.v = q.NStr()
				q.Tags()
				x.es = append(x.es, e)
			}
			q.Tags()
			rs = append(rs, x)
		}
		vo := q.Bool()
		q.Tags()
		w.I32(0)
		w.Arr(len(rs))
		whole := r.whole(len(rs))
		for _, x := range rs {
			code := r.or(whole)
			if code == 0 {
				code = c.configTarget(b, x.t, x.name)
			}
			for _, e := range x.es {
				if strings.HasPrefix(e.k, "bad.") {
					code = 40
				}
			}
			if code == 0 && !vo {
				k := cfgKey(x.t, x.name)
				if c.Configs[k] == nil || r.API == AlterConfigs {
					c.Configs[k] = map[string]string{}
				}
				for _, e := range x.es {
					if e.op == 1 || e.v == nil {
						delete(c.Configs[k], e.k)
					} else {
						c.Configs[k][e.k] = *e.v
					}
				}
				r.applied("alter-configs %s", k)
			}
			if code != 0 {
				r.Err = code
			}
			w.I16(code)
			w.NStr(msgFor(code))
			w.I8(x.t)
			w.Str(x.name)
			w.Tags()
		}
		w.Tags()
	case DescribeLogDirs:
		n := q.Arr()
		want := map[string]map[int32]bool{}
		for i := 0; i < n; i++ {
			t := q.Str()
			want[t] = map[int32]bool{}
			for _, p := range q.I32s() {
				want[t][p] = true
			}
		}
		type prow struct {
			id   int32
			size int64
		}
		dirs := []string{"/data/a", "/data/b"}
		w.I32(0)
		w.Arr(len(dirs))
		whole := r.whole(len(dirs))
		for d, dir := range dirs {
			code := r.or(whole)
			if code != 0 {
				r.Err = code
			}
			w.I16(code)
			w.Str(dir)
			var rows []string
			tab := map[string][]prow{}
			if code == 0 {
				for _, nm := range c.names {
					for _, p := range c.topics[nm].Parts {
						if !containsI(p.Replicas, b.ID) || int(p.ID)%len(dirs) != d {
							continue
						}
						if n >= 0 && !want[nm][p.ID] {
							continue
						}
						if len(tab[nm]) == 0 {
							rows = append(rows, nm)
						}
						tab[nm] = append(tab[nm], prow{p.ID, p.Size})
					}
				}
			}
			w.Arr(len(rows))
			for _, nm := range rows {
				w.Str(nm)
				w.Arr(len(tab[nm]))
				for _, x := range tab[nm] {
					w.I32(x.id)
					w.I64(x.size)
					w.I64(0)
					w.Bool(false)
				}
			}
		}
	case ListGroups:
		var states, types []string
		if r.Ver >= 4 {
			states = q.Strs()
		}
		if r.Ver >= 5 {
			types = q.Strs()
		}
		q.Tags()
		_ = types
		var gs []*Group
		for _, nm := range c.gnames {
			g := c.Groups[nm]
			if c.CoordOf(nm) == b.ID && (len(states) == 0 || contains(states, g.StateName())) && (len(g.Members) > 0 || len(g.Offsets) > 0) {
				gs = append(gs, g)
			}
		}
		code := r.injected()
		r.Err = code
		if code != 0 {
			gs = nil
		}
		if r.Ver >= 1 {
			w.I32(0)
		}
		w.I16(code)
		w.Arr(len(gs))
		for _, g := range gs {
			w.Str(g.ID)
			w.Str(g.PType)
			if r.Ver >= 4 {
				w.Str(g.StateName())
			}
			if r.Ver >= 5 {
				w.Str("classic")
			}
			w.Tags()
		}
		w.Tags()
	case DescribeGroups:
		ids := q.Strs()
		w.Arr(len(ids))
		whole := r.whole(len(ids))
		for _, id := range ids {
			code := r.or(whole)
			if code == 0 && c.CoordOf(id) != b.ID {
				code = 16
			}
			g := c.Groups[id]
			if code != 0 || g == nil {
				if code != 0 {
					r.Err = code
				}
				w.I16(code)
				w.Str(id)
				if code == 0 {
					w.Str("Dead")
				} else {
					w.Str("")
				}
				w.Str("")
				w.Str("")
				w.Arr(0)
				continue
			}
			w.I16(0)
			w.Str(id)
			w.Str(g.StateName())
			w.Str(g.PType)
			w.Str(g.Proto)
			w.Arr(len(g.Members))
			for _, m := range g.Members {
				w.Str(m.ID)
				w.Str(m.Client)
				w.Str("/10.0.0.1")
				w.Bytes(m.Meta)
				w.Bytes(m.Assign)
			}
		}
	case DeleteGroups:
		ids := q.Strs()
		w.I32(0)
		w.Arr(len(ids))
		whole := r.whole(len(ids))
		for _, id := range ids {
			code := r.or(whole)
			if code == 0 && c.CoordOf(id) != b.ID {
				code = 16
			}
			g := c.Groups[id]
			switch {
			case code != 0:
			case g == nil:
				code = 69
			case g.State != Empty:
				code = 68
			default:
				delete(c.Groups, id)
				for i, x := range c.gnames {
					if x == id {
						c.gnames = append(c.gnames[:i:i], c.gnames[i+1:]...)
						break
					}
				}
				r.applied("delete-group %s", id)
			}
			if code != 0 {
				r.Err = code
			}
			w.Str(id)
			w.I16(code)
		}
	case DescribeAcls:
		f := readFilter(q, r.Ver)
		q.Tags()
		code := r.injected()
		r.Err = code
		w.I32(0)
		w.I16(code)
		w.NStr(msgFor(code))
		type res struct {
			k    string
			acls []ACL
		}
		var rs []*res
		if code == 0 {
			for _, a := range c.ACLs {
				if !f.match(a) {
					continue
				}
				k := fmt.Sprintf("%d/%s/%d", a.RType, a.RName, a.Pattern)
				var hit *res
				for _, x := range rs {
					if x.k == k {
						hit = x
					}
				}
				if hit == nil {
					hit = &res{k: k}
					rs = append(rs, hit)
				}
				hit.acls = append(hit.acls, a)
			}
		}
		w.Arr(len(rs))
		for _, x := range rs {
			w.I8(x.acls[0].RType)
			w.Str(x.acls[0].RName)
			if r.Ver >= 1 {
				w.I8(x.acls[0].Pattern)
			}
			w.Arr(len(x.acls))
			for _, a := range x.acls {
				w.Str(a.Principal)
				w.Str(a.Host)
				w.I8(a.Op)
				w.I8(a.Perm)
				w.Tags()
			}
			w.Tags()
		}
		w.Tags()
	case CreateAcls:
		n := q.Arr()
		var as []ACL
		for i := 0; i < n; i++ {
			a := ACL{RType: q.I8(), RName: q.Str(), Pattern: 3}
			if r.Ver >= 1 {
				a.Pattern = q.I8()
			}
			a.Principal, a.Host, a.Op, a.Perm = q.Str(), q.Str(), q.I8(), q.I8()
			q.Tags()
			as = append(as, a)
		}
		q.Tags()
		w.I32(0)
		w.Arr(len(as))
		whole := r.whole(len(as))
		for _, a := range as {
			code := r.or(whole)
			if code == 0 && (a.RName == "" || a.Principal == "" || !strings.Contains(a.Principal, ":")) {
				code = 42
			}
			if code == 0 {
				dup := false
				for _, x := range c.ACLs {
					dup = dup || x == a
				}
				if !dup {
					c.ACLs = append(c.ACLs, a)
				}
				r.applied("create-acl %+v", a)
			} else {
				r.Err = code
			}
			w.I16(code)
			w.NStr(msgFor(code))
			w.Tags()
		}
		w.Tags()
	case DeleteAcls:
		n := q.Arr()
		var fs []aclFilter
		for i := 0; i < n; i++ {
			fs = append(fs, readFilter(q, r.Ver))
			q.Tags()
		}
		q.Tags()
		w.I32(0)
		w.Arr(len(fs))
		whole := r.whole(2 * len(fs))
		for _, f := range fs {
			code := whole
			if code == 0 && len(fs) > 1 {
				code = r.item()
			}
			var hit, keep []ACL
			var codes []int16
			if code == 0 {
				for _, a := range c.ACLs {
					if f.match(a) {
						hit = append(hit, a)
						x := r.item() // a matching entry that cannot be deleted
						codes = append(codes, x)
						if x != 0 {
							r.Err = x
							keep = append(keep, a)
						}
					} else {
						keep = append(keep, a)
					}
				}
				c.ACLs = keep
				r.applied("delete-acls %d", len(hit))
			} else {
				r.Err = code
			}
			w.I16(code)
			w.NStr(msgFor(code))
			w.Arr(len(hit))
			for i, a := range hit {
				w.I16(codes[i])
				w.NStr(msgFor(codes[i]))
				w.I8(a.RType)
				w.Str(a.RName)
				if r.Ver >= 1 {
					w.I8(a.Pattern)
				}
				w.Str(a.Principal)
				w.Str(a.Host)
				w.I8(a.Op)
				w.I8(a.Perm)
				w.Tags()
			}
			w.Tags()
		}
		w.Tags()
	case ElectLeaders:
		n := q.Arr()
		type et struct {
			t  string
			ps []int32
		}
		var es []et
		for i := 0; i < n; i++ {
			es = append(es, et{q.Str(), q.I32s()})
		}
		q.I32()
		nc := b.notController(r, 2)
		w.I32(0)
		w.Arr(len(es))
		for _, e := range es {
			w.Str(e.t)
			w.Arr(len(e.ps))
			for _, id := range e.ps {
				code := r.or(nc)
				p := c.part(e.t, id)
				switch {
				case code != 0:
				case p == nil:
					code = 3
				case p.Leader == p.Replicas[0]:
					code = 84
				default:
					if x := c.Broker(p.Replicas[0]); x == nil || !x.Up {
						code = 80
					} else {
						p.Leader = p.Replicas[0]
						p.Epoch++
						p.wakeAll()
						r.applied("elect %s-%d", e.t, id)
					}
				}
				if code != 0 {
					r.Err = code
				}
				w.I32(id)
				w.I16(code)
				w.NStr(msgFor(code))
			}
		}
	case AlterReassign:
		q.I32()
		n := q.Arr()
		type pa struct {
			id   int32
			reps []int32
			null bool
		}
		type ta struct {
			t  string
			ps []pa
		}
		var ts []ta
		for i := 0; i < n; i++ {
			x := ta{t: q.Str()}
			m := q.Arr()
			for j := 0; j < m; j++ {
				p := pa{id: q.I32()}
				p.reps = q.I32s()
				p.null = p.reps == nil
				q.Tags()
				x.ps = append(x.ps, p)
			}
			q.Tags()
			ts = append(ts, x)
		}
		q.Tags()
		top := b.notController(r, 2)
		w.I32(0)
		w.I16(top)
		w.NStr(msgFor(top))
		if top != 0 {
			ts = nil
			r.Err = top
		}
		w.Arr(len(ts))
		for _, x := range ts {
			w.Str(x.t)
			w.Arr(len(x.ps))
			for _, y := range x.ps {
				code := r.item()
				p := c.part(x.t, y.id)
				switch {
				case code != 0:
				case p == nil:
					code = 3
				case y.null && p.Target == nil:
					code = 85
				case y.null:
					p.Target = nil
					r.applied("cancel-reassign %s-%d", x.t, y.id)
				default:
					for _, id := range y.reps {
						if c.Broker(id) == nil {
							code = 39
						}
					}
					if len(y.reps) == 0 {
						code = 39
					}
					if code == 0 {
						p.Target = y.reps
						r.applied("reassign %s-%d %v", x.t, y.id, y.reps)
					}
				}
				if code != 0 {
					r.Err = code
				}
				w.I32(y.id)
				w.I16(code)
				w.NStr(msgFor(code))
				w.Tags()
			}
			w.Tags()
		}
		w.Tags()
	case ListReassign:
		q.I32()
		n := q.Arr()
		want := map[string][]int32{}
		for i := 0; i < n; i++ {
			t := q.Str()
			want[t] = q.I32s()
			q.Tags()
		}
		q.Tags()
		code := b.notController(r, 1)
		r.Err = code
		w.I32(0)
		w.I16(code)
		w.NStr(msgFor(code))
		type row struct {
			t  string
			ps []*Partition
		}
		var rows []row
		if code == 0 {
			for _, nm := range c.names {
				x := row{t: nm}
				for _, p := range c.topics[nm].Parts {
					if p.Target != nil && (n < 0 || containsI(want[nm], p.ID)) {
						x.ps = append(x.ps, p)
					}
				}
				if len(x.ps) > 0 {
					rows = append(rows, x)
				}
			}
		}
		w.Arr(len(rows))
		for _, x := range rows {
			w.Str(x.t)
			w.Arr(len(x.ps))
			for _, p := range x.ps {
				w.I32(p.ID)
				add, rem := p.diff()
				w.I32s(append(append([]int32{}, p.Replicas...), add...))
				w.I32s(add)
				w.I32s(rem)
				w.Tags()
			}
			w.Tags()
		}
		w.Tags()
	default:
		b.bad(r, "unknown api")
		r.cs.dead = true
		r.Conn.CloseByServer()
		return
	}
	r.reply(w)
}

func (p *Partition) diff() (add, rem []int32) {
	for _, x := range p.Target {
		if !containsI(p.Replicas, x) {
			add = append(add, x)
		}
	}
	for _, x := range p.Replicas {
		if !containsI(p.Target, x) {
			rem = append(rem, x)
		}
	}
	return
}

// Diff is the replicas being added and removed.
func (p *Partition) Diff() (add, rem []int32) { return p.diff() }

func contains(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}
func containsI(xs []int32, s int32) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

func cfgKey(t int8, name string) string { return fmt.Sprintf("%d/%s", t, name) }

// CfgKey names a config resource.
func CfgKey(t int8, name string) string { return cfgKey(t, name) }

func (c *Cluster) configTarget(b *Broker, t int8, name string) int16 {
	switch t {
	case 2:
		if c.topics[name] == nil {
			return 3
		}
	case 4:
		if name != fmt.Sprint(b.ID) && name != "" {
			return 42
		}
	default:
		return 42
	}
	return 0
}

type aclFilter struct {
	rt              int8
	name            *string
	pat             int8
	principal, host *string
	op, perm        int8
}

func readFilter(q *R, ver int16) aclFilter {
	f := aclFilter{pat: 3}
	f.rt = q.I8()
	f.name = q.NStr()
	if ver >= 1 {
		f.pat = q.I8()
	}
	f.principal = q.NStr()
	f.host = q.NStr()
	f.op = q.I8()
	f.perm = q.I8()
	return f
}

func (f aclFilter) match(a ACL) bool {
	eq := func(p *string, s string) bool { return p == nil || *p == s }
	return (f.rt == 1 || f.rt == a.RType) && eq(f.name, a.RName) && (f.pat == 1 || f.pat == a.Pattern) && eq(f.principal, a.Principal) &&
		eq(f.host, a.Host) && (f.op == 1 || f.op == a.Op) && (f.perm == 1 || f.perm == a.Perm)
}
