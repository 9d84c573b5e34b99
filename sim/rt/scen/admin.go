package scen

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/childe/healer"
	"github.com/childe/healer/zz_sim/kafka"
	"github.com/childe/healer/zz_sim/sgin"
	"github.com/childe/healer/zz_sim/sim"
)

func init() {
	register("admin", func(e *Env) { admin(e, 0, "", "A01", "A02") }, "A01", "A02", "B05")
	register("admin-errors", func(e *Env) { admin(e, 1, "", "A01", "A02") }, "A01", "A02")
	register("admin-faults", func(e *Env) { admin(e, 2, "", "A01", "A02") }, "A01", "A02")
	register("http", func(e *Env) { admin(e, 0, "http", "A03", "A03") }, "A03")
	register("http-errors", func(e *Env) { admin(e, 1, "http", "A03", "A03") }, "A03")
	register("http-faults", func(e *Env) { admin(e, 2, "http", "A03", "A03") }, "A03")
	register("cli", func(e *Env) { admin(e, 0, "cli", "T02", "T01") }, "T01", "T02")
	register("cli-errors", func(e *Env) { admin(e, 1, "cli", "T02", "T01") }, "T01", "T02")
	register("cli-faults", func(e *Env) { admin(e, 2, "cli", "T02", "T01") }, "T01", "T02")
	for api, codes := range map[int16][]int16{
		kafka.CreateTopics: {7, 44, 29}, kafka.DeleteTopics: {7, 29, 41}, kafka.CreatePartitions: {7, 44, 29, 41}, kafka.AlterConfigs: {29, 7, 42},
		kafka.IncrementalAlterConfigs: {29, 7, 42}, kafka.DeleteGroups: {15, 14, 24}, kafka.CreateAcls: {54, 31, 42}, kafka.DeleteAcls: {54, 31, 42},
		kafka.DescribeAcls: {54, 31, 42}, kafka.ElectLeaders: {7, 31, 80}, kafka.AlterReassign: {7, 31, 41, 42}, kafka.ListReassign: {7, 31, 41},
		kafka.DescribeLogDirs: {56, 31},
	} {
		errCodes[api] = codes
	}
}

// adm is one administrator: a process with its own connections that works on
// its own part (by name) of the cluster.
type adm struct {
	e     *Env
	cl    *healer.Client
	bs    *healer.Brokers
	owner string
	ns    string
	mode  int
	seq   int
	done  int

	via    string // "", "http" or "cli": how the administrator works
	chg    string // the property its changes decide
	qry    string // the property its queries decide
	status int    // of the last HTTP response
	out    string // of the last command
	srv    *sgin.Engine
	user   string
	pass   string
}

// state is the cluster's content that belongs to the namespace.
func (a *adm) state() map[string]string {
	c := a.e.C
	m := map[string]string{}
	for _, n := range c.TopicNames() {
		if !strings.HasPrefix(n, a.ns) {
			continue
		}
		for _, p := range c.Topic(n).Parts {
			m[fmt.Sprintf("part/%s/%d", n, p.ID)] = fmt.Sprint(p.Replicas)
			if p.Target != nil {
				m[fmt.Sprintf("target/%s/%d", n, p.ID)] = fmt.Sprint(p.Target)
			}
		}
	}
	for _, x := range c.ACLs {
		if strings.HasPrefix(x.Principal, "User:"+a.ns) {
			m["acl/"+aclKey(x)] = "1"
		}
	}
	for _, g := range c.GroupNames() {
		if strings.HasPrefix(g, a.ns) {
			m["group/"+g] = "1"
			for k, v := range sim.Sorted(c.Groups[g].Offsets) {
				m["off/"+g+"/"+k] = fmt.Sprint(v)
			}
		}
	}
	for k, v := range sim.Sorted(c.Configs) {
		if strings.HasPrefix(k, "2/"+a.ns) {
			for x, y := range sim.Sorted(v) {
				m["cfg/"+k+"/"+x] = y
			}
		}
	}
	return m
}

func aclKey(x kafka.ACL) string { return fmt.Sprintf("%+v", x) }

// op is one change.
type op struct {
	what    string
	api     int16
	reqs    int  // requests that may be executed
	repeat  bool // repeating it changes nothing
	valid   bool // a healthy cluster must do it
	unsure  bool // whether it is valid cannot be said in advance
	changes map[string]string
	do      func() error
}

const gone = "\x00"

func after(pre map[string]string, ch map[string]string) map[string]string {
	m := map[string]string{}
	for k, v := range sim.Sorted(pre) {
		m[k] = v
	}
	for k, v := range sim.Sorted(ch) {
		if v == gone {
			delete(m, k)
		} else {
			m[k] = v
		}
	}
	return m
}

func diffMap(want, got map[string]string) string {
	var out []string
	for k, v := range sim.Sorted(want) {
		if g, ok := got[k]; !ok {
			out = append(out, "missing "+k+"="+v)
		} else if g != v {
			out = append(out, fmt.Sprintf("%s is %s, not %s", k, g, v))
		}
	}
	for k, v := range sim.Sorted(got) {
		if _, ok := want[k]; !ok {
			out = append(out, "unexpected "+k+"="+v)
		}
	}
	sort.Strings(out)
	if len(out) > 8 {
		out = append(out[:8], "...")
	}
	return strings.Join(out, "; ")
}

// run makes one change and judges its outcome.
func (a *adm) run(o op) {
	e := a.e
	pre := a.state()
	h0 := len(e.C.Hist)
	moves := e.CtlMoves
	err := o.do()
	a.done++
	sim.Log("%s: %v", o.what, err)
	if err != nil && a.mode == 2 {
		sleep(12 * SEC) // a request may still be on its way
	}
	var reqs []*kafka.Req
	applied, refused := 0, false
	for _, r := range e.C.Hist[h0:] {
		refused = refused || r.Owner == a.owner && r.Served && r.Err != 0
		if r.Owner == a.owner && r.API == o.api && r.Served {
			reqs = append(reqs, r)
			if r.Note != "" {
				applied++
			}
		}
	}
	post := a.state()
	exp := after(pre, o.changes)
	if applied > o.reqs && !o.repeat {
		e.Violate(a.chg, "an administrative request is executed more than once", "%s: %d times", o.what, applied)
	}
	if err == nil {
		sim.Probe("admin-ok:" + kafka.APIName(o.api))
		if len(reqs) == 0 || reqs[len(reqs)-1].Err != 0 {
			e.Violate(a.chg, "an administrative operation reports success though the broker refused it", "%s: %d requests served%s", o.what, len(reqs), errOf(reqs))
		}
		if !o.valid && !o.unsure {
			e.Violate(a.chg, "an operation that cannot succeed reports success", "%s", o.what)
		}
		if !o.unsure {
			if d := diffMap(exp, post); d != "" {
				e.Violate(a.chg, "an administrative operation that reports success did something else", "%s: %s", o.what, d)
			}
		}
		return
	}
	sim.Probe("admin-fail:" + kafka.APIName(o.api))
	if o.valid && !o.unsure && moves == e.CtlMoves && (a.mode == 0 || a.mode == 1 && !refused) {
		e.Violate(a.chg, "a valid administrative operation fails on a healthy cluster", "%s: %v%s", o.what, err, errOf(reqs))
	}
	for _, k := range keysOf(pre, post, exp) {
		if post[k] != pre[k] && post[k] != exp[k] {
			e.Violate(a.chg, "a failed administrative operation changed something else", "%s: %s was %q, is %q", o.what, k, pre[k], post[k])
		}
	}
}

func errOf(rs []*kafka.Req) string {
	if len(rs) == 0 {
		return ""
	}
	return fmt.Sprintf(", last answer %d", rs[len(rs)-1].Err)
}

func keysOf(ms ...map[string]string) []string {
	s := map[string]bool{}
	for _, m := range ms {
		for k := range sim.Sorted(m) {
			s[k] = true
		}
	}
	var ks []string
	for k := range sim.Sorted(s) {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (a *adm) topics() (out []string) {
	for _, n := range a.e.C.TopicNames() {
		if strings.HasPrefix(n, a.ns) {
			out = append(out, n)
		}
	}
	return
}

func (a *adm) groups() (out []string) {
	for _, n := range a.e.C.GroupNames() {
		// a group of which only a refused commit was seen does not exist
		if g := a.e.C.Groups[n]; strings.HasPrefix(n, a.ns) && (len(g.Members) > 0 || len(g.Offsets) > 0) {
			out = append(out, n)
		}
	}
	return
}

func pickStr(xs []string) string { return xs[work(len(xs))] }

// fresh names something new.
func (a *adm) fresh(kind string) string {
	a.seq++
	return fmt.Sprintf("%s-%s-%d", a.ns, kind, a.seq)
}

// someTopic is an existing one, or now and then none.
func (a *adm) someTopic() (string, bool) {
	ts := a.topics()
	if len(ts) == 0 || workChance(1, 8) {
		return a.fresh("nosuch"), false
	}
	return pickStr(ts), true
}

func (a *adm) brokerIDs() (ids []int32) {
	for _, b := range a.e.C.Brokers {
		ids = append(ids, b.ID)
	}
	return
}

func (a *adm) someReplicas() []int32 {
	ids := a.brokerIDs()
	for i := len(ids) - 1; i > 0; i-- {
		j := work(i + 1)
		ids[i], ids[j] = ids[j], ids[i]
	}
	return ids[:1+work(len(ids))]
}

// newParts is what creating partitions from..to with the model's placement
// gives; it mirrors the rule of the model, which any client can only accept.
func (a *adm) create() op {
	n := 1 + work(3)
	if a.via != "" || workChance(1, 2) {
		n = 1
	}
	parts, rf := int32(1+work(4)), int16(1+work(len(a.e.C.Brokers)))
	valid := true
	switch work(12) {
	case 0:
		parts, valid = 0, false
	case 1:
		rf, valid = int16(len(a.e.C.Brokers)+1), false
	}
	ch := map[string]string{}
	names := []string{}
	size := valid
	for i := 0; i < n; i++ {
		name := a.fresh("topic")
		ok := size
		switch {
		case workChance(1, 10):
			name, ok = name+" bad name", false
		case workChance(1, 8) && len(a.topics()) > 0:
			name = pickStr(a.topics())
			ok = false
		}
		dup := false
		for _, x := range names {
			dup = dup || x == name
		}
		if dup {
			continue
		}
		names = append(names, name)
		if !ok {
			valid = false
			continue
		}
		for p := int32(0); p < parts; p++ {
			var reps []int32
			for k := 0; k < int(rf); k++ {
				reps = append(reps, a.e.C.Brokers[(int(p)+k)%len(a.e.C.Brokers)].ID)
			}
			ch[fmt.Sprintf("part/%s/%d", name, p)] = fmt.Sprint(reps)
		}
	}
	o := op{what: fmt.Sprintf("create topics %q with %d partitions, %d replicas", names, parts, rf), api: kafka.CreateTopics, reqs: 1, valid: valid, changes: ch}
	if a.via == "cli" && len(names) == 1 && workChance(1, 2) { // replicas by hand
		var as []string
		ch = map[string]string{}
		valid = parts > 0 && !strings.Contains(names[0], " ") && a.e.C.Topic(names[0]) == nil
		if parts == 0 {
			parts = 1
			valid = false
			as = append(as, "77")
		} else {
			for p := int32(0); p < parts; p++ {
				reps := a.someReplicas()[:1]
				for _, id := range a.brokerIDs() {
					if id != reps[0] && len(reps) < int(rf) {
						reps = append(reps, id)
					}
				}
				as = append(as, joinIDs(reps, ":"))
				if valid {
					ch[fmt.Sprintf("part/%s/%d", names[0], p)] = fmt.Sprint(reps)
				}
			}
		}
		o := op{what: fmt.Sprintf("create topic %q with replicas %v", names[0], as), api: kafka.CreateTopics, reqs: 1, valid: valid, changes: ch}
		o.do = func() error {
			return a.cmd("create-topic", "--topic", names[0], "--replica-assignment", strings.Join(as, ","))
		}
		return o
	}
	o.do = func() error {
		if a.via == "cli" {
			return a.cmd("create-topic", "--topic", names[0], "--partitions", fmt.Sprint(parts), "--replication-factor", fmt.Sprint(rf))
		}
		var r healer.CreateTopicsResponse
		var err error
		if len(names) == 1 && workChance(1, 2) {
			r, err = a.cl.CreateTopic(names[0], parts, rf, 10000)
		} else {
			r, err = a.cl.CreateTopics(names, parts, rf, 10000)
		}
		if err == nil {
			var got []string
			for _, t := range r.TopicErrors {
				got = append(got, t.Topic)
			}
			a.same(o.what, names, got)
		}
		return err
	}
	return o
}

func (a *adm) same(what string, want, got []string) {
	w, g := append([]string{}, want...), append([]string{}, got...)
	sort.Strings(w)
	sort.Strings(g)
	if !reflect.DeepEqual(w, g) {
		a.e.Violate(a.chg, "the result of an administrative operation does not name its targets", "%s: %q", what, got)
	}
}

func (a *adm) deleteTopics() op {
	var names []string
	ch := map[string]string{}
	valid := true
	for i := 0; i < 1+work(2); i++ {
		t, ok := a.someTopic()
		for _, x := range names {
			ok = ok && x != t
		}
		names = append(names, t)
		if !ok {
			valid = false
			continue
		}
		for _, p := range a.e.C.Topic(t).Parts {
			ch[fmt.Sprintf("part/%s/%d", t, p.ID)] = gone
			ch[fmt.Sprintf("target/%s/%d", t, p.ID)] = gone
		}
	}
	o := op{what: fmt.Sprintf("delete topics %q", names), api: kafka.DeleteTopics, reqs: 1, valid: valid, changes: ch}
	o.do = func() error {
		var r healer.DeleteTopicsResponse
		err := a.get(&r, func() (any, error) { return a.cl.DeleteTopics(names, 10000) }, "", nil, "delete-topics", "-t", strings.Join(names, ","))
		if err == nil {
			var got []string
			for _, t := range r.Results {
				got = append(got, t.TopicName)
			}
			a.same(o.what, names, got)
		}
		return err
	}
	return o
}

func (a *adm) createPartitions() op {
	many := a.via == "" && workChance(1, 4)
	n := 1
	if many {
		n = 1 + work(3)
	}
	vo := a.via != "http" && workChance(1, 6)
	type one struct {
		t     string
		total int32
		as    [][]int32
	}
	var all []one
	ch := map[string]string{}
	valid := true
	for i := 0; i < n; i++ {
		t, ok := a.someTopic()
		dup := false
		for _, x := range all {
			dup = dup || x.t == t
		}
		if dup {
			continue
		}
		cur := 0
		if ok {
			cur = len(a.e.C.Topic(t).Parts)
		}
		x := one{t: t, total: int32(cur + 1 + work(3))}
		if workChance(1, 8) {
			x.total, ok = int32(cur), false
		}
		if a.via != "http" && workChance(1, 2) {
			x.as = [][]int32{}
			k := int(x.total) - cur
			if workChance(1, 10) {
				k++
				ok = false
			}
			for ; k > 0; k-- {
				x.as = append(x.as, a.someReplicas())
			}
		}
		all = append(all, x)
		if !ok {
			valid = false
			continue
		}
		for p := cur; p < int(x.total) && !vo; p++ {
			v := ""
			if x.as != nil {
				v = fmt.Sprint(x.as[p-cur])
			} else {
				v = a.placed(t, p)
			}
			ch[fmt.Sprintf("part/%s/%d", t, p)] = v
		}
	}
	o := op{what: fmt.Sprintf("create partitions %v, validate only %v", all, vo), api: kafka.CreatePartitions, reqs: 1, valid: valid, changes: ch}
	o.do = func() error {
		var r healer.CreatePartitionsResponse
		var err error
		switch {
		case a.via == "cli":
			args := []string{"create-partitions", "-t", all[0].t, "--count", fmt.Sprint(all[0].total), fmt.Sprintf("--validate-only=%v", vo)}
			if all[0].as != nil {
				var xs []string
				for _, x := range all[0].as {
					xs = append(xs, joinIDs(x, ":"))
				}
				args = append(args, "--assignments", strings.Join(xs, ","))
			}
			return a.cmd(args...)
		case a.via == "http":
			err = a.get(&r, nil, "POST /create-partitions?", map[string]any{"topic": all[0].t, "count": all[0].total, "timeout": 10000})
		case many:
			req := healer.NewCreatePartitionsRequest("sim", 10000, vo)
			for _, x := range all {
				req.AddTopic(x.t, x.total, x.as)
			}
			b, err := a.bs.GetController()
			if err != nil {
				return err
			}
			resp, err := b.RequestAndGet(&req)
			if err != nil {
				return err
			}
			r = resp.(healer.CreatePartitionsResponse)
		case all[0].as == nil:
			r, err = a.cl.CreatePartitions(all[0].t, all[0].total, 10000, vo)
		default:
			r, err = a.cl.CreatePartitionsWithAssignments(all[0].t, all[0].total, all[0].as, 10000, vo)
		}
		if err == nil {
			var want, got []string
			for _, x := range all {
				want = append(want, x.t)
			}
			for _, x := range r.Results {
				got = append(got, x.TopicName)
			}
			a.same(o.what, want, got)
		}
		return err
	}
	return o
}

// placed is where the model puts a new partition.
func (a *adm) placed(t string, p int) string { return fmt.Sprint(a.e.C.Placement(t, int32(p))) }

func (a *adm) deleteGroups() op {
	var names []string
	ch := map[string]string{}
	valid, unsure := true, false
	gs := a.groups()
	for i := 0; i < 1+work(3); i++ {
		g := a.fresh("nogroup")
		ok := false
		if len(gs) > 0 && !workChance(1, 8) {
			g = pickStr(gs)
			ok = a.e.C.Groups[g].State == kafka.Empty
			if !ok && a.mode == 2 { // its members may be lost with the coordinator
				ok, unsure = true, true
			}
			for _, x := range names {
				ok = ok && x != g
			}
		}
		names = append(names, g)
		if !ok {
			valid = false
			continue
		}
		ch["group/"+g] = gone
		for k := range sim.Sorted(a.e.C.Groups[g].Offsets) {
			ch["off/"+g+"/"+k] = gone
		}
	}
	o := op{what: fmt.Sprintf("delete groups %q", names), api: kafka.DeleteGroups, reqs: len(names), valid: valid, unsure: unsure, changes: ch}
	o.do = func() error {
		var r healer.DeleteGroupsResponse
		err := a.get(&r, func() (any, error) { return a.cl.DeleteGroups(names) }, "", nil, "delete-groups", "-g", strings.Join(names, ","))
		if err == nil {
			var got []string
			for _, t := range r.Results {
				got = append(got, t.GroupID)
			}
			a.same(o.what, names, got)
		}
		return err
	}
	return o
}

func (a *adm) someACL() kafka.ACL {
	x := kafka.ACL{RType: int8(2 + work(4)), RName: workPick("t", "orders", "*", a.ns+"-x"), Pattern: int8(3 + work(2)),
		Principal: "User:" + a.ns + workPick("", "-bob", "-eve"), Host: workPick("*", "10.0.0.1"), Op: int8(2 + work(11)), Perm: int8(2 + work(2))}
	if a.aclVersion() < 1 {
		x.Pattern = 3
	}
	return x
}

// aclVersion is the highest version of the ACL requests every broker offers
// and healer knows.
func (a *adm) aclVersion() int16 {
	v := int16(3)
	for _, b := range a.e.C.Brokers {
		for _, api := range []int16{kafka.DescribeAcls, kafka.CreateAcls, kafka.DeleteAcls} {
			if m := b.Vers()[api].Max; m < v {
				v = m
			}
		}
	}
	return v
}

func (a *adm) createAcls() op {
	var cs []healer.AclCreation
	ch := map[string]string{}
	valid := true
	for i := 0; i < 1+work(3); i++ {
		if a.via == "cli" && i > 0 {
			break
		}
		x := a.someACL()
		ok := true
		if workChance(1, 10) {
			x.RName, ok = "", false
		}
		cs = append(cs, healer.AclCreation{ResourceType: healer.AclsResourceType(x.RType), ResourceName: x.RName, PatternType: healer.AclsPatternType(x.Pattern),
			Principal: x.Principal, Host: x.Host, Operation: healer.AclsOperation(x.Op), PermissionType: healer.AclsPermissionType(x.Perm)})
		if !ok {
			valid = false
			continue
		}
		ch["acl/"+aclKey(x)] = "1"
	}
	o := op{what: fmt.Sprintf("create acls %v", cs), api: kafka.CreateAcls, reqs: 1, valid: valid, changes: ch}
	o.do = func() error {
		var r *healer.CreateAclsResponse
		err := a.get(&r, func() (any, error) { return a.cl.CreateAcls(cs) }, "POST /create-acls?", cs, aclArgs("create-acls", int8(cs[0].ResourceType), &cs[0].ResourceName, int8(cs[0].PatternType), &cs[0].Principal, &cs[0].Host, int8(cs[0].Operation), int8(cs[0].PermissionType))...)
		if err == nil && len(r.Results) != len(cs) {
			a.e.Violate(a.chg, "the result of an administrative operation does not name its targets", "%s: %d results", o.what, len(r.Results))
		}
		return err
	}
	return o
}

type filter struct {
	rt        int8
	name      *string
	pat       int8
	principal *string
	host      *string
	op, perm  int8
}

func (a *adm) someFilter() filter {
	pr := "User:" + a.ns + workPick("", "-bob", "-eve")
	f := filter{rt: 1, pat: 1, principal: &pr, op: 1, perm: 1}
	x := a.someACL()
	if workChance(1, 3) {
		f.rt = x.RType
	}
	if workChance(1, 3) {
		f.name = &x.RName
	}
	if workChance(1, 3) || a.aclVersion() < 1 {
		f.pat = x.Pattern
	}
	if workChance(1, 3) {
		f.host = &x.Host
	}
	if workChance(1, 4) {
		f.op = x.Op
	}
	if workChance(1, 3) {
		f.perm = x.Perm
	}
	return f
}

func (f filter) match(x kafka.ACL) bool {
	eq := func(p *string, s string) bool { return p == nil || *p == s }
	return (f.rt == 1 || f.rt == x.RType) && eq(f.name, x.RName) && (f.pat == 1 || f.pat == x.Pattern) && eq(f.principal, x.Principal) &&
		eq(f.host, x.Host) && (f.op == 1 || f.op == x.Op) && (f.perm == 1 || f.perm == x.Perm)
}

func (f filter) String() string {
	s := func(p *string) string {
		if p == nil {
			return "any"
		}
		return *p
	}
	return fmt.Sprintf("{type %d name %s pattern %d %s host %s op %d perm %d}", f.rt, s(f.name), f.pat, s(f.principal), s(f.host), f.op, f.perm)
}

func (a *adm) deleteAcls() op {
	var fs []*healer.DeleteAclsFilter
	var desc []string
	ch := map[string]string{}
	var hits []string
	taken := map[string]bool{}
	var first filter
	for i := 0; i < 1+work(2); i++ {
		if a.via == "cli" && i > 0 {
			break
		}
		f := a.someFilter()
		if i == 0 {
			first = f
		}
		desc = append(desc, f.String())
		fs = append(fs, &healer.DeleteAclsFilter{ResourceType: healer.AclsResourceType(f.rt), ResourceName: f.name, PatternType: healer.AclsPatternType(f.pat),
			Principal: f.principal, Host: f.host, Operation: healer.AclsOperation(f.op), PermissionType: healer.AclsPermissionType(f.perm)})
		for _, x := range a.e.C.ACLs {
			if f.match(x) && !taken[aclKey(x)] {
				taken[aclKey(x)] = true
				ch["acl/"+aclKey(x)] = gone
				hits = append(hits, fmt.Sprint(i, aclKey(x)))
			}
		}
	}
	o := op{what: fmt.Sprintf("delete acls %v", desc), api: kafka.DeleteAcls, reqs: 1, valid: true, changes: ch}
	o.do = func() error {
		var r *healer.DeleteAclsResponse
		err := a.get(&r, func() (any, error) { return a.cl.DeleteAcls(fs) }, "DELETE /delete-acls?", fs, first.args("delete-acls")...)
		if err == nil {
			var got []string
			for i, x := range r.FilterResults {
				for _, m := range x.MatchingAcls {
					y := kafka.ACL{RType: int8(m.ResourceType), RName: m.ResourceName, Pattern: int8(m.PatternType), Principal: m.Principal, Host: m.Host, Op: int8(m.Operation), Perm: int8(m.PermissionType)}
					if a.aclVersion() < 1 && y.Pattern == 0 {
						y.Pattern = 3
					}
					got = append(got, fmt.Sprint(i, aclKey(y)))
				}
			}
			a.same(o.what, hits, got)
		}
		return err
	}
	return o
}

func (a *adm) alterConfigs() op {
	type res struct {
		t    string
		keys []string
		kv   map[string]string
	}
	var rs []res
	ch := map[string]string{}
	valid := true
	vo := workChance(1, 8)
	inc := workChance(1, 2)
	n := 1 + work(4)/2
	if a.via != "" {
		vo, inc, n = false, true, 1
	}
	seen := map[string]bool{}
	desc := ""
	for i := 0; i < n; i++ {
		t, ok := a.someTopic()
		if seen[t] {
			continue
		}
		seen[t] = true
		r := res{t: t, kv: map[string]string{}}
		m := 1 + work(3)
		if a.via != "" {
			m = 1
		}
		for i := 0; i < m; i++ {
			k := workPick("retention.ms", "cleanup.policy", "max.message.bytes", "segment.bytes")
			if workChance(1, 12) {
				k = "bad.key"
				ok = false
			}
			if _, dup := r.kv[k]; dup {
				continue
			}
			r.kv[k] = workPick("1", "604800000", "compact", "", strings.Repeat("x", 300))
			if a.via == "http" {
				r.kv[k] = workPick("1", "604800000", "compact")
			}
			r.keys = append(r.keys, k)
		}
		desc += fmt.Sprintf(" %s %q", t, r.keys)
		rs = append(rs, r)
		if !ok {
			valid = false
			continue
		}
		if vo {
			continue
		}
		if !inc {
			for k := range sim.Sorted(a.e.C.Configs[kafka.CfgKey(2, t)]) {
				ch["cfg/2/"+t+"/"+k] = gone
			}
		}
		for k, v := range sim.Sorted(r.kv) {
			ch["cfg/2/"+t+"/"+k] = v
		}
	}
	o := op{what: fmt.Sprintf("alter configs of%s, incremental %v, validate only %v", desc, inc, vo), reqs: 1, repeat: true, valid: valid, changes: ch}
	if inc {
		o.api = kafka.IncrementalAlterConfigs
	} else {
		o.api = kafka.AlterConfigs
	}
	o.do = func() error {
		t, k := rs[0].t, rs[0].keys[0]
		switch a.via {
		case "http":
			return a.get(nil, nil, "POST /topic/"+t+"/config/"+k+"/"+rs[0].kv[k]+"?", nil)
		case "cli":
			return a.cmd("alter-configs", "--resource-type", "topic", "--resource-name", t, "--config-name", k, "--config-value", rs[0].kv[k])
		}
		b, err := a.bs.GetController()
		if err != nil {
			return err
		}
		var add func(resourceType uint8, resourceName, configName, configValue string) error
		var req healer.Request
		if inc {
			r := healer.NewIncrementalAlterConfigsRequest("sim")
			r.SetValidateOnly(vo)
			req, add = &r, r.AddConfig
		} else {
			r := healer.NewAlterConfigsRequest("sim")
			r.SetValidateOnly(vo)
			req, add = &r, r.AddConfig
		}
		for i := 0; i < 3; i++ { // one entry of each topic in turn
			for _, x := range rs {
				if i < len(x.keys) {
					if err := add(2, x.t, x.keys[i], x.kv[x.keys[i]]); err != nil {
						return err
					}
				}
			}
		}
		_, err = b.RequestAndGet(req)
		return err
	}
	return o
}

// resetOffset sets where a group without members goes on.
func (a *adm) resetOffset() op {
	t, ok := a.someTopic()
	g := a.fresh("group")
	if gs := a.groups(); len(gs) > 0 && !workChance(1, 6) {
		g = pickStr(gs)
	}
	ts := workPick[int64](-1, -2, -1, -2, 0, 500, 1000, 1001)
	o := op{api: kafka.OffsetCommit, reqs: 1, repeat: true, valid: ok, changes: map[string]string{"group/" + g: "1"}}
	if x := a.e.C.Groups[g]; x != nil && x.State != kafka.Empty {
		o.valid = false
		o.unsure = a.mode == 2
	}
	args := []string{"reset-offset", "-t", t, "-g", g, fmt.Sprintf("--timestamp=%d", ts)}
	only := map[int32]bool{}
	if ok && workChance(1, 2) {
		n := len(a.e.C.Topic(t).Parts)
		for i := 0; i < 1+work(2); i++ {
			p := int32(work(n))
			if workChance(1, 8) {
				p = int32(n)
				o.valid = false
			}
			only[p] = true
			args = append(args, "-p", fmt.Sprint(p))
		}
	}
	if ok {
		for _, p := range a.e.C.Topic(t).Parts {
			if len(only) > 0 && !only[p.ID] {
				continue
			}
			off := offsetAt(p, ts)
			if off < 0 { // no such offset: what to do about it is not laid down
				o.unsure = true
			}
			o.changes[fmt.Sprintf("off/%s/%s", g, kafka.TP(t, p.ID))] = fmt.Sprint(off)
		}
	}
	o.what = fmt.Sprint(args)
	o.do = func() error { return a.cmd(args...) }
	return o
}

func (a *adm) elect() op {
	req := healer.NewElectLeadersRequest(10000)
	var tps []tpJSON
	valid := true
	var parts []*kafka.Partition
	desc := ""
	for i := 0; i < 1+work(3); i++ {
		t, ok := a.someTopic()
		id := int32(0)
		if ok {
			id = int32(work(len(a.e.C.Topic(t).Parts)))
			p := a.e.C.Part(t, id)
			dup := false
			for _, x := range parts {
				dup = dup || x == p
			}
			if dup {
				continue
			}
			if a.mode != 2 && !workChance(1, 8) {
				a.e.C.MoveLeader(p)
			}
			if p.Leader == p.Replicas[0] {
				ok = false
			}
			parts = append(parts, p)
		}
		valid = valid && ok
		req.Add(t, id)
		tps = append(tps, tpJSON{Topic: t, Partition: id})
		desc += fmt.Sprintf(" %s-%d", t, id)
	}
	o := op{what: "elect leaders of" + desc, api: kafka.ElectLeaders, reqs: 1, valid: valid, unsure: a.mode == 2}
	o.do = func() error {
		var r *healer.ElectLeadersResponse
		err := a.get(&r, func() (any, error) { return a.bs.ElectLeaders(&req) }, "POST /elect-leaders?timeout=10000&", tps, "elect-leaders", "-d", toJSON(tps))
		if err != nil {
			return err
		}
		n, m := 0, 0
		for _, t := range r.ReplicaElectionResults {
			n += len(t.PartitionResults)
		}
		for _, t := range req.Topics {
			m += len(t.Partitions)
		}
		if n != m {
			a.e.Violate(a.chg, "the result of an administrative operation does not name its targets", "%s: %d results", o.what, n)
		}
		if a.mode != 2 {
			for _, p := range parts {
				if p.Leader != p.Replicas[0] {
					a.e.Violate(a.chg, "an administrative operation that reports success did something else", "%s: leader of %s-%d is %d, replicas %v", o.what, p.Topic, p.ID, p.Leader, p.Replicas)
				}
			}
		}
		return nil
	}
	return o
}

func (a *adm) reassign() op {
	req := healer.NewAlterPartitionReassignmentsRequest(10000)
	var tps []tpJSON
	ch := map[string]string{}
	valid := true
	seen := map[string]bool{}
	desc := ""
	for i := 0; i < 1+work(4); i++ {
		t, ok := a.someTopic()
		id := int32(0)
		if ok {
			id = int32(work(len(a.e.C.Topic(t).Parts)))
		}
		k := fmt.Sprintf("target/%s/%d", t, id)
		if seen[k] {
			continue
		}
		seen[k] = true
		reps := a.someReplicas()
		if workChance(1, 10) {
			reps = append(append([]int32{}, reps...), 77)
			ok = false
		}
		req.AddAssignment(t, id, reps)
		tps = append(tps, tpJSON{Topic: t, Partition: id, Replicas: reps})
		desc += fmt.Sprintf(" %s-%d %v", t, id, reps)
		if !ok {
			valid = false
			continue
		}
		ch[k] = fmt.Sprint(reps)
	}
	o := op{what: "reassign" + desc, api: kafka.AlterReassign, reqs: 1, valid: valid, changes: ch}
	o.do = func() error {
		switch a.via {
		case "http":
			return a.get(nil, nil, "POST /alter-partition-reassignments?timeout=10000&", tps)
		case "cli":
			return a.cmd("alter-partition-reassignments", "-r", toJSON(tps))
		}
		_, err := a.bs.AlterPartitionReassignments(&req)
		return err
	}
	return o
}

// ---------------------------------------------------------------- reads

// read makes one query and compares the answer with the cluster.
func (a *adm) read() {
	e := a.e
	bad := func(what, format string, x ...any) {
		e.Violate(a.qry, "a query reports something else than the cluster's state", "%s: %s", what, fmt.Sprintf(format, x...))
	}
	h0 := len(e.C.Hist)
	moves := e.CtlMoves
	failed := func(what string, api int16, err error) {
		sim.Probe("query-fail:" + kafka.APIName(api))
		refused := false
		for _, r := range e.C.Hist[h0:] {
			if r.Owner == a.owner && r.Served && r.Err != 0 {
				refused = true
			}
		}
		if moves == e.CtlMoves && (a.mode == 0 || a.mode == 1 && !refused) {
			e.Violate(a.qry, "a query fails on a healthy cluster", "%s: %v", what, err)
		}
	}
	ok := func(what string, api int16) {
		sim.Probe("query-ok:" + kafka.APIName(api))
		var last *kafka.Req
		for _, r := range e.C.Hist[h0:] {
			if r.Owner == a.owner && r.API == api && r.Served {
				last = r
			}
		}
		if last != nil && last.Err != 0 {
			e.Violate(a.qry, "a query reports success though the broker refused it", "%s: error %d", what, last.Err)
		}
	}
	kinds := 9
	if a.via != "" {
		kinds = 10
	}
	switch work(kinds) {
	case 0:
		what := "list groups"
		var r map[int32][]*healer.Group
		err := a.get(&r, func() (any, error) { return a.cl.ListGroups() }, "GET /groups?", nil, "list-groups")
		if err != nil {
			failed(what, kafka.ListGroups, err)
			return
		}
		ok(what, kafka.ListGroups)
		if a.mode == 2 {
			return // coordinators may have moved between the questions
		}
		want, got := map[string]string{}, map[string]string{}
		for _, g := range a.groups() {
			want[g] = fmt.Sprint(e.C.CoordOf(g), " ", e.C.Groups[g].PType)
		}
		for id, gs := range sim.Sorted(r) {
			for _, g := range gs {
				if strings.HasPrefix(g.GroupID, a.ns) {
					if _, dup := got[g.GroupID]; dup {
						bad(what, "%s twice", g.GroupID)
					}
					got[g.GroupID] = fmt.Sprint(id, " ", g.ProtocolType)
				}
			}
		}
		if d := diffMap(want, got); d != "" {
			bad(what, "%s", d)
		}
	case 1:
		gs := a.groups()
		if a.via == "" && len(gs) > 1 && workChance(1, 3) {
			a.describeGroups(gs, bad, failed, ok)
			return
		}
		g := a.fresh("nogroup")
		if len(gs) > 0 && !workChance(1, 6) {
			g = pickStr(gs)
		}
		what := "describe group " + g
		var r []*healer.GroupDetail
		err := a.get(&r, func() (any, error) {
			co, err := a.bs.FindCoordinator("sim", g)
			if err != nil {
				return nil, err
			}
			b, err := a.bs.GetBroker(co.Coordinator.NodeID)
			if err != nil {
				return nil, err
			}
			resp, err := b.RequestAndGet(healer.NewDescribeGroupsRequest("sim", []string{g}))
			if err != nil {
				return nil, err
			}
			return resp.(healer.DescribeGroupsResponse).Groups, nil
		}, "GET /group/"+g+"?", nil, "describe-groups", "-g", g)
		if err != nil {
			failed(what, kafka.DescribeGroups, err)
			return
		}
		ok(what, kafka.DescribeGroups)
		if len(r) != 1 || r[0] == nil || r[0].GroupID != g {
			bad(what, "%+v", r)
			return
		}
		a.sameGroup(what, r[0], e.C.Groups[g], bad)
	case 2:
		ts := a.topics()
		if len(ts) == 0 {
			return
		}
		var names []string
		for _, t := range ts {
			if workChance(1, 2) {
				names = append(names, t)
			}
		}
		if len(names) == 0 {
			names = ts[:1]
		}
		what := fmt.Sprintf("describe log dirs of %q", names)
		var r map[int32]healer.DescribeLogDirsResponse
		url, body := "POST /describe-logdirs?", any(map[string]any{"topics": names})
		if len(names) == 1 && workChance(1, 2) {
			url, body = "GET /topic/"+names[0]+"/logdirs?", nil
		}
		err := a.get(&r, func() (any, error) { return a.cl.DescribeLogDirs(names) }, url, body, "describe-logdirs", "-t", strings.Join(names, ","))
		if err != nil {
			failed(what, kafka.DescribeLogDirs, err)
			return
		}
		sim.Probe("query-ok:DescribeLogDirs")
		want, got := map[string]string{}, map[string]string{}
		for _, t := range names {
			for _, p := range e.C.Topic(t).Parts {
				for _, id := range p.Replicas {
					want[fmt.Sprintf("%d %s-%d", id, t, p.ID)] = fmt.Sprint(p.Size, []string{"/data/a", "/data/b"}[p.ID%2])
				}
			}
		}
		for id, x := range sim.Sorted(r) {
			for _, d := range x.Results {
				for _, t := range d.Topics {
					for _, p := range t.Partitions {
						k := fmt.Sprintf("%d %s-%d", id, t.TopicName, p.PartitionID)
						if _, dup := got[k]; dup {
							bad(what, "%s twice", k)
						}
						got[k] = fmt.Sprint(p.Size, d.LogDir)
					}
				}
			}
		}
		if d := diffMap(want, got); d != "" {
			bad(what, "%s", d)
		}
	case 3:
		if a.via == "" && workChance(1, 3) {
			a.describeConfigs(bad, failed, ok)
			return
		}
		typ, name, key := "topic", "", ""
		exists := true
		if workChance(1, 3) {
			typ = "broker"
			name = fmt.Sprint(a.brokerIDs()[work(len(e.C.Brokers))])
			key = kafka.CfgKey(4, name)
		} else {
			name, exists = a.someTopic()
			key = kafka.CfgKey(2, name)
		}
		var keys []string
		if workChance(1, 2) {
			keys = []string{workPick("retention.ms", "cleanup.policy", "none.such"), "segment.bytes"}
		}
		what := fmt.Sprintf("describe configs of %s %s %q", typ, name, keys)
		var r healer.DescribeConfigsResponse
		url := "GET /configs/" + typ + "/" + name + "?"
		if a.via == "http" && keys != nil {
			keys[1] = keys[0]
			if typ == "topic" {
				url = "GET /topic/" + name + "/config/" + keys[0] + "?"
			} else {
				keys = nil
			}
		}
		args := []string{"describe-configs", "--resource-type", typ, "--resource-name", name}
		for _, k := range keys {
			args = append(args, "--keys", k)
		}
		err := a.get(&r, func() (any, error) { return a.cl.DescribeConfigs(typ, name, keys) }, url, nil, args...)
		if err != nil {
			if exists {
				failed(what, kafka.DescribeConfigs, err)
			}
			return
		}
		ok(what, kafka.DescribeConfigs)
		if !exists {
			bad(what, "no error for an unknown resource")
			return
		}
		want, got := map[string]string{}, map[string]string{}
		for k, v := range sim.Sorted(e.C.Configs[key]) {
			if keys == nil || k == keys[0] || k == keys[1] {
				if v == "<null>" {
					v = ""
				}
				want[k] = v
			}
		}
		if len(r.Resources) != 1 || r.Resources[0].ResourceName != name {
			bad(what, "%+v", r)
			return
		}
		for _, c := range r.Resources[0].ConfigEntries {
			got[c.ConfigName] = c.ConfigValue
		}
		if d := diffMap(want, got); d != "" {
			bad(what, "%s", d)
		}
	case 4:
		req := healer.NewListPartitionReassignmentsRequest("sim", 10000)
		asked := map[string]bool{}
		var tps []tpJSON
		all := workChance(1, 2)
		if !all {
			for i := 0; i < 1+work(4); i++ {
				if t, is := a.someTopic(); is {
					id := int32(work(len(e.C.Topic(t).Parts)))
					req.AddTP(t, id)
					tps = append(tps, tpJSON{Topic: t, Partition: id})
					asked[kafka.TP(t, id)] = true
				}
			}
			all = len(asked) == 0
		}
		what := "list partition reassignments"
		var r *healer.ListPartitionReassignmentsResponse
		var body any
		args := []string{"list-partition-reassignments"}
		if tps != nil {
			body = tps
			args = append(args, "-d", toJSON(tps))
		}
		err := a.get(&r, func() (any, error) { return a.cl.ListPartitionReassignments(req) }, "POST /list-partition-reassignments?", body, args...)
		if err != nil {
			failed(what, kafka.ListReassign, err)
			return
		}
		ok(what, kafka.ListReassign)
		want, got := map[string]string{}, map[string]string{}
		for _, t := range a.topics() {
			for _, p := range e.C.Topic(t).Parts {
				if p.Target != nil && (all || asked[kafka.TP(t, p.ID)]) {
					add, rem := p.Diff()
					want[kafka.TP(t, p.ID)] = fmt.Sprint(append(append([]int32{}, p.Replicas...), add...), add, rem)
				}
			}
		}
		for _, t := range r.Topics {
			if !strings.HasPrefix(t.Name, a.ns) && all {
				continue
			}
			for _, p := range t.Partitions {
				got[kafka.TP(t.Name, p.Pid)] = fmt.Sprint(append([]int32{}, p.Replicas...), append([]int32(nil), p.AddingReplicas...), append([]int32(nil), p.RemovingReplicas...))
			}
		}
		if d := diffMap(want, got); d != "" {
			bad(what, "%s", d)
		}
	case 5, 6:
		f := a.someFilter()
		what := "describe acls " + f.String()
		var r healer.DescribeAclsResponse
		req := healer.DescribeAclsRequestBody{ResourceType: healer.AclsResourceType(f.rt), ResourceName: f.name, PatternType: healer.AclsPatternType(f.pat),
			Principal: f.principal, Host: f.host, Operation: healer.AclsOperation(f.op), PermissionType: healer.AclsPermissionType(f.perm)}
		err := a.get(&r, func() (any, error) { return a.cl.DescribeAcls(req) }, "POST /describe-acls?", req, f.args("describe-acls")...)
		if err != nil {
			failed(what, kafka.DescribeAcls, err)
			return
		}
		ok(what, kafka.DescribeAcls)
		want, got := map[string]string{}, map[string]string{}
		for _, x := range e.C.ACLs {
			if f.match(x) {
				want[aclKey(x)] = "1"
			}
		}
		for _, x := range r.Resources {
			for _, y := range x.Acls {
				z := kafka.ACL{RType: int8(x.ResourceType), RName: x.ResourceName, Pattern: int8(x.PatternType), Principal: y.Principal, Host: y.Host, Op: int8(y.Operation), Perm: int8(y.PermissionType)}
				if a.aclVersion() < 1 && z.Pattern == 0 {
					z.Pattern = 3
				}
				if got[aclKey(z)] != "" {
					bad(what, "%s twice", aclKey(z))
				}
				got[aclKey(z)] = "1"
			}
		}
		if d := diffMap(want, got); d != "" {
			bad(what, "%s", d)
		}
	case 7:
		a.metadata(bad, failed, ok)
	case 8:
		a.offsets(bad, failed, ok)
	case 9:
		a.pending(bad, failed, ok)
	}
}

// describeGroups asks one coordinator about several groups at once.
func (a *adm) describeGroups(gs []string, bad func(what, format string, x ...any), failed func(what string, api int16, err error), ok func(what string, api int16)) {
	e := a.e
	first := pickStr(gs)
	names := []string{first}
	for _, g := range gs {
		if g != first && e.C.CoordOf(g) == e.C.CoordOf(first) && !workChance(1, 3) {
			names = append(names, g)
		}
	}
	what := fmt.Sprintf("describe groups %q", names)
	co, err := a.bs.FindCoordinator("sim", first)
	var b *healer.Broker
	if err == nil {
		b, err = a.bs.GetBroker(co.Coordinator.NodeID)
	}
	var resp healer.Response
	if err == nil {
		resp, err = b.RequestAndGet(healer.NewDescribeGroupsRequest("sim", names))
	}
	if err != nil {
		failed(what, kafka.DescribeGroups, err)
		return
	}
	ok(what, kafka.DescribeGroups)
	sim.Probe(fmt.Sprintf("query-ok:DescribeGroups-%d", min(len(names), 3)))
	r := resp.(healer.DescribeGroupsResponse).Groups
	if len(r) != len(names) {
		bad(what, "%d groups", len(r))
		return
	}
	for i, g := range names {
		if r[i] == nil || r[i].GroupID != g {
			bad(what, "%d is %+v", i, r[i])
			return
		}
		a.sameGroup(what, r[i], e.C.Groups[g], bad)
	}
}

// describeConfigs asks about several topics at once.
func (a *adm) describeConfigs(bad func(what, format string, x ...any), failed func(what string, api int16, err error), ok func(what string, api int16)) {
	e := a.e
	var rs []*healer.DescribeConfigsRequestResource
	var keys []string
	if workChance(1, 3) {
		keys = []string{"retention.ms", "cleanup.policy"}
	}
	seen := map[string]bool{}
	exist := true
	var names []string
	for i := 0; i < 3; i++ {
		t, is := a.someTopic()
		if !seen[t] {
			seen[t] = true
			exist = exist && is
			names = append(names, t)
			rs = append(rs, &healer.DescribeConfigsRequestResource{ResourceType: healer.ConvertConfigResourceType("topic"), ResourceName: t, ConfigNames: keys})
		}
	}
	what := fmt.Sprintf("describe configs of topics %q", names)
	b, err := a.bs.GetController()
	var resp healer.Response
	if err == nil {
		resp, err = b.RequestAndGet(healer.NewDescribeConfigsRequest("sim", rs))
	}
	if err != nil {
		if exist {
			failed(what, kafka.DescribeConfigs, err)
		}
		return
	}
	ok(what, kafka.DescribeConfigs)
	r := resp.(healer.DescribeConfigsResponse).Resources
	if !exist || len(r) != len(names) {
		bad(what, "%d resources and no error", len(r))
		return
	}
	for i, t := range names {
		want, got := map[string]string{}, map[string]string{}
		for k, v := range sim.Sorted(e.C.Configs[kafka.CfgKey(2, t)]) {
			if keys == nil || k == keys[0] || k == keys[1] {
				if v == "<null>" {
					v = ""
				}
				want[k] = v
			}
		}
		if r[i].ResourceName != t {
			bad(what, "%d is %q", i, r[i].ResourceName)
		}
		for _, c := range r[i].ConfigEntries {
			got[c.ConfigName] = c.ConfigValue
		}
		if d := diffMap(want, got); d != "" {
			bad(what, "%s: %s", t, d)
		}
	}
}

func (a *adm) sameGroup(what string, r *healer.GroupDetail, g *kafka.Group, bad func(what, format string, x ...any)) {
	if g == nil {
		if r.State != "Dead" || len(r.Members) != 0 {
			bad(what, "a group that does not exist: %+v", *r)
		}
		return
	}
	if r.State != g.StateName() || r.ProtocolType != g.PType || r.Protocol != g.Proto || len(r.Members) != len(g.Members) {
		bad(what, "state %s protocol %s %s, %d members; is %s %s %s, %d", r.State, r.ProtocolType, r.Protocol, len(r.Members), g.StateName(), g.PType, g.Proto, len(g.Members))
		return
	}
	for i, m := range g.Members {
		x := r.Members[i]
		if x.MemberID != m.ID || x.ClientID != m.Client || x.ClientHost != "/10.0.0.1" || string(x.MemberMetadata) != string(m.Meta) {
			bad(what, "member %d is %q %q %q %x, not %q %q %x", i, x.MemberID, x.ClientID, x.ClientHost, x.MemberMetadata, m.ID, m.Client, m.Meta)
			return
		}
		want, _ := kafka.Assignment(m.Assign)
		var got []string
		if x.MemberAssignment != nil {
			for _, t := range x.MemberAssignment.PartitionAssignments {
				for _, p := range t.Partitions {
					got = append(got, kafka.TP(t.Topic, p))
				}
			}
		}
		sort.Strings(want)
		sort.Strings(got)
		if fmt.Sprint(want) != fmt.Sprint(got) {
			bad(what, "member %s has %v, reported %v", m.ID, want, got)
		}
	}
}

// assignment encodes what a leader gives a member.
func assignment(tps map[string][]int32, user []byte) []byte {
	var b []byte
	b = binary.BigEndian.AppendUint16(b, 0)
	b = binary.BigEndian.AppendUint32(b, uint32(len(tps)))
	var ts []string
	for t := range sim.Sorted(tps) {
		ts = append(ts, t)
	}
	sort.Strings(ts)
	for _, t := range ts {
		b = binary.BigEndian.AppendUint16(b, uint16(len(t)))
		b = append(b, t...)
		b = binary.BigEndian.AppendUint32(b, uint32(len(tps[t])))
		for _, p := range tps[t] {
			b = binary.BigEndian.AppendUint32(b, uint32(p))
		}
	}
	if user == nil {
		return binary.BigEndian.AppendUint32(b, 0xffffffff)
	}
	b = binary.BigEndian.AppendUint32(b, uint32(len(user)))
	return append(b, user...)
}

// furnish creates topics, groups, ACLs and settings of a namespace.
func (a *adm) furnish() {
	c := a.e.C
	for i := 0; i < 1+work(3); i++ {
		t := c.AddTopic(a.fresh("topic"), 1+work(4))
		for _, p := range t.Parts {
			if work(2) == 0 {
				p.Append(2, 0, []kafka.Rec{{Val: []byte(strings.Repeat("v", work(300)))}}, 1000)
			}
		}
		c.Configs[kafka.CfgKey(2, t.Name)] = map[string]string{"retention.ms": fmt.Sprint(work(1000)), "cleanup.policy": workPick("delete", "compact", "<null>", "")}
	}
	ts := a.topics()
	for i := 0; i < 1+work(4); i++ {
		a.group(ts)
	}
	for i := 0; i < work(5); i++ {
		x := a.someACL()
		dup := false
		for _, y := range c.ACLs {
			dup = dup || x == y
		}
		if !dup {
			c.ACLs = append(c.ACLs, x)
		}
	}
}

func (a *adm) group(ts []string) {
	c := a.e.C
	n := a.fresh("group")
	if work(3) == 0 { // much like another group's
		if gs := a.groups(); len(gs) > 0 {
			x := pickStr(gs)
			if work(2) == 0 {
				x += "-b"
			} else {
				x = x[:len(a.ns)] + strings.Replace(x[len(a.ns):], "-", ".", 1)
			}
			if c.Groups[x] == nil {
				n = x
			}
		}
	}
	c.SetOffset(n, pickStr(ts), 0, int64(work(100)))
	g := c.Groups[n]
	switch work(4) {
	case 0, 1: // empty
		g.PType = workPick("consumer", "")
	default:
		g.Static = true
		g.PType, g.Proto = "consumer", workPick("range", "roundrobin")
		g.State = workPick(kafka.Stable, kafka.Stable, kafka.Preparing, kafka.Completing)
		for i := 0; i < 1+work(3); i++ {
			m := &kafka.Member{ID: fmt.Sprintf("%s-m%d", n, i), Client: workPick("healer", "app", ""), Meta: []byte(workPick("meta", "", "\x00\x01sub"))}
			if g.State == kafka.Stable && work(5) > 0 {
				tps := map[string][]int32{}
				for _, t := range ts {
					for _, p := range c.Topic(t).Parts {
						if work(2) == 0 {
							tps[t] = append(tps[t], p.ID)
						}
					}
				}
				m.Assign = assignment(tps, workPick[[]byte](nil, []byte{}, []byte("user")))
			}
			g.Members = append(g.Members, m)
		}
	}
}

// adminVersions lets brokers offer older versions of the administrative APIs.
func (e *Env) adminVersions(b *kafka.Broker) {
	r := func(api int16, xs ...kafka.VRange) { b.SetVersion(api, xs[flt(len(xs))]) }
	for _, api := range []int16{kafka.DescribeAcls, kafka.CreateAcls, kafka.DeleteAcls} {
		r(api, kafka.VRange{Min: 0, Max: 3}, kafka.VRange{Min: 0, Max: 1}, kafka.VRange{Min: 0, Max: 0}, kafka.VRange{Min: 1, Max: 2}, kafka.VRange{Min: 2, Max: 2})
	}
	r(kafka.CreatePartitions, kafka.VRange{Min: 0, Max: 3}, kafka.VRange{Min: 0, Max: 1}, kafka.VRange{Min: 0, Max: 0}, kafka.VRange{Min: 2, Max: 2})
	r(kafka.ListGroups, kafka.VRange{Min: 0, Max: 5}, kafka.VRange{Min: 0, Max: 3}, kafka.VRange{Min: 0, Max: 2}, kafka.VRange{Min: 0, Max: 0})
	r(kafka.Metadata, kafka.VRange{Min: 0, Max: 12}, kafka.VRange{Min: 0, Max: 1}, kafka.VRange{Min: 2, Max: 6})
}

// admin: administrators change and query the cluster, each its own part.
// mode 0: healthy, 1: brokers answer with errors, 2: faults of all kinds.
// The administrators use the library, the HTTP API or the commands.
func admin(e *Env, mode int, via, chg, qry string) {
	e.Setup(1 + cfg(4))
	e.C.SaslUser = ""
	e.C.AddTopic("other", 2)
	for _, b := range e.C.Brokers {
		if cfgChance(1, 2) {
			e.adminVersions(b)
		}
		e.C.Configs[kafka.CfgKey(4, fmt.Sprint(b.ID))] = map[string]string{"log.dirs": "/data/" + fmt.Sprint(b.ID), "segment.bytes": fmt.Sprint(b.ID)}
	}
	switch mode {
	case 1:
		e.Until = now() + 10000*SEC
		e.Perm = cfgPick(100, 300, 600)
		e.Kinds = []string{"error"}
		e.Only = func(r *kafka.Req) bool { return r.API != kafka.ApiVersions && r.API != kafka.Metadata }
	case 2:
		e.Until = now() + int64(20+cfg(120))*SEC
		e.Perm = cfgPick(0, 50, 200, 400)
		e.Chaos([]string{"crash", "crash-silent", "partition", "reset", "blackhole", "coord", "leader", "controller", "loss", "loss-silent"}, cfg(8))
		if cfgChance(1, 2) {
			e.C.FailoverMS = 100000000
		}
	}
	if mode < 2 { // the controller moves, the cluster stays healthy
		if mode == 0 {
			e.Perm, e.Until = 0, now()+30*SEC
		}
		for i := cfg(4); i > 0; i-- {
			sim.After(int64(flt(6000))*MS, func() { e.one("controller", 0) })
		}
	}
	n := 1 + cfg(3)
	var srv *sgin.Engine
	switch via {
	case "cli":
		n = 1
	case "http":
		args := []string{"api", "-p", "8080"}
		if cfgChance(1, 4) {
			args = append(args, "--cors")
		}
		e.start("api", nil, args...)
		if !WaitFor(10*SEC, 10*MS, func() bool { return len(sgin.Servers) > 0 }) {
			e.Violate(chg, "the HTTP server does not start", "%q", args)
			return
		}
		for _, x := range sim.Sorted(sgin.Servers) {
			srv = x
		}
	}
	g := &Group{}
	for i := 0; i < n; i++ {
		a := &adm{e: e, via: via, chg: chg, qry: qry, srv: srv, owner: fmt.Sprintf("admin%d", i+1), ns: fmt.Sprintf("ns%d", i+1), mode: mode}
		a.furnish()
		ops := 3 + cfg(10)
		name := a.owner
		g.Go(name, name, func() {
			if via == "" && !a.connect() {
				return
			}
			for k := 0; k < ops; k++ {
				if chg != qry && e.Prop == qry && work(3) > 0 || work(3) == 0 {
					a.read()
				} else {
					mk := []func() op{a.createPartitions, a.createPartitions, a.createAcls, a.createAcls, a.deleteAcls, a.alterConfigs, a.alterConfigs, a.elect, a.reassign, a.reassign}
					if via != "http" {
						mk = append(mk, a.create, a.create, a.deleteTopics, a.deleteGroups)
					}
					if via == "cli" {
						mk = append(mk, a.resetOffset, a.resetOffset)
					}
					a.run(mk[work(len(mk))]())
				}
				if ts := a.topics(); len(ts) > 0 && work(4) == 0 {
					a.group(ts)
				}
				pause(300)
			}
			sim.Probe("admin-done")
			if a.cl != nil {
				a.cl.Close()
				a.bs.Close()
			}
		})
	}
	if !g.Wait(40000 * SEC) {
		e.Violate(chg, "an administrative operation does not return", "%v", sim.Alive("admin1"))
		e.Violate(qry, "a query does not return", "%v", sim.Alive("admin1"))
	}
}

// connect creates the administrator's clients; without faults it must succeed.
func (a *adm) connect() bool {
	var err error
	for k := 0; k < 200; k++ {
		if a.cl == nil {
			if a.cl, err = healer.NewClient(a.e.C.Bootstrap(), "sim-"+a.ns); err != nil {
				a.cl = nil
			}
		}
		if a.cl != nil && a.bs == nil {
			if a.bs, err = healer.NewBrokers(a.e.C.Bootstrap()); err != nil {
				a.bs = nil
			}
		}
		if a.cl != nil && a.bs != nil {
			return true
		}
		if a.mode != 2 {
			a.e.Violate(a.chg, "a healthy cluster cannot be reached", "%v", err)
			return false
		}
		sleep(SEC)
	}
	return false
}
