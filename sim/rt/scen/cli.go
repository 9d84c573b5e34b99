package scen

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"strconv"
	"strings"

	"github.com/childe/healer"
	"github.com/childe/healer/command/healer/cmd"
	"github.com/childe/healer/zz_sim/allreset"
	"github.com/childe/healer/zz_sim/kafka"
	"github.com/childe/healer/zz_sim/sgin"
	"github.com/childe/healer/zz_sim/sim"
	"github.com/childe/healer/zz_sim/sos"
	"github.com/childe/healer/zz_sim/ssignal"
	"k8s.io/klog/v2"
)

// proc is a run of the healer command as an operating system process: its
// goroutines and connections belong to it and end with it.
type proc struct {
	e     *Env
	owner string
	args  []string
	os    *sos.Proc
	code  int
	done  bool
}

var quiet bool

// resetProcs forgets the processes of the run before.
func resetProcs() {
	sgin.Reset()
	ssignal.Reset()
	sos.Procs = map[string]*sos.Proc{}
	if !quiet { // the tool's log and cobra's usage texts are not looked at
		quiet = true
		klog.LogToStderr(false)
		klog.SetOutput(io.Discard)
		if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stderr = f
		}
	}
}

// start starts "healer args...". Only one such process runs at a time, because
// they share the package's variables here.
func (e *Env) start(owner string, in func(p []byte) (int, error), args ...string) *proc {
	p := &proc{e: e, owner: owner, args: args, os: &sos.Proc{In: in}}
	p.os.Exit = func(code int) {
		p.end(code)
		sim.SetOwner(owner + "#dead")
		sim.BlockForever()
	}
	sos.Procs[owner] = p.os
	sim.Log("process %s: healer %q", owner, args)
	sim.GoOwned(owner, owner, func() {
		allreset.Tool()
		os.Args = append([]string{"healer"}, args...)
		cmd.Execute()
		p.end(0)
	})
	return p
}

// end ends the process: what it has not done by now it never does.
func (p *proc) end(code int) {
	if p.done {
		return
	}
	p.code, p.done = code, true
	sim.Log("process %s ends with %d", p.owner, code)
	sim.KillOwner(p.owner)
	p.e.Net.KillOwner(p.owner)
}

// wait waits for the process to end.
func (p *proc) wait(bound int64) bool {
	return WaitFor(bound, 20*MS, func() bool { return p.done })
}

// ---------------------------------------------------------------- administrators by command or HTTP

// cmd runs one command to its end.
func (a *adm) cmd(args ...string) error {
	a.seq++
	a.owner = fmt.Sprintf("%s-cli%d", a.ns, a.seq)
	p := a.e.start(a.owner, nil, append([]string{args[0], "-b", a.e.C.Bootstrap(), "-c", "sim-" + a.ns}, args[1:]...)...)
	if !p.wait(4000 * SEC) {
		a.e.Violate(a.chg, "a command does not end", "healer %q: %v", p.args, sim.Alive(a.owner))
		a.e.Violate(a.qry, "a command does not end", "healer %q: %v", p.args, sim.Alive(a.owner))
		p.end(-1)
	}
	a.out = string(p.os.Out)
	if p.code != 0 {
		return fmt.Errorf("exit status %d", p.code)
	}
	return nil
}

// http makes one HTTP request.
func (a *adm) http(route string, body any) error {
	e := a.e
	a.seq++
	a.owner = fmt.Sprintf("%s-http%d", a.ns, a.seq)
	method, target, _ := strings.Cut(route, " ")
	var rd io.Reader
	if body != nil {
		rd = strings.NewReader(toJSON(body))
	}
	req := httptest.NewRequest(method, target+"bootstrap="+e.C.Bootstrap(), rd)
	if a.user != "" {
		req.SetBasicAuth(a.user, a.pass)
	}
	rec := httptest.NewRecorder()
	eng := a.srv
	np := len(sgin.Panics)
	owner := a.owner
	if !CallIn(owner, owner, 4000*SEC, func() { eng.ServeHTTP(rec, req) }) {
		e.Violate(a.chg, "an HTTP request gets no answer", "%s: %v", route, sim.Alive(owner))
		e.Violate(a.qry, "an HTTP request gets no answer", "%s: %v", route, sim.Alive(owner))
		return fmt.Errorf("no answer")
	}
	a.status, a.out = rec.Code, rec.Body.String()
	if len(sgin.Panics) > np {
		e.Violate(a.chg, "a request handler panics", "%s: %s", route, sgin.Panics[np])
		e.Violate(a.qry, "a request handler panics", "%s: %s", route, sgin.Panics[np])
	}
	if !WaitFor(200*SEC, 50*MS, func() bool { return len(e.Net.OpenConns(owner)) == 0 && len(sim.Alive(owner)) == 0 }) {
		e.Violate(a.chg, "an answered HTTP request leaves connections or goroutines behind", "%s: %d connections, %v", route, len(e.Net.OpenConns(owner)), sim.Alive(owner))
		e.Violate(a.qry, "an answered HTTP request leaves connections or goroutines behind", "%s: %d connections, %v", route, len(e.Net.OpenConns(owner)), sim.Alive(owner))
	}
	if a.status != http.StatusOK {
		return fmt.Errorf("status %d", a.status)
	}
	var v any
	if err := decode(a.out, &v); err != nil {
		e.Violate(a.chg, "the body of a successful HTTP answer is not one JSON document", "%s: %.300q", route, a.out)
		e.Violate(a.qry, "the body of a successful HTTP answer is not one JSON document", "%s: %.300q", route, a.out)
	}
	return nil
}

// decode reads the text as one JSON document.
func decode(s string, r any) error {
	d := json.NewDecoder(bytes.NewReader([]byte(s)))
	if err := d.Decode(r); err != nil {
		return err
	}
	if _, err := d.Token(); err != io.EOF {
		return fmt.Errorf("more than one JSON document")
	}
	return nil
}

// get asks by the administrator's way and stores the answer in r.
func (a *adm) get(r any, lib func() (any, error), route string, body any, args ...string) error {
	switch a.via {
	case "http":
		if err := a.http(route, body); err != nil {
			return err
		}
	case "cli":
		if err := a.cmd(args...); err != nil {
			return err
		}
	default:
		v, err := lib()
		if err != nil {
			return err
		}
		reflect.ValueOf(r).Elem().Set(reflect.ValueOf(v))
		return nil
	}
	if r == nil {
		return nil
	}
	if err := decode(a.out, r); err != nil {
		a.e.Violate(a.chg, "the answer is not the JSON document it should be", "%s %q: %v: %.300q", route, args, err, a.out)
		a.e.Violate(a.qry, "the answer is not the JSON document it should be", "%s %q: %v: %.300q", route, args, err, a.out)
		return fmt.Errorf("unreadable answer")
	}
	return nil
}

func joinIDs(ids []int32, sep string) string {
	var s []string
	for _, x := range ids {
		s = append(s, fmt.Sprint(x))
	}
	return strings.Join(s, sep)
}

func toJSON(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

type tpJSON struct {
	Topic     string  `json:"topic"`
	Partition int32   `json:"partition"`
	Replicas  []int32 `json:"replicas,omitempty"`
}

var (
	rtNames   = []string{"unknown", "any", "topic", "group", "cluster", "transactional_id"}
	patNames  = []string{"unknown", "any", "match", "literal", "prefixed"}
	opNames   = []string{"unknown", "any", "all", "read", "write", "create", "delete", "alter", "describe", "cluster_action", "describe_configs", "alter_configs", "idempotent_write"}
	permNames = []string{"unknown", "any", "deny", "allow"}
)

func aclArgs(c string, rt int8, name *string, pat int8, principal, host *string, op, perm int8) []string {
	args := []string{c, "--resourcetype", rtNames[rt], "--patterntype", patNames[pat], "--operation", opNames[op], "--permissiontype", permNames[perm]}
	if name != nil {
		args = append(args, "--resource", *name)
	}
	if principal != nil {
		args = append(args, "--principal", *principal)
	}
	if host != nil {
		args = append(args, "--host", *host)
	}
	return args
}

func (f filter) args(c string) []string {
	return aclArgs(c, f.rt, f.name, f.pat, f.principal, f.host, f.op, f.perm)
}

// ---------------------------------------------------------------- more queries

type badFunc func(what, format string, x ...any)
type failFunc func(what string, api int16, err error)
type okFunc func(what string, api int16)

// metadata asks what the cluster consists of.
func (a *adm) metadata(bad badFunc, failed failFunc, ok okFunc) {
	e := a.e
	var names []string
	for _, t := range a.topics() {
		if workChance(1, 2) {
			names = append(names, t)
		}
	}
	exist := true
	if workChance(1, 6) {
		names, exist = append(names, a.fresh("nosuch")), false
	}
	if len(names) == 0 && a.via == "" {
		return // every topic, also those of others
	}
	what := fmt.Sprintf("metadata of %q", names)
	url := "GET /metadata?"
	args := []string{"get-metadata"}
	cat := a.via == "cli" && workChance(1, 3)
	if cat {
		args = append(args, "--format", "cat")
	}
	for _, n := range names {
		url += "topics=" + n + "&"
	}
	if len(names) > 0 {
		args = append(args, "-t", strings.Join(names, ","))
	}
	var r healer.MetadataResponse
	var err error
	if cat {
		err = a.cmd(args...)
	} else {
		err = a.get(&r, func() (any, error) { return a.bs.RequestMetaData("sim", names) }, url, nil, args...)
	}
	if err != nil {
		if exist {
			failed(what, kafka.Metadata, err)
		}
		return
	}
	sim.Probe("query-ok:Metadata")
	if names == nil {
		names = a.topics()
	}
	if cat {
		a.catMetadata(what, names, bad)
		return
	}
	seen := map[string]bool{}
	for _, t := range r.TopicMetadatas {
		if !strings.HasPrefix(t.TopicName, a.ns) {
			continue // it may be changing
		}
		if seen[t.TopicName] {
			bad(what, "topic %s twice", t.TopicName)
			return
		}
		seen[t.TopicName] = true
		x := e.C.Topic(t.TopicName)
		if x == nil {
			if t.TopicErrorCode == 0 {
				bad(what, "no error for the unknown topic %s", t.TopicName)
			}
			continue
		}
		if t.TopicErrorCode != 0 {
			if a.mode != 2 {
				bad(what, "error %d for topic %s", t.TopicErrorCode, t.TopicName)
			}
			continue
		}
		if len(t.PartitionMetadatas) != len(x.Parts) {
			bad(what, "%d partitions of %s, not %d", len(t.PartitionMetadatas), t.TopicName, len(x.Parts))
			return
		}
		ps := map[int32]bool{}
		for _, p := range t.PartitionMetadatas {
			q := e.C.Part(t.TopicName, p.PartitionID)
			if q == nil || ps[p.PartitionID] {
				bad(what, "partition %s-%d", t.TopicName, p.PartitionID)
				return
			}
			ps[p.PartitionID] = true
			if fmt.Sprint(sortedI(p.Replicas)) != fmt.Sprint(sortedI(q.Replicas)) {
				bad(what, "replicas of %s-%d are %v, not %v", t.TopicName, p.PartitionID, q.Replicas, p.Replicas)
			}
			if a.mode != 2 && (p.Leader != q.Leader || fmt.Sprint(sortedI(p.Isr)) != fmt.Sprint(sortedI(q.ISR))) {
				bad(what, "leader of %s-%d is %d with %v, not %d with %v", t.TopicName, p.PartitionID, q.Leader, q.ISR, p.Leader, p.Isr)
			}
		}
	}
	for _, n := range names {
		if !seen[n] && strings.HasPrefix(n, a.ns) {
			bad(what, "topic %s is missing", n)
		}
	}
	if len(r.Brokers) == 0 || a.mode != 2 && len(r.Brokers) != len(e.C.Brokers) {
		bad(what, "%d brokers, not %d", len(r.Brokers), len(e.C.Brokers))
	}
	for _, b := range r.Brokers {
		x := e.C.Broker(b.NodeID)
		if x == nil || x.Host != b.Host || x.Port != b.Port {
			bad(what, "broker %+v", *b)
		}
	}
}

// catMetadata reads the other output format: brokers, then partitions with the
// address of their leader.
func (a *adm) catMetadata(what string, names []string, bad badFunc) {
	want := map[string]string{"brokers:": "1", "topics:": "1"}
	got := map[string]string{}
	addr := map[int32]string{}
	for _, b := range a.e.C.Brokers {
		addr[b.ID] = fmt.Sprintf("%s:%d", b.Host, b.Port)
		want[fmt.Sprint(b.ID, " ", addr[b.ID])] = "1"
	}
	for _, n := range names {
		if t := a.e.C.Topic(n); t != nil && strings.HasPrefix(n, a.ns) {
			for _, p := range t.Parts {
				want[fmt.Sprintf("%s %d %s", n, p.ID, addr[p.Leader])] = "1"
			}
		}
	}
	for _, l := range strings.Split(strings.TrimSuffix(a.out, "\n"), "\n") {
		if got[l] != "" {
			bad(what, "%q twice", l)
			return
		}
		f := strings.Fields(l)
		if len(f) == 3 && !strings.HasPrefix(f[0], a.ns) && a.e.C.Topic(f[0]) != nil {
			continue
		}
		got[l] = "1"
	}
	if a.mode == 2 {
		return // leaders and live brokers change
	}
	if d := diffMap(want, got); d != "" {
		bad(what, "%s", d)
	}
}

// offsets asks for the first, the last or a dated offset of each partition.
func (a *adm) offsets(bad badFunc, failed failFunc, ok okFunc) {
	e := a.e
	t, exists := a.someTopic()
	ts := workPick[int64](-1, -2, 0, 500, 1000, 1001, 1<<40)
	what := fmt.Sprintf("offsets of %s at %d", t, ts)
	got := map[string]string{}
	put := func(p int32, off int64) {
		k := fmt.Sprint(p)
		if got[k] != "" {
			bad(what, "partition %d twice", p)
		}
		got[k] = fmt.Sprint(off)
	}
	headless := false
	if exists && a.mode == 1 && workChance(1, 6) { // one of the partitions has no leader
		ps := e.C.Topic(t).Parts
		p := ps[work(len(ps))]
		l := p.Leader
		p.Leader = -1
		headless = true
		sim.Fault("partition-without-leader")
		defer func() { p.Leader = l }()
	}
	var err error
	switch a.via {
	case "":
		var rs []healer.OffsetsResponse
		if rs, err = a.bs.RequestOffsets("sim", t, -1, ts, 1); err == nil {
			for _, r := range rs {
				for n, ps := range sim.Sorted(r.TopicPartitionOffsets) {
					for i := range ps {
						if n != t {
							bad(what, "answer for %s", n)
						}
						put(ps[i].Partition, ps[i].GetOffset())
					}
				}
			}
		}
	case "http":
		var rs []healer.PartitionOffset
		if err = a.get(&rs, nil, fmt.Sprintf("GET /topic/%s/offsets?timestamp=%d&", t, ts), nil); err == nil {
			for i := range rs {
				put(rs[i].Partition, rs[i].GetOffset())
			}
		}
	case "cli":
		if err = a.cmd("get-offsets", "-t", t, "--timestamp", fmt.Sprint(ts)); err == nil {
			for _, l := range lines(a.out) {
				var p int32
				var x, off int64
				if _, serr := fmt.Sscanf(strings.TrimPrefix(l, t+":"), "%d:%d %d", &p, &x, &off); serr != nil || !strings.HasPrefix(l, t+":") {
					bad(what, "line %q", l)
					return
				}
				put(p, off)
			}
		}
	}
	if err != nil {
		if exists && !headless {
			failed(what, kafka.ListOffsets, err)
		}
		return
	}
	if !exists {
		bad(what, "no error for an unknown topic")
		return
	}
	if headless {
		bad(what, "no error though a partition has no leader")
		return
	}
	ok(what, kafka.ListOffsets)
	want := map[string]string{}
	for _, p := range e.C.Topic(t).Parts {
		want[fmt.Sprint(p.ID)] = fmt.Sprint(offsetAt(p, ts))
	}
	if d := diffMap(want, got); d != "" {
		bad(what, "%s", d)
	}
}

// offsetAt is the offset of a partition at a time.
func offsetAt(p *kafka.Partition, ts int64) int64 {
	switch ts {
	case -1:
		return p.Next
	case -2:
		return p.LogStart
	}
	for _, r := range p.Records() {
		if r.TS >= ts {
			return r.Off
		}
	}
	return -1
}

func lines(s string) []string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if l != "" {
			out = append(out, l)
		}
	}
	return out
}

// pending asks how far a group is behind.
func (a *adm) pending(bad badFunc, failed failFunc, ok okFunc) {
	e := a.e
	gs := a.groups()
	if len(gs) == 0 {
		return
	}
	g := pickStr(gs)
	t, exists := a.someTopic()
	h0 := len(e.C.Hist)
	committed := func(p int32) int64 {
		if off, is := e.C.Groups[g].Offsets[kafka.TP(t, p)]; is {
			return off
		}
		return -1
	}
	what := fmt.Sprintf("pending of %s in %s", g, t)
	if a.via == "http" {
		type info struct {
			Partition              int32
			Offset, Committed, Lag int64
		}
		var rs []info
		err := a.get(&rs, nil, "GET /group/"+g+"/pending/"+t+"?", nil)
		if err != nil {
			if exists {
				failed(what, kafka.OffsetFetch, err)
			}
			return
		}
		if !exists {
			bad(what, "no error for an unknown topic")
			return
		}
		ok(what, kafka.OffsetFetch)
		ok(what, kafka.ListOffsets)
		want, got := map[string]string{}, map[string]string{}
		for _, p := range e.C.Topic(t).Parts {
			c := committed(p.ID)
			want[fmt.Sprint(p.ID)] = fmt.Sprint(p.Next, c, p.Next-c)
		}
		for _, r := range rs {
			k := fmt.Sprint(r.Partition)
			if got[k] != "" {
				bad(what, "partition %s twice", k)
			}
			got[k] = fmt.Sprint(r.Offset, r.Committed, r.Lag)
		}
		if d := diffMap(want, got); d != "" {
			bad(what, "%s", d)
		}
		return
	}
	// the command prints what it learns and logs the rest
	total := workChance(1, 2)
	args := []string{"get-pending", "-g", g, fmt.Sprintf("--total=%v", total), fmt.Sprintf("--header=%v", workChance(1, 2))}
	pat := workChance(1, 3)
	pre, post := a.ns, "" // a pattern with a star between them
	if pat {
		i := len(a.ns) + work(len(g)-len(a.ns)+1)
		j := i + work(len(g)-i+1)
		pre, post = g[:i], g[j:]
		args[2] = pre + "*" + post
	}
	byTopic := workChance(2, 3)
	if byTopic {
		args = append(args, "-t", t)
	}
	if err := a.cmd(args...); err != nil {
		failed(what, kafka.OffsetFetch, err)
		return
	}
	sim.Probe("query-ok:Pending")
	want, got := map[string]string{}, map[string]string{}
	for _, gn := range gs {
		if gn != g && (!pat || !strings.HasPrefix(gn, pre) || !strings.HasSuffix(gn, post) || len(gn) < len(pre)+len(post)) {
			continue
		}
		cells := map[string]string{} // topic/partition -> member
		if byTopic {
			if exists {
				for _, p := range e.C.Topic(t).Parts {
					cells[kafka.TP(t, p.ID)] = ""
				}
			}
		} else {
			tops := map[string]bool{}
			who := map[string]string{}
			for _, m := range e.C.Groups[gn].Members {
				tps, _ := kafka.Assignment(m.Assign)
				for _, tp := range tps {
					tops[tp[:strings.LastIndexByte(tp, '/')]] = true
					who[tp] = m.ID
				}
			}
			for tn := range sim.Sorted(tops) {
				if x := e.C.Topic(tn); x != nil {
					for _, p := range x.Parts {
						cells[kafka.TP(tn, p.ID)] = who[kafka.TP(tn, p.ID)]
					}
				}
			}
		}
		sums := map[string][3]int64{}
		for tp, m := range sim.Sorted(cells) {
			i := strings.LastIndexByte(tp, '/')
			id, _ := strconv.Atoi(tp[i+1:])
			p := e.C.Part(tp[:i], int32(id))
			c, there := e.C.Groups[gn].Offsets[tp]
			if !there {
				c = -1
			}
			want[fmt.Sprintf("%s %s %d", p.Topic, gn, id)] = strings.TrimSpace(fmt.Sprintf("%d %d %d %s", p.Next, c, p.Next-c, m))
			s := sums[p.Topic]
			sums[p.Topic] = [3]int64{s[0] + p.Next, s[1] + c, s[2] + p.Next - c}
		}
		if total {
			for tn, s := range sim.Sorted(sums) {
				want[fmt.Sprintf("TOTAL %s %s", tn, gn)] = fmt.Sprintf("%d %d %d", s[0], s[1], s[2])
			}
		}
	}
	for _, l := range lines(a.out) {
		f := strings.Fields(l)
		if len(f) >= 7 && f[0] == "timestamp" {
			continue
		}
		k, v := "", ""
		switch {
		case len(f) >= 6 && f[0] == "TOTAL":
			k, v = strings.Join(f[:3], " "), strings.Join(f[3:], " ")
		case len(f) >= 7:
			k, v = strings.Join(f[1:4], " "), strings.Join(f[4:], " ")
		default:
			bad(what, "line %q", l)
			return
		}
		if got[k] != "" {
			bad(what, "%q twice", k)
		}
		got[k] = v
	}
	troubled := a.mode == 2
	for _, r := range e.C.Hist[h0:] {
		troubled = troubled || r.Owner == a.owner && r.Err != 0
	}
	if a.mode == 2 && !byTopic {
		return // members may have been lost with the coordinator
	}
	if troubled { // some groups could not be asked: what is printed must still be right
		for k := range sim.Sorted(want) {
			if _, is := got[k]; !is {
				delete(want, k)
			}
		}
	}
	if d := diffMap(want, got); d != "" {
		bad(what, "%q: %s", args, d)
	}
}
