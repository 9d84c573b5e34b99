// Package scen holds the simulated workloads and their oracles. It drives the
// code under test only through its exported API and observes it only through
// that API, the simulated wire and the simulated scheduler.
package scen

import (
	"bytes"
	"fmt"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/childe/healer"
	"github.com/childe/healer/zz_sim/allreset"
	"github.com/childe/healer/zz_sim/kafka"
	"github.com/childe/healer/zz_sim/sim"
	"github.com/childe/healer/zz_sim/stime"
	"github.com/childe/healer/zz_sim/vnet"
	"github.com/go-logr/logr"
)

// Time units in virtual nanoseconds.
const (
	US  = int64(1000)
	MS  = int64(1000000)
	SEC = int64(1000000000)
)

// Scenario is one family of simulated executions.
type Scenario struct {
	Name  string
	Props []string
	Run   func(e *Env)
}

var all []*Scenario

func register(name string, run func(e *Env), props ...string) {
	all = append(all, &Scenario{Name: name, Props: props, Run: run})
}

// Find returns a scenario by name.
func Find(name string) *Scenario {
	for _, s := range all {
		if s.Name == name {
			return s
		}
	}
	return nil
}

// ForProp lists the scenarios that evaluate a property.
func ForProp(p string) []*Scenario {
	var out []*Scenario
	for _, s := range all {
		for _, x := range s.Props {
			if x == p {
				out = append(out, s)
			}
		}
	}
	return out
}

// Props lists every property some scenario evaluates.
func Props() []string {
	m := map[string]bool{}
	for _, s := range all {
		for _, p := range s.Props {
			m[p] = true
		}
	}
	var out []string
	for p := range m {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

// Env is the world of one run.
type Env struct {
	Prop     string
	Net      *vnet.Net
	C        *kafka.Cluster
	Until    int64 // injected faults stop at this time
	CtlMoves int   // how often the controller has moved
	Perm     int   // per-mille chance of a request-level fault
	focus    int16 // one more than the API whose requests fail often, 0: none
	Kinds    []string
	Only     func(r *kafka.Req) bool
	NoErr    bool                            // no injected error codes
	Persist  func(r *kafka.Req) kafka.Action // an outage of some requests

	foreign map[string]int
}

// Result summarises a run.
type Result struct {
	Violation *sim.Violation
	Hash      uint64
	Now       int64
	Steps     uint64
	Switches  uint64
	Faults    map[string]int
	Probes    map[string]int
	Capped    bool
	Trace     []string
	Tape      sim.TapeData
}

// RunOne executes one scenario under one tape.
func RunOne(prop string, sc *Scenario, tape *sim.Tape, trace bool) *Result {
	allreset.Library()
	resetProcs()
	healer.SetLogger(logr.Discard())
	stime.Skew = 0
	e := &Env{Prop: prop, foreign: map[string]int{}}
	k := sim.Knobs{}
	switch tape.Draw(sim.StreamCfg, 11) {
	case 0:
	case 1:
		k.HotGap = 12
	case 2:
		k.HotGap = 3
	case 3:
		k.HotGap = 6
		k.PreemptGap = 2000
	case 4:
		k.HotGap = 20
		k.PreemptGap = 300
	case 5:
		k.PreemptGap = 60
		k.HotGap = 5
	case 6:
		k.HotGap = 8
		k.PreemptGap = 1000
		k.Starve = 70
	case 7:
		k.HotGap = 2
		k.Starve = 90
	case 8: // goroutines lose the processor for a while
		k.HotGap = 6
		k.StallPct = 2
		k.StallMaxMS = 20
	case 9:
		k.HotGap = 3
		k.StallPct = 1
		k.StallMaxMS = 60
	case 10:
		k.HotGap = 12
		k.PreemptGap = 300
		k.StallPct = 4
		k.StallMaxMS = 30
	}
	w := sim.Run(tape, k, func(w *sim.World) {
		w.CrashProp = prop
		w.TraceOn = trace
	}, func() {
		sc.Run(e)
	})
	return &Result{Violation: w.Violation, Hash: w.Hash(), Now: w.Now(), Steps: w.Steps(), Switches: w.Switches(), Faults: w.Faults,
		Probes: w.Probes, Capped: w.Capped, Trace: w.Trace, Tape: tape.Rec}
}

// ---------------------------------------------------------------- oracles

// Violate reports a violation of the property if it is the one being decided.
// Several properties that say so are separated by a bar.
func (e *Env) Violate(prop, class, format string, args ...any) {
	if strings.Contains("|"+prop+"|", "|"+e.Prop+"|") {
		sim.Violate(e.Prop, class, format, args...)
		return
	}
	sim.Probe("foreign:" + prop + ":" + class)
}

// Is reports whether one of the properties is being decided.
func (e *Env) Is(props ...string) bool {
	for _, p := range props {
		if p == e.Prop {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- draws

func cfg(n int) int             { return sim.Draw(sim.StreamCfg, n) }
func work(n int) int            { return sim.Draw(sim.StreamWork, n) }
func app(n int) int             { return sim.Draw(sim.StreamApp, n) }
func flt(n int) int             { return sim.Draw(sim.StreamFault, n) }
func cfgPick[T any](xs ...T) T  { return sim.Pick(sim.StreamCfg, xs...) }
func workPick[T any](xs ...T) T { return sim.Pick(sim.StreamWork, xs...) }
func cfgChance(n, d int) bool   { return sim.Chance(sim.StreamCfg, n, d) }
func appChance(n, d int) bool   { return sim.Chance(sim.StreamApp, n, d) }
func workChance(n, d int) bool  { return sim.Chance(sim.StreamWork, n, d) }
func fltChance(n, d int) bool   { return sim.Chance(sim.StreamFault, n, d) }
func sleep(ns int64)            { sim.Sleep(ns) }
func now() int64                { return sim.Now() }

// pause lets the application think for a moment.
func pause(maxMS int) {
	if maxMS > 0 {
		if d := app(maxMS + 1); d > 0 {
			sleep(int64(d) * MS)
		}
	}
}

// Call runs fn in its own goroutine and waits for it, at most bound; it
// reports whether fn returned in time.
func Call(name string, bound int64, fn func()) bool { return CallIn(sim.Owner(), name, bound, fn) }

// CallIn is Call in the name of an application process.
func CallIn(owner, name string, bound int64, fn func()) bool {
	done := false
	var wake func()
	sim.GoOwned(owner, name, func() {
		fn()
		done = true
		if wake != nil {
			wake()
		}
	})
	if !done {
		sim.Park("wait for "+name, func(wk func()) {
			wake = wk
			sim.After(bound, func() { wk() })
		})
	}
	return done
}

// Spawn starts an application goroutine of the process.
func Spawn(owner, name string, fn func()) { sim.GoOwned(owner, name, fn) }

// Group waits for goroutines of the workload.
type Group struct{ n int }

func (g *Group) Go(owner, name string, fn func()) {
	g.n++
	sim.GoOwned(owner, name, func() {
		fn()
		g.n--
	})
}

// Wait polls until every goroutine has returned or the bound has passed.
func (g *Group) Wait(bound int64) bool {
	end := now() + bound
	for g.n > 0 {
		if now() >= end {
			return false
		}
		sleep(2 * MS)
	}
	return true
}

// WaitFor polls a condition.
func WaitFor(bound int64, step int64, ok func() bool) bool {
	end := now() + bound
	for !ok() {
		if now() >= end {
			return false
		}
		sleep(step)
	}
	return true
}

// WaitMore is WaitFor, but for the bound on how long nothing gets further:
// however much there is to do, and however slowly it is configured to go.
func WaitMore(bound, step int64, far func() int64, ok func() bool) bool {
	best, end := far(), now()+bound
	for !ok() {
		if x := far(); x > best {
			best, end = x, now()+bound
		}
		if now() >= end {
			return false
		}
		sleep(step)
	}
	return true
}

// ---------------------------------------------------------------- cluster and faults

// Setup creates the network and the cluster.
func (e *Env) Setup(brokers int) {
	p := vnet.Profile{BaseUS: 100}
	switch cfg(5) {
	case 0:
	case 1:
		p.JitterUS = 2000
	case 2:
		p.JitterUS = 500
		p.FragPct = 60
		p.TinyPct = 30
	case 3:
		p.FragPct = 90
		p.TinyPct = 70
		p.JitterUS = 100
	case 4:
		p.BaseUS = 5000
		p.JitterUS = 30000
		p.FragPct = 20
		p.TinyPct = 10
	}
	p.SendBuf = cfgPick(0, 0, 16<<10, 3000)
	e.Net = vnet.New(p)
	e.C = kafka.NewWith(e.Net, brokers, cfgPick(1, 0, 1, 100), cfgPick(1, 1, 7))
	if cfgChance(1, 6) {
		e.C.SaslUser, e.C.SaslPass = "alice", "pass,word"
	}
	e.C.OnBad = e.onBad
	e.C.TruncTail = cfgChance(1, 2)
	e.C.NewTags = cfgChance(1, 4)
	if cfgChance(1, 4) { // brokers before 2.4, or some of them not upgraded yet
		v := kafka.VRange{Min: 0, Max: cfgPick[int16](8, 7, 5, 3)}
		if cfgChance(1, 2) {
			e.C.Versions[kafka.Produce] = v
		} else {
			e.C.Brokers[cfg(brokers)].SetVersion(kafka.Produce, v)
		}
	}
	if cfgChance(1, 4) {
		e.C.ClusterID = nil
	}
	e.C.Rotate = cfgPick(0, 0, 1, 2)
	e.C.Fault = e.reqFault
	if cfgChance(1, 3) { // in this run one kind of request fails often
		e.focus = 1 + cfgPick[int16](kafka.Metadata, kafka.Produce, kafka.Fetch, kafka.ListOffsets, kafka.FindCoordinator, kafka.JoinGroup, kafka.SyncGroup, kafka.Heartbeat, kafka.OffsetCommit, kafka.OffsetFetch, kafka.ApiVersions)
	}
}

// onBad runs when a broker refuses a request it should never have been sent.
func (e *Env) onBad(r *kafka.Req, what string) {
	if strings.Contains(what, "unauthenticated") {
		e.Violate("B04", "a request is sent before authentication has succeeded", "%s sends %s to broker %d: %s", r.Owner, kafka.APIName(r.API), r.Broker.ID, what)
		return
	}
	e.Violate("B05", "a request the broker cannot understand", "%s sends %s version %d to broker %d: %s", r.Owner, kafka.APIName(r.API), r.Ver, r.Broker.ID, what)
}

// sasl is the client side of the cluster's authentication.
func (e *Env) sasl() (c healer.SaslConfig) {
	if e.C.SaslUser != "" {
		c.Mechanism, c.User, c.Password = "PLAIN", e.C.SaslUser, e.C.SaslPass
	}
	return c
}

var errCodes = map[int16][]int16{
	kafka.Produce: {6, 7, 19, 5, 20, 56, -1}, kafka.Fetch: {6, 5, 9, 56, 76, -1}, kafka.ListOffsets: {6, 5, 9, -1}, kafka.Metadata: {5}, kafka.FindCoordinator: {15, 14},
	kafka.JoinGroup: {14, 15, 16}, kafka.SyncGroup: {16, 27, 15}, kafka.Heartbeat: {16, 27, 15}, kafka.OffsetCommit: {14, 16, 15, 7, -1},
	kafka.OffsetFetch: {14, 16, -1}, kafka.LeaveGroup: {16, 15}, kafka.ListGroups: {15, 14}, kafka.DescribeGroups: {15, 14}, kafka.DescribeConfigs: {29, 7},
	kafka.ApiVersions: {35},
}

func (e *Env) reqFault(r *kafka.Req) kafka.Action {
	if e.Persist != nil {
		if a := e.Persist(r); a.Kind != "" {
			return a
		}
	}
	if e.Perm <= 0 || now() >= e.Until {
		return kafka.Action{}
	}
	if e.Only != nil && !e.Only(r) {
		return kafka.Action{}
	}
	kinds := e.Kinds
	switch {
	case e.focus != 0 && r.API == e.focus-1 && fltChance(1, 3):
		if fltChance(2, 3) && !e.NoErr && len(errCodes[r.API]) > 0 && (kinds == nil || slices.Contains(kinds, "error")) {
			kinds = []string{"error"}
		}
	case !fltChance(e.Perm, 1000):
		return kafka.Action{}
	}
	if kinds == nil {
		kinds = []string{"close-before", "process-close", "delay", "error", "cut", "stall", "rst-before", "process-rst", "cut-rst", "stall-before", "half-stall", "delay"}
	}
	a := kafka.Action{Kind: kinds[flt(len(kinds))]}
	switch a.Kind {
	case "error":
		cs := errCodes[r.API]
		if len(cs) == 0 || e.NoErr {
			return kafka.Action{}
		}
		a.ErrCode = cs[flt(len(cs))]
	case "delay":
		a.Delay = int64(1+flt(8000)) * MS
	case "cut", "cut-rst", "half-stall":
		if fltChance(1, 2) {
			a.Cut = flt(60)
		} else {
			a.Cut = flt(100000)
		}
	}
	return a
}

// Chaos schedules cluster and network faults until e.Until and repairs
// everything by then.
func (e *Env) Chaos(kinds []string, n int) {
	if len(kinds) == 0 || n <= 0 || e.Until <= now() {
		return
	}
	span := e.Until - now()
	for i := 0; i < n; i++ {
		at := int64(flt(1000)) * span / 1000
		kind := kinds[flt(len(kinds))]
		dur := int64(20+flt(4000)) * MS
		sim.After(at, func() { e.one(kind, dur) })
	}
	sim.After(span, func() { e.HealAll() })
}

// HealAll repairs every broker and partition.
func (e *Env) HealAll() {
	for _, b := range e.C.Brokers {
		e.C.Restart(b.ID)
		e.Net.Heal("*", b.Addr)
	}
	stime.Skew = 0
	sim.Log("all faults repaired")
}

func (e *Env) pickBroker() *kafka.Broker { return e.C.Brokers[flt(len(e.C.Brokers))] }

func (e *Env) one(kind string, dur int64) {
	if now() >= e.Until {
		return
	}
	if now()+dur > e.Until {
		dur = e.Until - now()
	}
	switch kind {
	case "crash", "crash-silent":
		up := 0
		for _, b := range e.C.Brokers {
			if b.Up {
				up++
			}
		}
		b := e.pickBroker()
		if !b.Up {
			return
		}
		_ = up
		e.C.Crash(b.ID, kind == "crash-silent")
		sim.After(dur, func() { e.C.Restart(b.ID) })
	case "loss", "loss-silent":
		e.C.Lose(e.pickBroker().ID, kind == "loss-silent")
	case "partition":
		b := e.pickBroker()
		e.Net.Cut("*", b.Addr)
		sim.After(dur, func() { e.Net.Heal("*", b.Addr) })
	case "leader":
		ns := e.C.TopicNames()
		if len(ns) == 0 {
			return
		}
		t := e.C.Topic(ns[flt(len(ns))])
		if len(t.Parts) > 0 {
			e.C.MoveLeader(t.Parts[flt(len(t.Parts))])
		}
	case "noleader":
		ns := e.C.TopicNames()
		if len(ns) == 0 {
			return
		}
		t := e.C.Topic(ns[flt(len(ns))])
		if len(t.Parts) > 0 {
			e.C.Vacate(t.Parts[flt(len(t.Parts))], dur)
		}
	case "coord":
		gs := e.C.GroupNames()
		if len(gs) > 0 {
			e.C.MoveCoord(gs[flt(len(gs))])
		}
	case "reset":
		for _, c := range e.Net.Live() {
			if fltChance(1, 2) {
				c.Abort()
				sim.Fault("connection-reset")
			}
		}
	case "blackhole":
		l := e.Net.Live()
		if len(l) > 0 {
			l[flt(len(l))].Hold = true
			sim.Fault("connection-blackhole")
		}
	case "skew":
		stime.Skew = time.Duration(int64(flt(7200)-3600) * SEC)
		sim.Fault("clock-jump")
	case "controller":
		var up []*kafka.Broker
		for _, b := range e.C.Brokers {
			if b.Up && b.ID != e.C.Controller {
				up = append(up, b)
			}
		}
		if len(up) > 0 {
			e.C.Controller = up[flt(len(up))].ID
			e.CtlMoves++
			sim.Fault("controller-move")
		}
	}
}

// ---------------------------------------------------------------- small helpers

func same(a, b []byte) bool { return bytes.Equal(a, b) && (a == nil) == (b == nil) }

func short(b []byte) string {
	if b == nil {
		return "nil"
	}
	if len(b) > 24 {
		return fmt.Sprintf("%q..(%d)", b[:24], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// payload makes a value that carries an identity and has the given size.
func payload(id string, size int, kind int) []byte {
	b := []byte(id + "|")
	switch kind {
	case 0:
		for len(b) < size {
			b = append(b, 'x')
		}
	case 1: // incompressible
		s := uint64(len(id))*7919 + 12345
		for _, c := range id {
			s = s*31 + uint64(c)
		}
		for len(b) < size {
			s = s*6364136223846793005 + 1442695040888963407
			b = append(b, byte(s>>33))
		}
	case 2:
		for i := 0; len(b) < size; i++ {
			b = append(b, byte(i))
		}
	}
	return b
}

func idOf(v []byte) string {
	if i := bytes.IndexByte(v, '|'); i >= 0 {
		return string(v[:i])
	}
	return "?"
}

func conns(cs []*vnet.Conn) string {
	var s []string
	for _, c := range cs {
		s = append(s, fmt.Sprintf("conn %d to %s", c.ID, c.Addr))
	}
	return strings.Join(s, ", ")
}
