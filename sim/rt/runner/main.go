// Command simrunner searches schedules and fault sequences of the simulated
// system for violations of one property, minimises what it finds and replays it.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/childe/healer/zz_sim/scen"
	"github.com/childe/healer/zz_sim/sim"
)

// Replay is the replay file.
type Replay struct {
	Property  string         `json:"property"`
	Scenario  string         `json:"scenario"`
	Seed      uint64         `json:"seed"`
	Fatal     bool           `json:"fatal,omitempty"`
	Violation *sim.Violation `json:"violation"`
	Hash      uint64         `json:"hash"`
	Faults    map[string]int `json:"faults"`
	Decisions int            `json:"nonzero_decisions"`
	Original  int            `json:"nonzero_decisions_before_minimising"`
	Trace     []string       `json:"trace"`
	Tape      *sim.TapeData  `json:"tape"`
}

type sample struct {
	Seed     uint64         `json:"seed"`
	Scenario string         `json:"scenario"`
	SimS     float64        `json:"simulated_s"`
	Switches uint64         `json:"context_switches"`
	Faults   map[string]int `json:"faults"`
	Hash     string         `json:"hash"`
	Probes   map[string]int `json:"probes,omitempty"`
}

// msg is one line from a worker.
type msg struct {
	Kind     string            `json:"k"` // start, viol, done
	Seed     uint64            `json:"seed,omitempty"`
	Scenario string            `json:"sc,omitempty"`
	Runs     int               `json:"runs,omitempty"`
	PerSc    map[string]int    `json:"per,omitempty"`
	Capped   int               `json:"capped,omitempty"`
	SimNS    int64             `json:"sim,omitempty"`
	Steps    uint64            `json:"steps,omitempty"`
	Switches uint64            `json:"sw,omitempty"`
	Faults   map[string]int    `json:"faults,omitempty"`
	Probes   map[string]int    `json:"probes,omitempty"`
	Hashes   []uint64          `json:"hashes,omitempty"`
	Known    map[string]int    `json:"known,omitempty"`
	Samples  []sample          `json:"samples,omitempty"`
	V        *sim.Violation    `json:"v,omitempty"`
	Tape     *sim.TapeData     `json:"tape,omitempty"`
	Hash     uint64            `json:"hash,omitempty"`
	Foreign  map[string]uint64 `json:"foreign,omitempty"`
}

func mix(a, b uint64) uint64 {
	z := a*0x9e3779b97f4a7c15 + b + 0x632be59bd9b4e019
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func hashStr(s string) uint64 {
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func runSeed(prop string, sc *scen.Scenario, seed uint64, trace bool) *scen.Result {
	return scen.RunOne(prop, sc, sim.NewTape(seed), trace)
}

func runTape(prop string, sc *scen.Scenario, d sim.TapeData, trace bool) *scen.Result {
	return scen.RunOne(prop, sc, sim.ReplayTape(d), trace)
}

// ---------------------------------------------------------------- known findings

type finding struct{ prop, class, detail string }

// loadKnown reads lines `known: property=P10 class="..." detail="..." text`.
func loadKnown(path string) []finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var f finding
		l = strings.TrimPrefix(l, "known: ")
		for _, k := range []struct {
			n string
			p *string
		}{{"property=", &f.prop}, {"class=", &f.class}, {"detail=", &f.detail}} {
			i := strings.Index(l, k.n)
			if i < 0 {
				continue
			}
			s := l[i+len(k.n):]
			if strings.HasPrefix(s, `"`) {
				if j := strings.Index(s[1:], `"`); j >= 0 {
					*k.p = s[1 : 1+j]
				}
			} else {
				*k.p = strings.Fields(s)[0]
			}
		}
		if f.prop != "" && f.class != "" {
			out = append(out, f)
		}
	}
	return out
}

func isKnown(fs []finding, v *sim.Violation) *finding {
	for i := range fs {
		f := &fs[i]
		if f.prop == v.Property && v.Class == f.class && strings.Contains(v.Detail, f.detail) {
			return f
		}
	}
	return nil
}

// ---------------------------------------------------------------- worker

func worker(prop string, base uint64, idx, n int, deadline time.Time, max int, known []finding, only string, keep bool) {
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	scs := scen.ForProp(prop)
	if only != "" {
		scs = []*scen.Scenario{scen.Find(only)}
	}
	m := msg{Kind: "done", Faults: map[string]int{}, Probes: map[string]int{}, Known: map[string]int{}, PerSc: map[string]int{}, Foreign: map[string]uint64{}}
	hs := map[uint64]bool{}
	for i := 0; ; i++ {
		if time.Now().After(deadline) || (max > 0 && i >= max) {
			break
		}
		k := i*n + idx
		seed := mix(base^hashStr(prop), uint64(k))
		sc := scs[k%len(scs)]
		enc.Encode(msg{Kind: "start", Seed: seed, Scenario: sc.Name})
		out.Flush()
		r := runSeed(prop, sc, seed, false)
		m.Runs++
		m.PerSc[sc.Name]++
		if r.Capped {
			m.Capped++
		}
		m.SimNS += r.Now
		m.Steps += r.Steps
		m.Switches += r.Switches
		for f, c := range r.Faults {
			m.Faults[f] += c
		}
		for f, c := range r.Probes {
			m.Probes[f] += c
			if strings.HasPrefix(f, "foreign:") && m.Foreign[f] == 0 {
				m.Foreign[f] = seed
			}
		}
		if r.Switches >= 20 {
			hs[r.Hash] = true
		}
		if len(m.Samples) < 2 && (r.Switches > 50 && len(r.Faults) > 0 || i == 40) {
			m.Samples = append(m.Samples, sample{seed, sc.Name, float64(r.Now) / 1e9, r.Switches, r.Faults, fmt.Sprintf("%016x", r.Hash), r.Probes})
		}
		if r.Violation != nil {
			if f := isKnown(known, r.Violation); f != nil {
				m.Known[f.class+" "+f.detail]++
				continue
			}
			enc.Encode(msg{Kind: "viol", Seed: seed, Scenario: sc.Name, V: r.Violation, Tape: &r.Tape, Hash: r.Hash})
			out.Flush()
			if !keep {
				break
			}
		}
		if i%64 == 63 {
			// leaked goroutines of unwound runs would slow everything down
			if runtime.NumGoroutine() > 2000 {
				break
			}
		}
	}
	for h := range hs {
		m.Hashes = append(m.Hashes, h)
	}
	enc.Encode(m)
	out.Flush()
}

// ---------------------------------------------------------------- shrinking

func nonzero(d *sim.TapeData) int {
	n := 0
	for _, s := range d.Streams {
		for _, v := range s {
			if v != 0 {
				n++
			}
		}
	}
	for _, p := range d.Preempts {
		n += len(p)
	}
	return n
}

func clone(d sim.TapeData) sim.TapeData {
	var o sim.TapeData
	for _, s := range d.Streams {
		o.Streams = append(o.Streams, append([]int(nil), s...))
	}
	for _, p := range d.Preempts {
		o.Preempts = append(o.Preempts, append([]sim.Preempt(nil), p...))
	}
	return o
}

func trim(d sim.TapeData) sim.TapeData {
	for i, s := range d.Streams {
		n := len(s)
		for n > 0 && s[n-1] == 0 {
			n--
		}
		d.Streams[i] = s[:n]
	}
	return d
}

func shrink(prop string, sc *scen.Scenario, d sim.TapeData, class string, deadline time.Time) sim.TapeData {
	best := clone(d)
	try := func(c sim.TapeData) bool {
		if time.Now().After(deadline) {
			return false
		}
		r := runTape(prop, sc, c, false)
		if r.Violation != nil && r.Violation.Property == prop && r.Violation.Class == class {
			best = trim(clone(r.Tape))
			if nonzero(&c) < nonzero(&best) {
				best = trim(clone(c))
			}
			return true
		}
		return false
	}
	for round := 0; round < 4; round++ {
		before := nonzero(&best)
		// drop whole streams and preemption lists first
		for i := range best.Preempts {
			if len(best.Preempts[i]) > 0 {
				c := clone(best)
				c.Preempts[i] = nil
				try(c)
			}
		}
		for i := range best.Streams {
			c := clone(best)
			for j := range c.Streams[i] {
				c.Streams[i][j] = 0
			}
			if nonzero(&c) < nonzero(&best) {
				try(c)
			}
		}
		for i := range best.Preempts {
			for size := (len(best.Preempts[i]) + 1) / 2; size >= 1; size /= 2 {
				for at := 0; at < len(best.Preempts[i]); {
					c := clone(best)
					end := at + size
					if end > len(c.Preempts[i]) {
						end = len(c.Preempts[i])
					}
					c.Preempts[i] = append(c.Preempts[i][:at:at], c.Preempts[i][end:]...)
					if !try(c) {
						at += size
					}
					if time.Now().After(deadline) {
						return best
					}
				}
			}
		}
		for i := range best.Streams {
			for size := (len(best.Streams[i]) + 1) / 2; size >= 1; size /= 2 {
				for at := 0; at < len(best.Streams[i]); at += size {
					c := clone(best)
					any := false
					for j := at; j < at+size && j < len(c.Streams[i]); j++ {
						if c.Streams[i][j] != 0 {
							any = true
						}
						c.Streams[i][j] = 0
					}
					if any {
						try(c)
					}
					if time.Now().After(deadline) {
						return best
					}
				}
			}
		}
		if nonzero(&best) >= before {
			break
		}
	}
	return best
}

func writeReplay(path string, rp *Replay) {
	b, _ := json.MarshalIndent(rp, "", " ")
	os.MkdirAll(filepath.Dir(path), 0o755)
	os.WriteFile(path, append(b, '\n'), 0o644)
}

func cmdShrink(in, out string, budget time.Duration) {
	var m msg
	b, err := os.ReadFile(in)
	if err != nil || json.Unmarshal(b, &m) != nil {
		fmt.Fprintln(os.Stderr, "cannot read", in)
		os.Exit(3)
	}
	sc := scen.Find(m.Scenario)
	deadline := time.Now().Add(budget)
	best := shrink(m.V.Property, sc, *m.Tape, m.V.Class, deadline)
	r := runTape(m.V.Property, sc, best, true)
	if r.Violation == nil || r.Violation.Class != m.V.Class {
		best = *m.Tape
		r = runTape(m.V.Property, sc, best, true)
	}
	if r.Violation == nil {
		fmt.Fprintln(os.Stderr, "the recorded schedule does not reproduce the violation: simulation is not deterministic")
		os.Exit(3)
	}
	writeReplay(out, &Replay{Property: m.V.Property, Scenario: m.Scenario, Seed: m.Seed, Violation: r.Violation, Hash: r.Hash, Faults: r.Faults,
		Decisions: nonzero(&best), Original: nonzero(m.Tape), Trace: r.Trace, Tape: &best})
}

func cmdReplay(path string, quiet bool) int {
	var rp Replay
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	sc := scen.Find(rp.Scenario)
	if sc == nil {
		fmt.Fprintln(os.Stderr, "unknown scenario", rp.Scenario)
		return 2
	}
	var r *scen.Result
	if rp.Tape != nil {
		r = runTape(rp.Property, sc, *rp.Tape, true)
	} else {
		r = runSeed(rp.Property, sc, rp.Seed, true)
	}
	if !quiet {
		for _, l := range r.Trace {
			fmt.Println(l)
		}
	}
	if r.Violation == nil {
		fmt.Println("no violation: the recorded schedule no longer fails on this tree")
		return 0
	}
	fmt.Printf("%s: %s\n%s\n", r.Violation.Property, r.Violation.Class, r.Violation.Detail)
	if r.Hash == rp.Hash && rp.Violation != nil && r.Violation.Class == rp.Violation.Class {
		fmt.Println("reproduced exactly (same event hash)")
	} else {
		fmt.Printf("violation of the same run, but the event hash differs (%x, recorded %x)\n", r.Hash, rp.Hash)
		if rp.Violation != nil && rp.Violation.Class != r.Violation.Class {
			return 4
		}
		if !rp.Fatal {
			return 5
		}
	}
	return 1
}

// ---------------------------------------------------------------- parent

// precheck runs some seeds three times and compares.
func precheck(prop string, base uint64) int {
	scs := scen.ForProp(prop)
	for i := 0; i < 2*len(scs) && i < 6; i++ {
		sc := scs[i%len(scs)]
		seed := mix(base^hashStr(prop)^77, uint64(i))
		a := runSeed(prop, sc, seed, false)
		b := runSeed(prop, sc, seed, false)
		c := runTape(prop, sc, a.Tape, false)
		if a.Hash != b.Hash || a.Hash != c.Hash {
			fmt.Fprintf(os.Stderr, "determinism check failed: scenario %s seed %d: %x %x %x\n", sc.Name, seed, a.Hash, b.Hash, c.Hash)
			return 7
		}
	}
	return 0
}

type parentCfg struct {
	prop, tier, evid, replays, known, level string
	seed                                    uint64
	budget                                  time.Duration
	workers, max                            int
	only                                    string
	keep                                    bool
}

func parent(pc parentCfg) int {
	t0 := time.Now()
	self, _ := os.Executable()
	scs := scen.ForProp(pc.prop)
	if len(scs) == 0 {
		fmt.Fprintln(os.Stderr, "no scenario evaluates", pc.prop)
		return 2
	}
	// determinism: the same seeds give the same event hash; in a process of its own, since a run may end it
	pre := exec.Command(self, "precheck", "-prop", pc.prop, "-seed", fmt.Sprint(pc.seed))
	pre.Env = append(os.Environ(), "GOMEMLIMIT=2500MiB", "GOTRACEBACK=single")
	if o, err := pre.CombinedOutput(); err != nil {
		if ee, is := err.(*exec.ExitError); is && ee.ExitCode() == 7 {
			fmt.Fprintf(os.Stderr, "%s", o)
			return 2
		}
	}
	deadline := time.Now().Add(pc.budget)
	type end struct {
		idx  int
		err  error
		last msg
		errs string
	}
	ch := make(chan end, pc.workers)
	var mu sync.Mutex
	var dones []msg
	var viols []msg
	var cmds []*exec.Cmd
	stop := false
	for i := 0; i < pc.workers; i++ {
		c := exec.Command(self, "worker", "-prop", pc.prop, "-seed", fmt.Sprint(pc.seed), "-idx", fmt.Sprint(i), "-n", fmt.Sprint(pc.workers),
			"-budget", fmt.Sprint(time.Until(deadline)), "-max", fmt.Sprint(pc.max), "-known", pc.known, "-only", pc.only, "-keep="+fmt.Sprint(pc.keep))
		c.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200", "GOMEMLIMIT=2500MiB", "GOTRACEBACK=single")
		p, _ := c.StdoutPipe()
		var eb bytes.Buffer
		c.Stderr = &eb
		if err := c.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		cmds = append(cmds, c)
		go func(i int, c *exec.Cmd) {
			var last msg
			sc := bufio.NewScanner(p)
			sc.Buffer(make([]byte, 1<<20), 1<<30)
			fin := false
			for sc.Scan() {
				var m msg
				if json.Unmarshal(sc.Bytes(), &m) != nil {
					continue
				}
				mu.Lock()
				switch m.Kind {
				case "start":
					last = m
				case "done":
					dones = append(dones, m)
					fin = true
				case "viol":
					viols = append(viols, m)
					if !pc.keep && !stop {
						stop = true
						for j, o := range cmds {
							if j != i && o.Process != nil {
								o.Process.Kill()
							}
						}
					}
				}
				mu.Unlock()
			}
			err := c.Wait()
			if fin {
				err = nil
			}
			s := eb.String()
			if len(s) > 4000 {
				s = s[:4000]
			}
			ch <- end{i, err, last, s}
		}(i, c)
	}
	// a worker that hangs in real time has left the simulator's control
	hang := time.AfterFunc(pc.budget+90*time.Second, func() {
		mu.Lock()
		for _, o := range cmds {
			o.Process.Kill()
		}
		mu.Unlock()
	})
	var died []end
	for range cmds {
		e := <-ch
		mu.Lock()
		s := stop
		mu.Unlock()
		if e.err != nil && !s {
			died = append(died, e)
		}
	}
	hang.Stop()

	if pc.keep {
		by := map[string]int{}
		ex := map[string]msg{}
		for _, v := range viols {
			k := v.V.Property + " " + v.V.Class
			by[k]++
			if o, ok := ex[k]; !ok || nonzero(v.Tape) < nonzero(o.Tape) {
				ex[k] = v
			}
		}
		var ks []string
		for k := range by {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			d := ex[k].V.Detail
			if len(d) > 1500 {
				d = d[:1500]
			}
			fmt.Printf("== %d x %s\n   e.g. scenario %s seed %d\n%s\n", by[k], k, ex[k].Scenario, ex[k].Seed, d)
		}
	}

	code := 0
	nviol := 0
	if len(viols) > 0 && !pc.keep {
		nviol = 1
		v := viols[0]
		tmp, _ := os.MkdirTemp("", "simshrink")
		defer os.RemoveAll(tmp)
		in := filepath.Join(tmp, "in.json")
		b, _ := json.Marshal(v)
		os.WriteFile(in, b, 0o644)
		path := filepath.Join(pc.replays, fmt.Sprintf("%s-%s-%d.json", pc.prop, v.Scenario, v.Seed))
		sh := exec.Command(self, "shrink", in, path, "20s")
		sh.Stderr = os.Stderr
		if sh.Run() != nil {
			// the search for a smaller one ended the process: keep it as it is
			writeReplay(path, &Replay{Property: v.V.Property, Scenario: v.Scenario, Seed: v.Seed, Violation: v.V, Hash: v.Hash,
				Decisions: nonzero(v.Tape), Original: nonzero(v.Tape), Tape: v.Tape})
		}
		{
			rp := exec.Command(self, "replay", "-quiet", path)
			o, err := rp.CombinedOutput()
			if ee, is := err.(*exec.ExitError); !is || ee.ExitCode() != 1 {
				fmt.Fprintf(os.Stderr, "replay in a fresh process did not reproduce the violation:\n%s\n", o)
				return 2
			}
			fmt.Printf("%s", o)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", pc.prop, path)
		code = 1
	} else if len(died) > 0 {
		// a run ended the worker process (fatal error, stack overflow, out of memory): try it again alone
		e := died[0]
		path := filepath.Join(pc.replays, fmt.Sprintf("%s-%s-%d.json", pc.prop, e.last.Scenario, e.last.Seed))
		line := "worker process ended"
		for _, l := range strings.Split(e.errs, "\n") {
			if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime:") || strings.HasPrefix(l, "panic:") {
				line = l
				break
			}
		}
		writeReplay(path, &Replay{Property: pc.prop, Scenario: e.last.Scenario, Seed: e.last.Seed, Fatal: true,
			Violation: &sim.Violation{Property: pc.prop, Class: "fatal: " + line, Detail: e.errs}})
		rp := exec.Command(self, "replay", "-quiet", path)
		rp.Env = append(os.Environ(), "GOMEMLIMIT=2500MiB")
		var ob bytes.Buffer
		rp.Stdout, rp.Stderr = &ob, &ob
		rp.Start()
		tm := time.AfterFunc(60*time.Second, func() { rp.Process.Kill() })
		err := rp.Wait()
		slow := !tm.Stop()
		if ee, is := err.(*exec.ExitError); is && !slow && (strings.Contains(ob.String(), "fatal error") || strings.Contains(ob.String(), "goroutine stack exceeds")) && ee.ExitCode() != 0 {
			fmt.Printf("the process died in scenario %s seed %d, and again when replayed: %s\n", e.last.Scenario, e.last.Seed, line)
			fmt.Printf("VIOLATION property=%s replay=%s\n", pc.prop, path)
			nviol = 1
			code = 1
		} else {
			fmt.Fprintf(os.Stderr, "worker %d ended abnormally at scenario %s seed %d: %v\n%s\n", e.idx, e.last.Scenario, e.last.Seed, e.err, e.errs)
			return 2
		}
	}

	// evidence
	tot := msg{Faults: map[string]int{}, Probes: map[string]int{}, Known: map[string]int{}, PerSc: map[string]int{}, Foreign: map[string]uint64{}}
	hs := map[uint64]bool{}
	for _, d := range dones {
		tot.Runs += d.Runs
		tot.Capped += d.Capped
		tot.SimNS += d.SimNS
		tot.Steps += d.Steps
		tot.Switches += d.Switches
		for k, v := range d.Faults {
			tot.Faults[k] += v
		}
		for k, v := range d.Probes {
			tot.Probes[k] += v
		}
		for k, v := range d.Known {
			tot.Known[k] += v
		}
		for k, v := range d.PerSc {
			tot.PerSc[k] += v
		}
		for k, v := range d.Foreign {
			tot.Foreign[k] = v
		}
		for _, h := range d.Hashes {
			hs[h] = true
		}
		if len(tot.Samples) < 4 {
			tot.Samples = append(tot.Samples, d.Samples...)
		}
	}
	for k, n := range tot.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (met in %d runs)\n", pc.prop, k, n)
	}
	if pc.keep {
		var ks []string
		for k, s := range tot.Foreign {
			ks = append(ks, fmt.Sprintf("%s x%d seed %d", k, tot.Probes[k], s))
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, "\n"))
	}
	wall := time.Since(t0).Seconds()
	rate := float64(tot.Runs) / wall * 3600
	probes := map[string]int{}
	for k, v := range tot.Probes {
		if !strings.HasPrefix(k, "foreign:") {
			probes[k] = v
		}
	}
	ev := map[string]any{
		"property": pc.prop, "tier": pc.tier, "seed": pc.seed, "level": pc.level, "wall_s": wall, "violations": nviol,
		"coverage": map[string]any{
			"evaluations": tot.Runs, "distinct_nontrivial": len(hs),
			"rule":    "one evaluation is one simulated execution from one seed; two executions are distinct when the 64-bit hash over every scheduling decision, message and recorded event of the run differs; an execution is non-trivial when the scheduler switched between goroutines at least 20 times",
			"samples": tot.Samples, "scenarios": tot.PerSc, "runs_per_hour": int(rate), "seeds": "one per run",
			"simulated_seconds": float64(tot.SimNS) / 1e9, "statements_executed": tot.Steps, "context_switches": tot.Switches,
			"faults_injected": tot.Faults, "conditions_reached": probes, "runs_cut_by_statement_cap": tot.Capped,
			"determinism_check":    "first seeds executed twice and replayed from the recorded tape with equal event hash before the search",
			"real_components":      []string{"every non-test Go file of package github.com/childe/healer", "command/healer/cmd/apicontrollers with gin"},
			"simulated_components": []string{"goroutine scheduling, channels, select and sync", "time and timers", "context", "math/rand and map iteration order", "TCP (net.Dialer, net.Conn)"},
			"stubbed_components":   []string{"Kafka brokers (executable model: logs, leaders, group coordinator, controller, SASL, admin)", "crypto/tls (not simulated)", "os.Hostname, os.Getpid"},
			"known_findings_met":   tot.Known,
		},
		"assumptions": []string{
			"preemption happens at statement boundaries and synchronisation operations of the code under test; memory is sequentially consistent",
			"the broker model follows the Kafka protocol as documented; one committed copy of each log",
			"absence of a violation is established for the executed seeds only",
		},
	}
	if err := os.MkdirAll(pc.evid, 0o755); err == nil {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(pc.evid, pc.prop+".json"), append(b, '\n'), 0o644)
	}
	if code == 0 && !pc.keep && tot.Runs == 0 {
		fmt.Fprintln(os.Stderr, "no run completed")
		return 2
	}
	fmt.Printf("%s: %d runs, %d distinct, %.0f simulated s, %.1f s wall, scenarios %v\n", pc.prop, tot.Runs, len(hs), float64(tot.SimNS)/1e9, wall, tot.PerSc)
	if pc.keep {
		fmt.Println("faults", tot.Faults)
		fmt.Println("probes", probes)
	}
	return code
}

func main() {
	debug.SetTraceback("single")
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simrunner check|worker|replay|shrink|hash|list ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	idx := fs.Int("idx", 0, "")
	n := fs.Int("n", 1, "")
	budget := fs.Duration("budget", 40*time.Second, "")
	max := fs.Int("max", 0, "")
	known := fs.String("known", "", "")
	only := fs.String("only", "", "")
	keep := fs.Bool("keep", false, "")
	tier := fs.String("tier", "quick", "")
	evid := fs.String("evidence", "", "")
	reps := fs.String("replays", "/tmp", "")
	quiet := fs.Bool("quiet", false, "")
	workers := fs.Int("workers", 8, "")
	trace := fs.Bool("trace", false, "")
	if os.Args[1] != "check" {
		// a run that asks for absurd amounts of memory ends its own process only
		lim := &syscall.Rlimit{Cur: 3500 << 20, Max: 3500 << 20}
		syscall.Setrlimit(syscall.RLIMIT_AS, lim)
	}
	switch os.Args[1] {
	case "precheck":
		fs.Parse(os.Args[2:])
		os.Exit(precheck(*prop, *seed))
	case "check":
		fs.Parse(os.Args[2:])
		os.Exit(parent(parentCfg{prop: *prop, tier: *tier, evid: *evid, replays: *reps, known: *known, level: "exploration", seed: *seed, budget: *budget,
			workers: *workers, max: *max, only: *only, keep: *keep}))
	case "worker":
		fs.Parse(os.Args[2:])
		worker(*prop, *seed, *idx, *n, time.Now().Add(*budget), *max, loadKnown(*known), *only, *keep)
	case "shrink":
		d, _ := time.ParseDuration(os.Args[4])
		cmdShrink(os.Args[2], os.Args[3], d)
	case "replay":
		fs.Parse(os.Args[2:])
		os.Exit(cmdReplay(fs.Arg(0), *quiet))
	case "run": // one seed of one scenario
		fs.Parse(os.Args[2:])
		r := runSeed(*prop, scen.Find(*only), *seed, *trace)
		for _, l := range r.Trace {
			fmt.Println(l)
		}
		fmt.Printf("hash %016x sim %.3fs steps %d switches %d faults %v probes %v capped %v\n", r.Hash, float64(r.Now)/1e9, r.Steps, r.Switches, r.Faults, r.Probes, r.Capped)
		if r.Violation != nil {
			fmt.Printf("VIOLATION %s %s\n%s\n", r.Violation.Property, r.Violation.Class, r.Violation.Detail)
			os.Exit(1)
		}
	case "hash": // hashes of a range of seeds, for cross-process determinism tests
		fs.Parse(os.Args[2:])
		scs := scen.ForProp(*prop)
		for i := 0; i < *max; i++ {
			sd := mix(*seed, uint64(i))
			r := runSeed(*prop, scs[i%len(scs)], sd, false)
			fmt.Printf("%d %s %016x\n", sd, scs[i%len(scs)].Name, r.Hash)
		}
	case "list":
		for _, p := range scen.Props() {
			var s []string
			for _, x := range scen.ForProp(p) {
				s = append(s, x.Name)
			}
			fmt.Println(p, strings.Join(s, " "))
		}
	default:
		os.Exit(2)
	}
}
