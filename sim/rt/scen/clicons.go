package scen

import (
	"fmt"
	"os"
	"strconv"
	"strings"

	"github.com/childe/healer"
	"github.com/childe/healer/zz_sim/kafka"
	"github.com/childe/healer/zz_sim/sim"
	"github.com/childe/healer/zz_sim/ssignal"
)

func init() {
	register("cli-consume", func(e *Env) { cliConsume(e, false) }, "T04")
	register("cli-consume-faults", func(e *Env) { cliConsume(e, true) }, "T04")
	register("cli-group", func(e *Env) { cliGroup(e, false) }, "T04")
	register("cli-group-faults", func(e *Env) { cliGroup(e, true) }, "T04")
}

// fillText appends a batch of text values.
func (a *archive) fillText(s style, plain bool) {
	if s.ctl && workChance(1, 6) {
		a.p.Control()
		return
	}
	ts := (sim.EpochNS + now()) / 1000000
	var recs []kafka.Rec
	for i := 1 + work(s.maxRec); i > 0; i-- {
		a.seq++
		size := work(30)
		if s.big > 0 && workChance(1, 4) {
			size = work(s.big)
		}
		r := kafka.Rec{Key: pkey(work(5)), Val: payload(fmt.Sprintf("%s-%d-%d", a.p.Topic, a.p.ID, a.seq), size, 0), TS: ts + int64(work(50))}
		if !plain {
			r.Val = payload(fmt.Sprintf("%s-%d-%d", a.p.Topic, a.p.ID, a.seq), size, work(3))
			switch work(14) {
			case 0:
				r.Val = nil
			case 1:
				r.Val = []byte{}
			}
		}
		recs = append(recs, r)
	}
	a.note(a.p.Append(s.magic[work(len(s.magic))], s.codec[work(len(s.codec))], recs, ts))
}

// output reads a consuming command's standard output as messages; the last
// line may be incomplete if the process was killed.
type output struct {
	e      *Env
	kind   string // simple, console, group
	format string // plain, bare, json
	as     map[string]*archive
	part   string // of the simple consumer
	n      int    // bytes read so far
	lines  int
	see    func(k string, m *healer.FullMessage)
}

func (o *output) bad(what, format string, x ...any) { o.e.Violate("T04", what, format, x...) }

// read takes in what was printed since.
func (o *output) read(out []byte) bool {
	for {
		i := strings.IndexByte(string(out[o.n:]), '\n')
		if i < 0 {
			return true
		}
		l := string(out[o.n : o.n+i])
		o.n += i + 1
		o.lines++
		if !o.line(l) {
			return false
		}
	}
}

func (o *output) line(l string) bool {
	m := &healer.FullMessage{Message: &healer.Message{}}
	switch {
	case o.format == "json" && o.kind == "simple":
		if err := decode(l, m.Message); err != nil {
			o.bad("a printed line is not a JSON document", "%.200q: %v", l, err)
			return false
		}
		m.TopicName, m.PartitionID = o.as[o.part].p.Topic, o.as[o.part].p.ID
	case o.format == "json":
		if err := decode(l, m); err != nil || m.Message == nil {
			o.bad("a printed line is not a JSON document", "%.200q: %v", l, err)
			return false
		}
	default:
		val, off := l, int64(-1)
		if o.kind == "group" {
			f := strings.SplitN(l, ":", 3)
			pid, err := strconv.Atoi(f[min(1, len(f)-1)])
			if len(f) != 3 || err != nil {
				o.bad("a printed line is malformed", "%.200q", l)
				return false
			}
			m.TopicName, m.PartitionID, val = f[0], int32(pid), f[2]
		}
		if o.format == "plain" {
			x, v, ok := strings.Cut(val, ": ")
			n, err := strconv.ParseInt(x, 10, 64)
			if !ok || err != nil {
				o.bad("a printed line is malformed", "%.200q", l)
				return false
			}
			off, val = n, v
		}
		// the value tells which record it is
		f := strings.Split(idOf([]byte(val)), "-")
		var rec *kafka.Rec
		if len(f) == 3 {
			if a := o.as[f[0]+"-"+f[1]]; a != nil {
				for _, off := range a.offs {
					if x := a.recs[off]; string(x.Val) == val {
						rec = &x
						if m.TopicName == "" {
							m.TopicName, m.PartitionID = a.p.Topic, a.p.ID
						}
					}
				}
			}
		}
		if rec == nil {
			o.bad("a line was printed that is no message's value", "%.200q", l)
			return false
		}
		if off >= 0 && off != rec.Off {
			o.bad("a message is printed with another offset", "%.200q, not %d", l, rec.Off)
			return false
		}
		m.Message = &healer.Message{Offset: rec.Off, Key: rec.Key, Value: []byte(val), MagicByte: 0}
		for _, h := range rec.Headers {
			m.Message.Headers = append(m.Message.Headers, healer.RecordHeader{Key: h.Key, Value: h.Value})
		}
	}
	k := fmt.Sprintf("%s-%d", m.TopicName, m.PartitionID)
	if o.as[k] == nil {
		o.bad("a message of another partition was printed", "%s: %.200q", k, l)
		return false
	}
	o.see(k, m)
	return true
}

// cliConsume: simple-consumer and console-consumer.
func cliConsume(e *Env, faults bool) {
	e.Setup(1 + cfg(3))
	e.C.SaslUser = ""
	n := 1 + cfg(4)
	t := e.C.AddTopic("t", n)
	e.C.AddTopic("u", 1)
	st := e.style()
	o := &output{e: e, format: cfgPick("plain", "plain", "json", "bare"), kind: cfgPick("simple", "console"), as: map[string]*archive{}}
	plain := o.format != "json"
	simple := o.kind == "simple"
	lossy := e.oldFetch()
	parts := map[int]bool{}
	list := ""
	if simple {
		parts[cfg(n)] = true
	} else if cfgChance(1, 2) {
		for i := 0; i < n; i++ {
			parts[i] = true
		}
	} else {
		for i := 0; i < n; i++ {
			if cfgChance(1, 2) || i == n-1 && len(parts) == 0 {
				parts[i] = true
				list += fmt.Sprint(",", i)
			}
		}
		list = strings.TrimPrefix(list, ",")
	}
	var order []*archive
	for i, p := range t.Parts {
		a := newArchive(p)
		for k := cfg(6); k > 0; k-- {
			a.fillText(st, plain)
		}
		if cfgChance(1, 3) {
			a.compact()
		}
		if cfgChance(1, 4) && p.Next > 0 {
			to := int64(work(int(p.Next) + 1))
			p.Retain(to)
			for _, x := range a.offs {
				if x < p.LogStart {
					a.gone[x] = true
				}
			}
		}
		if parts[i] {
			k := fmt.Sprintf("t-%d", i)
			o.as[k] = a
			o.part = k
			order = append(order, a)
		}
	}
	conf := map[string]any{"fetch.max.wait.ms": cfgPick(300, 50, 1000), "fetch.max.bytes": cfgPick(1<<20, 10<<20, 100, 400, 3000), "retry.backoff.ms": 100,
		"net": map[string]any{"timeout.ms": "2000", "connect.timeout.ms": "1000"}}
	from := int64(cfgPick(-2, -2, -1, 0))
	args := []string{o.kind + "-consumer", "-b", e.C.Bootstrap(), "-t", "t"}
	if simple {
		a := order[0]
		if from == 0 {
			from = a.p.LogStart + int64(work(int(a.p.Next-a.p.LogStart)+1))
		}
		args = append(args, "--partition", o.part[2:], "--offset", fmt.Sprint(from))
	} else {
		if from == 0 {
			from = -2
		}
		if list != "" {
			args = append(args, "--partitions", list)
		}
		conf["from.beginning"] = fmt.Sprint(from == -2)
	}
	if o.format == "json" {
		args = append(args, "--json")
	} else if o.format == "bare" {
		args = append(args, "--printoffset=false")
	}

	// what must come
	pos := map[string]*track{}
	end0 := map[string]int64{}
	for k, a := range sim.Sorted(o.as) {
		tr := &track{e: e, a: a, prop: "T04", pos: a.next(0), lossy: lossy || plain}
		switch {
		case from == -1:
			tr.pos = -1
			end0[k] = a.p.Next
		case simple && from >= 0:
			tr.pos = from
		}
		if tr.pos < 0 && from != -1 {
			tr.pos = 0
		}
		pos[k] = tr
	}
	first := map[string]int64{} // the end of the log when an end was last asked for
	e.C.OnDone = func(r *kafka.Req) {
		if r.Owner == "cli" && r.API == kafka.ListOffsets {
			for k, a := range sim.Sorted(o.as) {
				first[k] = a.p.Next
			}
		}
	}
	avail := 0
	for _, a := range order {
		for _, x := range a.offs {
			if tr := pos[fmt.Sprintf("t-%d", a.p.ID)]; a.live(x) && tr.pos >= 0 && x >= tr.pos {
				avail++
			}
		}
	}
	max, stop := 0, int64(0)
	switch cfg(3) {
	case 0:
		max = 1 + work(avail+10)
	case 1:
		if simple && from != -1 {
			stop = from + 1 + int64(work(30))
			if from == -2 {
				stop = order[0].p.LogStart + 1 + int64(work(30))
			}
		}
	}
	if max > 0 {
		args = append(args, "--max-messages", fmt.Sprint(max))
	}
	if stop > 0 {
		args = append(args, "--stopoffset", fmt.Sprint(stop))
	}
	args = append(args, "--config", toJSON(conf))
	o.see = func(k string, m *healer.FullMessage) {
		tr := pos[k]
		if tr.pos < 0 {
			if m.Message.Offset < end0[k] {
				o.bad("a consumer told to start at the end prints older messages", "%s offset %d, the end was %d", k, m.Message.Offset, end0[k])
				return
			}
			tr.pos = end0[k]
			tr.jump = func(a, b int64) bool { return b <= first[k] || tr.a.next(first[k]) == b }
		}
		tr.see(m)
		tr.jump = nil
		if stop > 0 && m.Message.Offset >= stop {
			o.bad("a message at or after the stop offset is printed", "offset %d, --stopoffset %d", m.Message.Offset, stop)
		}
	}
	if faults {
		e.Until = now() + int64(5+cfg(40))*SEC
		e.Perm = cfgPick(0, 50, 200, 400)
		e.Chaos([]string{"crash", "crash-silent", "partition", "reset", "blackhole", "leader", "loss"}, cfg(6))
	}
	p := e.start("cli", nil, args...)
	for k := cfg(8); k > 0; k-- {
		pause(700)
		order[work(len(order))].fillText(st, plain)
		if !o.read(p.os.Out) {
			return
		}
	}
	missing := func() string {
		for _, a := range order {
			k := fmt.Sprintf("t-%d", a.p.ID)
			if tr := pos[k]; from != -1 && a.next(tr.pos) >= 0 {
				return fmt.Sprintf("%s has %d, %d messages printed", k, a.next(tr.pos), tr.n)
			}
		}
		return ""
	}
	// enough to end
	limit := now() + 400*SEC
	if e.Until > now() {
		limit += e.Until - now()
	}
	for !p.done && now() < limit {
		sleep(2 * SEC)
		if !o.read(p.os.Out) {
			return
		}
		if max > 0 || stop > 0 {
			order[work(len(order))].fillText(st, plain)
		} else if now() > limit-200*SEC || now() > e.Until+5*SEC && missing() == "" {
			break
		}
	}
	if !o.read(p.os.Out) {
		return
	}
	switch {
	case !p.done && (max > 0 || stop > 0):
		o.bad("a consuming command does not end", "healer %q printed %d lines: %v", args, o.lines, sim.Alive("cli"))
	case !p.done:
		if from != -1 {
			if m := missing(); m != "" {
				o.bad("messages are not printed", "healer %q: %s", args, m)
				return
			}
			sim.Probe("printed-all")
		}
		p.end(-2)
	case p.code != 0:
		if !faults {
			o.bad("a consuming command fails on a healthy cluster", "healer %q: exit status %d", args, p.code)
		}
		sim.Probe("consume-failed")
		return
	case max == 0 && stop == 0:
		o.bad("a consuming command ends though nothing told it to", "healer %q", args)
	case max > 0:
		sim.Probe("printed-max")
		if o.lines != max {
			o.bad("a consuming command prints another number of messages than it was told", "healer %q printed %d", args, o.lines)
		}
	default:
		sim.Probe("printed-to-stop")
		tr := pos[o.part]
		if x := tr.a.next(tr.pos); x >= 0 && x < stop {
			o.bad("messages before the stop offset are not printed", "healer %q: %d", args, x)
		}
	}
	if o.n != len(p.os.Out) && p.done && p.code == 0 {
		o.bad("the last line is not complete", "%.100q", p.os.Out[o.n:])
	}
}

// cliGroup: runs of group-consumer, one after the other.
func cliGroup(e *Env, faults bool) {
	e.Setup(1 + cfg(3))
	e.C.SaslUser = ""
	e.C.InitialDelay = cfgPick(0, 100, 1000)
	n := 1 + cfg(4)
	t := e.C.AddTopic("t", n)
	e.C.AddTopic("u", 1)
	st := e.style()
	o := &output{e: e, format: cfgPick("plain", "json"), kind: "group", as: map[string]*archive{}}
	plain := o.format != "json"
	lossy := e.oldFetch()
	var order []*archive
	fill := func() { order[work(len(order))].fillText(st, plain) }
	for i, p := range t.Parts {
		a := newArchive(p)
		o.as[fmt.Sprintf("t-%d", i)] = a
		order = append(order, a)
		for k := cfg(5); k > 0; k-- {
			a.fillText(st, plain)
		}
		if cfgChance(1, 4) {
			a.compact()
		}
	}
	conf := toJSON(map[string]any{"fetch.max.wait.ms": cfgPick(300, 50), "retry.backoff.ms": 100, "session.timeout.ms": 6000, "from.beginning": "true",
		"auto.commit.interval.ms": cfgPick(5000, 200, 1000), "net": map[string]any{"timeout.ms": "2000", "connect.timeout.ms": "1000"}})
	seen := map[string]map[int64]bool{}
	for k := range sim.Sorted(o.as) {
		seen[k] = map[int64]bool{}
	}
	clean := !faults
	o.see = func(k string, m *healer.FullMessage) {
		a, x := o.as[k], m.Message.Offset
		r, ok := a.recs[x]
		if !ok || !a.live(x) {
			o.bad("a message that is not in the log was printed", "%s offset %d", k, x)
			return
		}
		if d := diffMsg(r, m.Message, lossy || plain); d != "" {
			o.bad("a message was altered", "%s offset %d: %s", k, x, d)
			return
		}
		for _, y := range a.offs {
			if y < x && a.live(y) && !seen[k][y] {
				o.bad("a message was skipped", "%s offset %d: %d was printed", k, y, x)
				return
			}
		}
		if seen[k][x] && clean {
			o.bad("a message was printed again", "%s offset %d", k, x)
		}
		seen[k][x] = true
	}
	left := func() (c int) {
		for k, a := range sim.Sorted(o.as) {
			for _, y := range a.offs {
				if a.live(y) && !seen[k][y] {
					c++
				}
			}
		}
		return
	}
	if faults {
		e.Until = now() + int64(5+cfg(60))*SEC
		e.Perm = cfgPick(0, 30, 100, 300)
		e.Chaos([]string{"crash", "crash-silent", "partition", "reset", "blackhole", "leader", "coord", "loss"}, cfg(6))
	}
	runs := 1 + cfg(4)
	for i := 0; i <= runs; i++ {
		last := i == runs
		args := []string{"group-consumer", "-b", e.C.Bootstrap(), "-t", "t", "-g", "g", "--config", conf}
		if !plain {
			args = append(args, "--json")
		}
		max := 0
		if !last && cfgChance(1, 2) {
			max = 1 + work(cfgPick(3, 40))
			args = append(args, "--max-messages", fmt.Sprint(max))
		}
		o.n, o.lines = 0, 0
		p := e.start(fmt.Sprint("cli", i), nil, args...)
		for k := cfg(4); k > 0; k-- {
			pause(1500)
			fill()
		}
		limit := now() + 400*SEC
		if e.Until > now() {
			limit += e.Until - now()
		}
		if max == 0 && !last {
			limit = now() + int64(work(8000))*MS
		}
		for !p.done && now() < limit {
			sleep(int64(workPick(100, 500, 2000)) * MS)
			if !o.read(p.os.Out) {
				return
			}
			if max > 0 {
				fill()
			} else if last && left() == 0 && now() > e.Until {
				break
			}
		}
		if !o.read(p.os.Out) {
			return
		}
		if max > 0 && !p.done {
			o.bad("a consuming command does not end", "healer %q printed %d lines: %v", args, o.lines, sim.Alive(p.owner))
			return
		}
		if last && !p.done {
			if c := left(); c > 0 {
				o.bad("messages are not printed", "healer %q: %d are missing", args, c)
				return
			}
			sim.Probe("group-printed-all")
		}
		if !p.done {
			if !ssignal.Raise(p.owner, os.Interrupt) {
				p.end(-2) // nothing handles the signal yet
				sim.Probe("killed-early")
			} else if !p.wait(200*SEC + max64(0, e.Until-now())) {
				o.bad("an interrupted consuming command does not end", "healer %q: %v", args, sim.Alive(p.owner))
				return
			} else {
				sim.Probe("interrupted")
			}
		}
		if !o.read(p.os.Out) {
			return
		}
		if p.code > 0 {
			sim.Probe("group-failed")
			if !faults {
				o.bad("a consuming command fails on a healthy cluster", "healer %q: exit status %d", args, p.code)
				return
			}
			pause(2000)
			continue
		}
		if max > 0 && p.code == 0 && o.lines != max {
			o.bad("a consuming command prints another number of messages than it was told", "healer %q printed %d", args, o.lines)
			return
		}
		if p.code < 0 {
			clean = false
		}
		pause(2000)
	}
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}
