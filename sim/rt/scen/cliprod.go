package scen

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/childe/healer/zz_sim/kafka"
	"github.com/childe/healer/zz_sim/sim"
)

func init() {
	register("cli-produce", func(e *Env) { cliProduce(e, false) }, "T03")
	register("cli-produce-faults", func(e *Env) { cliProduce(e, true) }, "T03")
}

// input is what a process reads from its standard input.
type input struct {
	data  []byte
	chunk int
	slow  int
	err   error
}

func (i *input) read(p []byte) (int, error) {
	if i.slow > 0 {
		pause(i.slow)
	}
	if len(i.data) == 0 {
		if i.err != nil {
			return 0, i.err
		}
		return 0, io.EOF
	}
	n := len(p)
	if i.chunk > 0 {
		n = min(n, 1+app(i.chunk))
	}
	n = copy(p[:n], i.data)
	i.data = i.data[n:]
	return n, nil
}

// cliProduce: lines are fed to the producing commands.
func cliProduce(e *Env, faults bool) {
	e.Setup(1 + cfg(3))
	e.C.SaslUser = ""
	n := 1 + cfg(4)
	e.C.AddTopic("t", n)
	e.C.AddTopic("u", 1)
	max := cfgPick(1, 1, 3, 8, 1024)
	conf := map[string]any{"message.max.count": max, "flush.interval.ms": cfgPick(10, 50, 200, 1000), "compress.type": cfgPick("none", "gzip", "snappy", "lz4"),
		"acks": cfgPick(-1, 1), "metadata.max.age.ms": cfgPick(300000, 100, 1000), "retry.backoff.ms": 100,
		"net": map[string]any{"timeout.ms": "2000", "connect.timeout.ms": "1000"}}
	simple := cfgChance(1, 2)
	part := cfg(n)
	args := []string{"simple-producer", "--partition", fmt.Sprint(part)}
	if !simple {
		args = []string{"console-producer"}
	}
	args = append(args, "-b", e.C.Bootstrap(), "-t", "t", "--config", toJSON(conf))

	// the lines
	var ls []string
	cnt := cfgPick(0, 1, 5, 20, 60)
	for i := 0; i < cnt; i++ {
		s := fmt.Sprintf("line-%d|", i)
		switch work(8) {
		case 0:
			s = ""
		case 1:
			s += strings.Repeat("x", work(3000))
		case 2:
			s += strings.Repeat("\x00\xff\t ", work(20)) + "."
		case 3:
			s += strings.Repeat("y", work(60000))
		}
		ls = append(ls, s)
	}
	text := strings.Join(ls, "\n")
	switch {
	case cnt == 0:
	case ls[cnt-1] == "" || cfgChance(2, 3):
		text += "\n"
	}
	in := &input{data: []byte(text), chunk: cfgPick(0, 1, 30, 5000), slow: cfgPick(0, 0, 30, 400)}
	if in.chunk == 1 && in.slow > 0 || len(text) > 20000 && in.chunk < 1000 {
		in.chunk = 5000
	}
	fails := ""
	switch cfg(10) {
	case 0:
		in.err = errors.New("read error")
		fails = "reading the standard input fails"
	case 1:
		if cnt > 0 && text[len(text)-1] != '\n' {
			in.data = append(in.data, '\n')
		}
		in.data = append(in.data, []byte(strings.Repeat("z", 70000))...)
		fails = "a line is too long"
	}

	if b := e.Net.P.SendBuf; b > 0 && len(text) > 20*b {
		e.Net.P.SendBuf = len(text) / 20 // else a healthy link is too slow for the timeouts
	}

	// each record stored must be one of the lines
	var got []string
	seen := map[string]int{}
	have := map[string]int{}
	for _, s := range ls {
		have[s]++
	}
	index := map[string]int{}
	for i, s := range ls {
		if s != "" {
			index[s] = i
		}
	}
	last := map[int32]int{}
	e.C.OnProduce = func(p *kafka.Partition, b *kafka.Batch, r *kafka.Req) {
		if p.Topic != "t" || simple && p.ID != int32(part) {
			e.Violate("T03", "lines are stored in another partition", "%s-%d instead of t-%d", p.Topic, p.ID, part)
		}
		for _, x := range b.Recs {
			s := string(x.Val)
			seen[s]++
			got = append(got, s)
			if seen[s] > have[s] {
				if have[s] == 0 {
					e.Violate("T03", "something is stored that was not on the standard input", "%s", short(x.Val))
				} else {
					e.Violate("T03", "a line is stored more than once", "%s", short(x.Val))
				}
			}
			if x.Key != nil {
				e.Violate("T03", "a line is stored with a key", "%s: %q", short(x.Val), x.Key)
			}
			if s == "" {
				continue
			}
			if i := index[s]; i < last[p.ID] {
				e.Violate("T03", "lines are stored in another order", "line %d after line %d in t-%d", i, last[p.ID], p.ID)
			} else {
				last[p.ID] = i
			}
		}
	}
	if faults {
		e.Until = now() + int64(5+cfg(40))*SEC
		e.Perm = cfgPick(0, 50, 200, 400)
		e.Chaos([]string{"crash", "crash-silent", "partition", "reset", "blackhole", "leader", "loss"}, cfg(6))
		e.Only = func(r *kafka.Req) bool { return r.Owner == "cli" }
	}
	p := e.start("cli", in.read, args...)
	kill := faults && cfgChance(1, 5)
	if kill {
		sleep(int64(cfg(5000)) * MS)
		sim.Fault("kill")
		p.end(-9)
		sleep(20 * SEC)
		return
	}
	if !p.wait(6000 * SEC) {
		e.Violate("T03", "a producing command does not end", "healer %q: %v", args, sim.Alive("cli"))
		return
	}
	sleep(20 * SEC)
	if p.code == 0 {
		sim.Probe("produced")
	} else {
		sim.Probe("produce-failed")
	}
	if !faults && fails == "" && p.code != 0 {
		e.Violate("T03", "a producing command fails on a healthy cluster", "healer %q: exit status %d", args, p.code)
		return
	}
	if fails != "" && p.code == 0 {
		e.Violate("T03", "a producing command reports success though "+fails, "healer %q", args)
		return
	}
	if (!faults || max == 1 && p.code == 0) && len(got) != len(ls) {
		var lost []string
		for _, s := range ls {
			if seen[s] < have[s] {
				lost = append(lost, short([]byte(s)))
			}
		}
		e.Violate("T03", "lines are lost", "healer %q ended with %d: %d of %d lines are stored, not %.300v", args, p.code, len(got), len(ls), lost)
	}
}
