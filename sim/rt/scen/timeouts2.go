package scen

import (
	"fmt"

	"github.com/childe/healer"
	"github.com/childe/healer/zz_sim/kafka"
	"github.com/childe/healer/zz_sim/sim"
)

func init() {
	register("timeouts-consumers", timeoutsConsumers, "B02")
}

// timeoutsConsumers: consumers with timeouts of their own in one process, whose
// brokers stop answering.
func timeoutsConsumers(e *Env) {
	e.Setup(1)
	e.C.SaslUser = ""
	e.C.AddTopic("t", 3)
	type cons struct {
		owner        string
		timeout, max int64
		c            *healer.SimpleConsumer
	}
	var cs []*cons
	for i := 0; i < 1+cfg(3); i++ {
		x := &cons{owner: fmt.Sprintf("app%d", i+1), timeout: cfgPick[int64](800, 1500, 4000, 20000), max: cfgPick[int64](100, 500, 2000)}
		var conf any
		nt := map[string]any{"connect.timeout.ms": "1000", "timeout.ms": fmt.Sprint(x.timeout)}
		if cfgChance(1, 6) {
			nt["timeout.ms.for.eachapi"] = []any{x.timeout}
		}
		m := map[string]any{"bootstrap.servers": e.C.Bootstrap(), "net": nt, "fetch.max.wait.ms": x.max, "retry.backoff.ms": 100}
		conf = m
		if cfgChance(1, 4) {
			c := healer.DefaultConsumerConfig()
			c.BootstrapServers = e.C.Bootstrap()
			c.Net.ConnectTimeoutMS, c.Net.TimeoutMS = 1000, int(x.timeout)
			c.FetchMaxWaitMS, c.RetryBackOffMS = int32(x.max), 100
			conf = c
		}
		var err error
		CallIn(x.owner, "new", 100*SEC, func() {
			if x.c, err = healer.NewSimpleConsumer("t", int32(i), conf); err == nil {
				_, err = x.c.Consume(-2, nil)
			}
		})
		if err != nil || x.c == nil {
			e.Violate("B02", "a consumer cannot be created on a healthy cluster", "%v", err)
			return
		}
		cs = append(cs, x)
	}
	sleep(int64(cfg(5000)) * MS)
	// from now on no request is answered
	at := map[string]int64{}
	wait := map[string]int64{}
	e.C.Fault = func(r *kafka.Req) kafka.Action { return kafka.Action{Kind: "stall"} }
	e.C.OnReq = func(r *kafka.Req) {
		if t, ok := at[r.Owner]; ok {
			if d := now() - t; d > wait[r.Owner] {
				wait[r.Owner] = d
			}
		}
		at[r.Owner] = now()
	}
	end := now() + 60*SEC
	sleep(60 * SEC)
	for _, x := range cs {
		d := wait[x.owner]
		if d0 := end - at[x.owner]; at[x.owner] > 0 && d0 > d {
			d = d0
		}
		// the answer, twice at most, the connection, and the pauses between attempts
		if bound := 2*(x.timeout+x.max)*MS + 4*SEC; at[x.owner] > 0 && d > bound {
			e.Violate("B02", "a consumer waits for an answer longer than its timeouts allow", "%s of %d with timeout %d ms and fetch.max.wait.ms %d: %d ms without another attempt", x.owner, len(cs), x.timeout, x.max, d/MS)
			return
		}
		sim.Probe("consumer-gave-up-in-time")
	}
	e.C.Fault = nil
	for _, x := range cs {
		x := x
		CallIn(x.owner, "Stop", 100*SEC, func() { x.c.Stop() })
	}
}
