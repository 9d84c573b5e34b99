// Package ssignal stands in for package os/signal: the simulator delivers
// signals to simulated processes.
package ssignal

import (
	"os"

	"github.com/childe/healer/zz_sim/sim"
)

var chans = map[string][]chan<- os.Signal{}

// Reset forgets every registration.
func Reset() { chans = map[string][]chan<- os.Signal{} }

func Notify(c chan<- os.Signal, sig ...os.Signal) {
	o := sim.Owner()
	chans[o] = append(chans[o], c)
}

func Stop(c chan<- os.Signal) {
	o := sim.Owner()
	for i, x := range chans[o] {
		if x == c {
			chans[o] = append(chans[o][:i], chans[o][i+1:]...)
			return
		}
	}
}

// Raise sends a signal to a process; it tells whether the process handles it.
func Raise(owner string, sig os.Signal) bool {
	for _, c := range chans[owner] {
		sim.TrySend(c, sig)
	}
	return len(chans[owner]) > 0
}
