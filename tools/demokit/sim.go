// Package sim is the real-time stand-in for the simulator's runtime: the
// broker model of the demonstrations runs over loopback TCP with real clocks.
package sim

import (
	"fmt"
	"os"
	"sync"
	"time"
)

// Mu guards the whole broker model.
var Mu sync.Mutex

var start = time.Now()
var seq uint64

const StreamFault = 0

type Event struct {
	t    *time.Timer
	dead bool
}

func (e *Event) Cancel() {
	if e != nil {
		e.dead = true
		e.t.Stop()
	}
}

// After calls f later, holding Mu.
func After(ns int64, f func()) *Event {
	e := &Event{}
	e.t = time.AfterFunc(time.Duration(ns), func() {
		Mu.Lock()
		defer Mu.Unlock()
		if !e.dead {
			f()
		}
	})
	return e
}
func Draw(stream, n int) int { return 0 }
func Fault(string)           {}
func Probe(string)           {}
func Now() int64             { return int64(time.Since(start)) }
func Seq() uint64            { seq++; return seq }
func Log(f string, a ...any) {
	if os.Getenv("DEMO_LOG") != "" {
		fmt.Fprintf(os.Stderr, "%8.3f %s\n", time.Since(start).Seconds(), fmt.Sprintf(f, a...))
	}
}
