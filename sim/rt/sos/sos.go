// Package sos stands in for package os where its answers depend on the machine
// or concern the process.
package sos

import (
	"fmt"
	"io"

	"github.com/childe/healer/zz_sim/sim"
)

func Hostname() (string, error) { return "simhost", nil }
func Getpid() int               { return 4242 }

// Proc is a simulated operating system process.
type Proc struct {
	In   func(p []byte) (int, error)
	Out  []byte
	Err  []byte
	Exit func(code int)
}

// Procs are the running processes by owner.
var Procs = map[string]*Proc{}

func Exit(code int) {
	if p := Procs[sim.Owner()]; p != nil {
		p.Exit(code)
	}
	panic(fmt.Sprintf("os.Exit(%d)", code))
}

type stdin struct{}

func (stdin) Read(b []byte) (int, error) {
	if p := Procs[sim.Owner()]; p != nil && p.In != nil {
		return p.In(b)
	}
	return 0, io.EOF
}
func (stdin) Close() error { return nil }

type stdout struct{ err bool }

func (s stdout) Write(b []byte) (int, error) {
	if p := Procs[sim.Owner()]; p != nil {
		if s.err {
			p.Err = append(p.Err, b...)
		} else {
			p.Out = append(p.Out, b...)
		}
	}
	return len(b), nil
}
func (s stdout) WriteString(x string) (int, error) { return s.Write([]byte(x)) }
func (s stdout) Sync() error                       { return nil }
func (s stdout) Close() error                      { return nil }

var (
	Stdin  = stdin{}
	Stdout = stdout{}
	Stderr = stdout{err: true}
)
