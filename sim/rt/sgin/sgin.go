// Package sgin stands in for the web framework's entry points: routing and
// request handling are gin's own, but a server does not listen on a socket, it
// is handed to the simulator.
package sgin

import (
	"fmt"
	"net/http"
	"strings"

	real "github.com/gin-gonic/gin"

	"github.com/childe/healer/zz_sim/sim"
)

type Engine struct{ *real.Engine }

// Servers are the running servers by address.
var Servers = map[string]*Engine{}

// Panics are the handler panics gin's recovery middleware would have logged.
var Panics []string

// Reset forgets everything.
func Reset() { Servers, Panics = map[string]*Engine{}, nil }

func New(opts ...real.OptionFunc) *Engine {
	real.SetMode(real.ReleaseMode)
	return &Engine{real.New(opts...)}
}

func Default(opts ...real.OptionFunc) *Engine {
	e := New(opts...)
	e.Use(Recovery())
	return e
}

func Logger() real.HandlerFunc { return func(c *real.Context) { c.Next() } }

func Recovery() real.HandlerFunc {
	return func(c *real.Context) {
		defer func() {
			if r := recover(); r != nil && !sim.Dead() {
				Panics = append(Panics, fmt.Sprint(r))
				c.AbortWithStatus(http.StatusInternalServerError)
			}
		}()
		c.Next()
	}
}

func (e *Engine) Run(addr ...string) error {
	Servers[strings.Join(addr, ",")] = e
	sim.BlockForever()
	return nil
}
