// Package vnet is the real-TCP stand-in for the simulated network.
package vnet

import (
	"net"
	"time"

	"github.com/childe/healer/zz_sim/sim"
)

type Handler interface {
	Accept(c *Conn)
	Data(c *Conn, b []byte)
	Closed(c *Conn)
}
type Mode int

const (
	Up Mode = iota
	Refuse
	Silent
)

type Host struct {
	Addr string // the model's name of the host
	Real string
	H    Handler
	Mode Mode
	l    net.Listener
	net  *Net
}
type Net struct {
	hosts  map[string]*Host
	nextID int
	conns  []*Conn
}
type Conn struct {
	ID    int
	Owner string
	Addr  string
	S     any
	c     *net.TCPConn
	host  *Host
	done  bool
	out   chan func()
}

func New() *Net { return &Net{hosts: map[string]*Host{}} }

func (n *Net) AddHost(addr string, h Handler) *Host {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	x := &Host{Addr: addr, Real: l.Addr().String(), H: h, net: n, l: l}
	n.hosts[addr] = x
	n.hosts[x.Real] = x
	go x.serve(l)
	return x
}
func (n *Net) Host(addr string) *Host { return n.hosts[addr] }

// Open counts the connections clients have open.
func (n *Net) Open() int {
	k := 0
	for _, c := range n.conns {
		if !c.done {
			k++
		}
	}
	return k
}

// Dialed counts all connections there ever were.
func (n *Net) Dialed() int { return len(n.conns) }

func (h *Host) serve(l net.Listener) {
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		x := &Conn{Owner: "app", Addr: h.Addr, c: c.(*net.TCPConn), host: h, out: make(chan func(), 10000)}
		sim.Mu.Lock()
		if h.Mode != Up {
			sim.Mu.Unlock()
			x.c.SetLinger(0)
			c.Close()
			continue
		}
		h.net.nextID++
		x.ID = h.net.nextID
		h.net.conns = append(h.net.conns, x)
		h.H.Accept(x)
		sim.Mu.Unlock()
		go func() {
			for f := range x.out {
				f()
			}
		}()
		go func() {
			buf := make([]byte, 65536)
			for {
				k, err := c.Read(buf)
				sim.Mu.Lock()
				if x.done {
					sim.Mu.Unlock()
					return
				}
				if k > 0 {
					h.H.Data(x, append([]byte(nil), buf[:k]...))
				}
				if err != nil {
					x.end()
					h.H.Closed(x)
					sim.Mu.Unlock()
					return
				}
				sim.Mu.Unlock()
			}
		}()
	}
}

func (c *Conn) end() {
	if !c.done {
		c.done = true
		c.out <- func() { c.c.Close() }
		close(c.out)
	}
}
func (c *Conn) ServerDone() bool { return c.done }
func (c *Conn) IsClosed() bool   { return c.done }
func (c *Conn) Send(b []byte, extra int64) {
	if c.done {
		return
	}
	c.out <- func() {
		time.Sleep(time.Duration(extra))
		c.c.Write(b)
	}
}
func (c *Conn) CloseByServer() { c.end() }
func (c *Conn) ResetByServer() {
	if !c.done {
		c.out <- func() { c.c.SetLinger(0) }
		c.end()
	}
}
func (n *Net) Crash(addr string, mode Mode, silent bool) {
	h := n.hosts[addr]
	h.Mode = mode
	h.l.Close()
	for _, c := range n.conns {
		if c.host == h && !c.done {
			c.ResetByServer()
			h.H.Closed(c)
		}
	}
}
func (n *Net) Restart(addr string) {
	h := n.hosts[addr]
	h.Mode = Up
	l, err := net.Listen("tcp", h.Real)
	if err != nil {
		panic(err)
	}
	h.l = l
	go h.serve(l)
}
