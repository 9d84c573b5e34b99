// Package vnet is the simulated TCP network: byte streams with arbitrary
// fragmentation and delay, connection resets, half-read responses, black holes
// and refused connections.
package vnet

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"
	"time"

	"github.com/childe/healer/zz_sim/sim"
	"github.com/childe/healer/zz_sim/stime"
)

// Handler is the server side of a host.
type Handler interface {
	Accept(c *Conn)
	Data(c *Conn, b []byte) // bytes arrived at the server
	Closed(c *Conn)         // the client side is gone
}

// Mode of a host.
type Mode int

const (
	Up     Mode = iota
	Refuse      // connections are refused at once
	Silent      // nothing answers; connection attempts time out
)

type Host struct {
	Addr string
	H    Handler
	Mode Mode
}

// Profile tunes latencies and fragmentation of one run.
type Profile struct {
	BaseUS   int // minimum one-way latency, microseconds
	JitterUS int
	FragPct  int // chance that a response is cut into several segments
	TinyPct  int // chance that a Read returns fewer bytes than available
	SlowPct  int // chance of an extra delay of up to SlowMS
	SlowMS   int
	SendBuf  int // bytes a connection takes before the peer acknowledges them; 0: unlimited
}

// Net is the network of one run.
type Net struct {
	hosts  map[string]*Host
	Conns  []*Conn
	P      Profile
	cuts   map[string]bool
	Dials  int
	nextID int
	// DialFault, if set, may make one dial fail: "", "refuse", "timeout".
	DialFault func(owner, addr string) string
}

// N is the current network.
var N *Net

func New(p Profile) *Net {
	N = &Net{hosts: map[string]*Host{}, P: p, cuts: map[string]bool{}}
	return N
}

func (n *Net) AddHost(addr string, h Handler) *Host {
	x := &Host{Addr: addr, H: h}
	n.hosts[addr] = x
	return x
}

func (n *Net) Host(addr string) *Host { return n.hosts[addr] }

func (n *Net) latency() int64 {
	d := int64(n.P.BaseUS) * 1000
	if n.P.JitterUS > 0 {
		d += int64(sim.Draw(sim.StreamNet, n.P.JitterUS+1)) * 1000
	}
	if n.P.SlowPct > 0 && sim.Chance(sim.StreamNet, n.P.SlowPct, 100) {
		d += int64(sim.Draw(sim.StreamNet, n.P.SlowMS+1)) * 1e6
	}
	return d
}

// Conn is the client end of a connection.
type Conn struct {
	ID                int
	Owner             string
	Addr              string
	net               *Net
	host              *Host
	S                 any // server side state
	rbuf              [][]byte
	eof               bool
	rst               bool
	wrst              int
	closed            bool // closed by the client
	srvEnd            bool // closed by the server
	rdl, wdl          int64
	unacked           int
	wakes             []func() // goroutines waiting for data
	dlEv              *sim.Event
	sArr              int64 // last arrival time at server
	cArr              int64 // last arrival time at client
	Hold              bool  // black hole: nothing arrives in either direction
	held              []func()
	BytesIn, BytesOut int
	Opened            int64
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

func opErr(op string, c *Conn, err error) error {
	a := addr("")
	if c != nil {
		a = addr(c.Addr)
	}
	return &net.OpError{Op: op, Net: "tcp", Addr: a, Err: err}
}

func sysErr(op string, c *Conn, call string, e syscall.Errno) error {
	return opErr(op, c, os.NewSyscallError(call, e))
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

func cutKey(owner, host string) string { return owner + "|" + host }

// Dial opens a connection; timeout 0 means the system default.
func (n *Net) Dial(address string, timeout time.Duration) (net.Conn, error) {
	if n == nil {
		return nil, errors.New("no simulated network")
	}
	n.Dials++
	owner := sim.Owner()
	h := n.hosts[address]
	limit := int64(timeout)
	if limit <= 0 {
		limit = int64(127 * time.Second)
	}
	if h == nil {
		sim.Sleep(n.latency())
		sim.Fault("dial-unknown-host")
		return nil, opErr("dial", &Conn{Addr: address}, &net.DNSError{Err: "no such host", Name: address, IsNotFound: true})
	}
	mode := h.Mode
	if n.cuts[cutKey(owner, address)] || n.cuts[cutKey("*", address)] {
		mode = Silent
	}
	if n.DialFault != nil {
		switch n.DialFault(owner, address) {
		case "refuse":
			mode = Refuse
		case "timeout":
			mode = Silent
		}
	}
	switch mode {
	case Refuse:
		sim.Sleep(n.latency())
		sim.Fault("dial-refused")
		return nil, sysErr("dial", &Conn{Addr: address}, "connect", syscall.ECONNREFUSED)
	case Silent:
		sim.Fault("dial-timeout")
		sim.Sleep(limit)
		return nil, opErr("dial", &Conn{Addr: address}, timeoutErr{})
	}
	d := 2 * n.latency()
	if d >= limit {
		sim.Fault("dial-timeout")
		sim.Sleep(limit)
		return nil, opErr("dial", &Conn{Addr: address}, timeoutErr{})
	}
	sim.Sleep(d)
	if h.Mode != Up {
		sim.Fault("dial-refused")
		return nil, sysErr("dial", &Conn{Addr: address}, "connect", syscall.ECONNREFUSED)
	}
	n.nextID++
	c := &Conn{ID: n.nextID, Owner: owner, Addr: address, net: n, host: h, Opened: sim.Now()}
	n.Conns = append(n.Conns, c)
	h.H.Accept(c)
	sim.Log("dial %s conn=%d", address, c.ID)
	return c, nil
}

// OpenConns lists connections of an owner that the client has not closed.
func (n *Net) OpenConns(owner string) []*Conn {
	var out []*Conn
	for _, c := range n.Conns {
		if c.Owner == owner && !c.closed {
			out = append(out, c)
		}
	}
	return out
}

// Live lists connections not yet closed by either side.
func (n *Net) Live() []*Conn {
	var out []*Conn
	for _, c := range n.Conns {
		if !c.closed && !c.srvEnd && !c.rst {
			out = append(out, c)
		}
	}
	return out
}

// ---------------------------------------------------------------- client side

func (c *Conn) LocalAddr() net.Addr  { return addr(fmt.Sprintf("10.0.0.1:%d", 30000+c.ID)) }
func (c *Conn) RemoteAddr() net.Addr { return addr(c.Addr) }

func (c *Conn) IsClosed() bool   { return c.closed }
func (c *Conn) ServerDone() bool { return c.srvEnd || c.rst || c.closed }

func (c *Conn) signal() {
	ws := c.wakes
	c.wakes = nil
	for _, w := range ws {
		w()
	}
}

func (c *Conn) Read(p []byte) (int, error) {
	if sim.Dead() {
		sim.Sleep(1)
		return 0, io.EOF
	}
	for {
		if c.closed {
			return 0, opErr("read", c, net.ErrClosed)
		}
		if len(p) == 0 {
			return 0, nil
		}
		if c.rdl != 0 && sim.Now() >= c.rdl {
			sim.Fault("read-timeout")
			return 0, opErr("read", c, os.ErrDeadlineExceeded)
		}
		if len(c.rbuf) > 0 {
			seg := c.rbuf[0]
			n := len(seg)
			if n > len(p) {
				n = len(p)
			}
			if n > 1 && c.net.P.TinyPct > 0 && sim.Chance(sim.StreamNet, c.net.P.TinyPct, 100) {
				n = 1 + sim.Draw(sim.StreamNet, n-1)
				sim.W.Faults["short-read"]++
			}
			copy(p, seg[:n])
			if n == len(seg) {
				c.rbuf = c.rbuf[1:]
			} else {
				c.rbuf[0] = seg[n:]
			}
			c.BytesIn += n
			sim.Point()
			return n, nil
		}
		if c.rst {
			return 0, sysErr("read", c, "read", syscall.ECONNRESET)
		}
		if c.eof {
			return 0, io.EOF
		}
		sim.Park("conn read", func(wake func()) {
			c.wakes = append(c.wakes, wake)
			if c.rdl != 0 {
				c.dlEv.Cancel()
				c.dlEv = sim.After(c.rdl-sim.Now(), c.signal)
			}
		})
		c.dlEv.Cancel()
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	if sim.Dead() {
		sim.Sleep(1)
		return 0, io.EOF
	}
	if c.closed {
		return 0, opErr("write", c, net.ErrClosed)
	}
	if c.rst || c.srvEnd && c.eof {
		c.wrst++
		if c.rst && c.wrst == 1 {
			return 0, sysErr("write", c, "write", syscall.ECONNRESET)
		}
		if c.wrst > 1 || c.rst {
			return 0, sysErr("write", c, "write", syscall.EPIPE)
		}
		// peer has closed: the first write is accepted by the kernel and answered with RST
		sim.After(c.net.latency(), func() { c.reset() })
		return len(p), nil
	}
	done := 0
	for {
		n := len(p) - done
		if lim := c.net.P.SendBuf; lim > 0 && n > lim-c.unacked {
			n = lim - c.unacked
		}
		if n > 0 {
			b := append([]byte(nil), p[done:done+n]...)
			done += n
			c.BytesOut += n
			c.unacked += n
			c.toServer(func() {
				if !c.srvEnd && c.host.Mode == Up {
					c.unacked -= len(b)
					c.signal()
					c.host.H.Data(c, b)
				}
			})
		}
		if done == len(p) {
			break
		}
		if c.wdl != 0 && sim.Now() >= c.wdl {
			sim.Fault("write-timeout")
			return done, opErr("write", c, os.ErrDeadlineExceeded)
		}
		var ev *sim.Event
		sim.Park("conn write", func(wake func()) {
			c.wakes = append(c.wakes, wake)
			if c.wdl != 0 {
				ev = sim.After(c.wdl-sim.Now(), c.signal)
			}
		})
		ev.Cancel()
		if c.closed {
			return done, opErr("write", c, net.ErrClosed)
		}
		if c.rst || c.eof {
			return done, sysErr("write", c, "write", syscall.ECONNRESET)
		}
	}
	sim.Point()
	return len(p), nil
}

func (c *Conn) Close() error {
	if sim.Dead() {
		return nil
	}
	if c.closed {
		return opErr("close", c, net.ErrClosed)
	}
	c.closed = true
	c.signal()
	sim.Log("close conn=%d", c.ID)
	c.toServer(func() {
		if !c.srvEnd {
			c.srvEnd = true
			c.host.H.Closed(c)
		}
	})
	sim.Point()
	return nil
}

func (c *Conn) SetDeadline(t time.Time) error {
	c.SetWriteDeadline(t)
	return c.SetReadDeadline(t)
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	if sim.Dead() {
		return nil
	}
	if c.closed {
		return opErr("set", c, net.ErrClosed)
	}
	c.rdl = deadline(t)
	if len(c.wakes) > 0 {
		c.signal()
	}
	return nil
}

// deadlines follow the monotonic clock: wall clock jumps do not matter
func deadline(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := t.UnixNano() - sim.EpochNS - int64(stime.Skew)
	if d <= 0 {
		d = 1
	}
	return d
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	if sim.Dead() {
		return nil
	}
	if c.closed {
		return opErr("set", c, net.ErrClosed)
	}
	c.wdl = deadline(t)
	if len(c.wakes) > 0 {
		c.signal()
	}
	return nil
}

// ---------------------------------------------------------------- transport

func (c *Conn) cut() bool {
	return c.Hold || c.net.cuts[cutKey(c.Owner, c.Addr)] || c.net.cuts[cutKey("*", c.Addr)]
}

func (c *Conn) toServer(f func()) {
	at := sim.Now() + c.net.latency()
	if at <= c.sArr {
		at = c.sArr + 1
	}
	c.sArr = at
	sim.After(at-sim.Now(), func() { c.arrive(f) })
}

func (c *Conn) arrive(f func()) {
	if c.cut() {
		c.held = append(c.held, f)
		return
	}
	f()
}

func (c *Conn) toClient(extra int64, f func()) {
	at := sim.Now() + c.net.latency() + extra
	if at <= c.cArr {
		at = c.cArr + 1
	}
	c.cArr = at
	sim.After(at-sim.Now(), func() { c.arrive(f) })
}

// Send delivers response bytes to the client, cut into segments.
func (c *Conn) Send(b []byte, extra int64) {
	if c.srvEnd {
		return
	}
	sim.Charge(len(b))
	if len(b) > 256<<10 { // 10 MB a second
		extra += int64(len(b)) * 100
	}
	p := c.net.P
	for len(b) > 0 {
		n := len(b)
		if n > 1 && p.FragPct > 0 && sim.Chance(sim.StreamNet, p.FragPct, 100) {
			// bias towards cuts near the start, where the headers are
			if sim.Chance(sim.StreamNet, 1, 2) && n > 40 {
				n = 1 + sim.Draw(sim.StreamNet, 40)
			} else {
				n = 1 + sim.Draw(sim.StreamNet, n-1)
			}
			sim.W.Faults["fragmented-response"]++
		}
		seg := b[:n]
		b = b[n:]
		c.toClient(extra, func() {
			if !c.closed && !c.rst && !c.eof {
				c.rbuf = append(c.rbuf, seg)
				c.signal()
			}
		})
		extra = 0
	}
}

// CloseByServer sends FIN after what has been sent so far.
func (c *Conn) CloseByServer() {
	if c.srvEnd {
		return
	}
	c.srvEnd = true
	c.toClient(0, func() {
		c.eof = true
		c.signal()
	})
}

// ResetByServer sends RST after what has been sent so far.
func (c *Conn) ResetByServer() {
	if c.srvEnd {
		return
	}
	c.srvEnd = true
	c.toClient(0, func() { c.reset() })
}

func (c *Conn) reset() {
	if c.closed {
		return
	}
	c.rst = true
	c.signal()
}

// Abort resets the connection at once in both directions (unread data stays readable).
func (c *Conn) Abort() {
	if c.closed || c.rst {
		return
	}
	if !c.srvEnd {
		c.srvEnd = true
		c.host.H.Closed(c)
	}
	c.reset()
}

// ---------------------------------------------------------------- faults on hosts

// Cut makes everything between owner ("*" for all) and a host vanish until Heal.
func (n *Net) Cut(owner, host string) {
	n.cuts[cutKey(owner, host)] = true
	sim.Fault("partition")
}

// Heal ends a partition; data under way is delivered late (TCP retransmission).
func (n *Net) Heal(owner, host string) {
	delete(n.cuts, cutKey(owner, host))
	for _, c := range n.Conns {
		if c.Addr == host && (owner == "*" || c.Owner == owner) && !c.cut() {
			c.release()
		}
	}
	sim.Log("heal %s %s", owner, host)
}

func (c *Conn) release() {
	h := c.held
	c.held = nil
	for _, f := range h {
		f := f
		at := sim.Now() + 1000
		if at <= c.cArr {
			at = c.cArr + 1
		}
		c.cArr = at
		sim.After(at-sim.Now(), func() { c.arrive(f) })
	}
}

// Crash takes a host down: connections are reset or just go silent.
func (n *Net) Crash(hostAddr string, mode Mode, silent bool) {
	h := n.hosts[hostAddr]
	h.Mode = mode
	for _, c := range n.Conns {
		if c.Addr != hostAddr || c.closed || c.srvEnd {
			continue
		}
		c.srvEnd = true
		h.H.Closed(c)
		if silent {
			continue // the client finds out by its own timeouts
		}
		if sim.Chance(sim.StreamFault, 1, 2) {
			c.toClient(0, func() { c.eof = true; c.signal() })
		} else {
			c.toClient(0, func() { c.reset() })
		}
	}
}

// Restart brings a host back.
func (n *Net) Restart(hostAddr string) {
	n.hosts[hostAddr].Mode = Up
	// the restarted host answers stale connections with RST
	for _, c := range n.Conns {
		if c.Addr == hostAddr && !c.closed && c.srvEnd && !c.eof && !c.rst {
			c := c
			c.toClient(0, func() { c.reset() })
		}
	}
}

// KillOwner closes every connection of a crashed process as its kernel would.
func (n *Net) KillOwner(owner string) {
	for _, c := range n.Conns {
		if c.Owner == owner && !c.closed {
			c.closed = true
			c := c
			c.toServer(func() {
				if !c.srvEnd {
					c.srvEnd = true
					c.host.H.Closed(c)
				}
			})
		}
	}
}
