// Package snet stands in for package net.
package snet

import (
	"context"
	"net"
	"syscall"
	"time"

	"github.com/childe/healer/zz_sim/vnet"
)

type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       net.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
	Resolver        *net.Resolver
	Cancel          <-chan struct{}
	Control         func(network, address string, c syscall.RawConn) error
	ControlContext  func(ctx context.Context, network, address string, c syscall.RawConn) error
}

func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	return vnet.N.Dial(address, d.Timeout)
}

func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	return vnet.N.Dial(address, d.Timeout)
}

func Dial(network, address string) (net.Conn, error) { return vnet.N.Dial(address, 0) }

func DialTimeout(network, address string, timeout time.Duration) (net.Conn, error) {
	return vnet.N.Dial(address, timeout)
}
