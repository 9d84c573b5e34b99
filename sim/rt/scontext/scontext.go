// Package scontext stands in for package context.
package scontext

import (
	"context"
	"time"

	"github.com/childe/healer/zz_sim/sim"
	"github.com/childe/healer/zz_sim/stime"
)

type key struct{}

type node struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	children []*node
	deadline time.Time
	hasDL    bool
	timer    *stime.Timer
	after    []func()
	val      bool
	k, v     any
}

func (n *node) Deadline() (time.Time, bool) {
	if n.hasDL {
		return n.deadline, true
	}
	return n.parent.Deadline()
}
func (n *node) Done() <-chan struct{} {
	if n.val {
		return n.parent.Done()
	}
	return n.done
}
func (n *node) Err() error {
	if n.val {
		return n.parent.Err()
	}
	return n.err
}
func (n *node) Value(k any) any {
	if n.val && n.k == k {
		return n.v
	}
	if _, ok := k.(key); ok && !n.val {
		return n
	}
	return n.parent.Value(k)
}

func (n *node) cancel(err, cause error) {
	if n.err != nil {
		return
	}
	n.err = err
	if cause == nil {
		cause = err
	}
	n.cause = cause
	if n.timer != nil {
		n.timer.Stop()
	}
	ch := n.children
	n.children = nil
	after := n.after
	n.after = nil
	sim.CloseEvent(n.done)
	for _, c := range ch {
		c.cancel(err, cause)
	}
	for _, f := range after {
		sim.GoEvent("context.AfterFunc", f)
	}
}

func newNode(parent context.Context) *node {
	n := &node{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(key{}).(*node); ok && p.Done() == parent.Done() {
		if p.err != nil {
			n.cancel(p.err, p.cause)
		} else {
			p.children = append(p.children, n)
		}
	} else if err := parent.Err(); err != nil {
		n.cancel(err, context.Cause(parent))
	}
	return n
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	n := newNode(parent)
	return n, func() { n.cancel(context.Canceled, nil); sim.Point() }
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	n := newNode(parent)
	return n, func(c error) { n.cancel(context.Canceled, c); sim.Point() }
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	n := newNode(parent)
	if pd, ok := parent.Deadline(); !ok || d.Before(pd) {
		n.deadline, n.hasDL = d, true
		if dur := stime.Until(d); dur <= 0 {
			n.cancel(context.DeadlineExceeded, cause)
		} else if n.err == nil {
			n.timer = stime.AfterEvent(dur, func() { n.cancel(context.DeadlineExceeded, cause) })
		}
	}
	return n, func() { n.cancel(context.Canceled, nil); sim.Point() }
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, stime.Now().Add(d))
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, stime.Now().Add(d), cause)
}

func WithValue(parent context.Context, k, v any) context.Context {
	return &node{parent: parent, val: true, k: k, v: v}
}

type withoutCancel struct{ c context.Context }

func (withoutCancel) Deadline() (t time.Time, ok bool) { return }
func (withoutCancel) Done() <-chan struct{}            { return nil }
func (withoutCancel) Err() error                       { return nil }
func (c withoutCancel) Value(k any) any {
	if _, ok := k.(key); ok {
		return nil
	}
	return c.c.Value(k)
}

func WithoutCancel(parent context.Context) context.Context { return withoutCancel{parent} }

func Cause(c context.Context) error {
	if n, ok := c.Value(key{}).(*node); ok {
		return n.cause
	}
	return context.Cause(c)
}

func AfterFunc(c context.Context, f func()) func() bool {
	n, ok := c.Value(key{}).(*node)
	if !ok {
		if c.Err() != nil {
			sim.GoEvent("context.AfterFunc", f)
		}
		return func() bool { return false }
	}
	if n.err != nil {
		sim.GoEvent("context.AfterFunc", f)
		return func() bool { return false }
	}
	live := true
	n.after = append(n.after, func() {
		if live {
			live = false
			f()
		}
	})
	return func() bool { r := live; live = false; return r }
}
