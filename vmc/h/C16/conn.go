package main

import (
	"errors"
	"net"
	"time"

	"github.com/livekit/media-sdk/vh"
)

// errTemp is a failure of a single read, which a nil packet in the queue stands for.
var errTemp = errors.New("temporary failure")

var errRead = errors.New("connection broken")

// conn is a datagram connection that delivers what is queued and then blocks until it is closed.
type conn struct {
	q        chan []byte
	done     chan struct{}
	closes   int
	closeErr error
	readErr  error // returned instead of blocking when the queue is empty
	out      [][]byte
	writeErr error
}

func newConn(in ...[]byte) *conn {
	c := &conn{q: make(chan []byte, 64), done: make(chan struct{})}
	for _, b := range in {
		c.q <- b
	}
	return c
}

type addr struct{}

func (addr) Network() string { return "udp" }
func (addr) String() string  { return "test" }

func (c *conn) Read(p []byte) (int, error) {
	select {
	case <-c.done:
		return 0, net.ErrClosed
	default:
	}
	if c.readErr != nil {
		select {
		case b := <-c.q:
			if b == nil {
				return 0, errTemp
			}
			return copy(p, b), nil
		default:
			return 0, c.readErr
		}
	}
	select {
	case b := <-c.q:
		return copy(p, b), nil
	case <-c.done:
		return 0, net.ErrClosed
	}
}

func (c *conn) Write(p []byte) (int, error) {
	b := append([]byte(nil), p...)
	vh.Atomic(func() { c.out = append(c.out, b) })
	if c.writeErr != nil {
		return 0, c.writeErr
	}
	return len(p), nil
}

func (c *conn) Close() error {
	first := false
	vh.Atomic(func() {
		c.closes++
		first = c.closes == 1
	})
	if first {
		close(c.done)
	}
	return c.closeErr
}

func (c *conn) LocalAddr() net.Addr              { return addr{} }
func (c *conn) RemoteAddr() net.Addr             { return addr{} }
func (c *conn) SetDeadline(time.Time) error      { return nil }
func (c *conn) SetReadDeadline(time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(time.Time) error { return nil }
