package main

import (
	"net"
	"time"

	"github.com/livekit/media-sdk/vh"
)

// conn is one end of a datagram connection: what is written is kept, what is put in is read.
type conn struct {
	q      chan []byte
	done   chan struct{}
	out    [][]byte
	closes int
}

func newConn() *conn {
	return &conn{q: make(chan []byte, 256), done: make(chan struct{})}
}

type addr struct{}

func (addr) Network() string { return "udp" }
func (addr) String() string  { return "test" }

func (c *conn) put(b []byte) { c.q <- append([]byte(nil), b...) }

func (c *conn) Read(p []byte) (int, error) {
	select {
	case <-c.done:
		return 0, net.ErrClosed
	default:
	}
	select {
	case b := <-c.q:
		return copy(p, b), nil
	case <-c.done:
		return 0, net.ErrClosed
	}
}

func (c *conn) Write(p []byte) (int, error) {
	b := append([]byte(nil), p...)
	vh.Atomic(func() { c.out = append(c.out, b) })
	return len(p), nil
}

func (c *conn) Close() error {
	first := false
	vh.Atomic(func() {
		c.closes++
		first = c.closes == 1
	})
	if first {
		close(c.done)
	}
	return nil
}

func (c *conn) LocalAddr() net.Addr              { return addr{} }
func (c *conn) RemoteAddr() net.Addr             { return addr{} }
func (c *conn) SetDeadline(time.Time) error      { return nil }
func (c *conn) SetReadDeadline(time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(time.Time) error { return nil }
