// Package tests is a stand-in for core-go's in-memory test network.
package tests

import (
	"errors"
	"io"
	"sync"
	"time"

	"gitlab.com/alephledger/core-go/pkg/network"
)

// pipe is an unbounded in-memory byte stream.
type pipe struct {
	mu     sync.Mutex
	cond   *sync.Cond
	buf    []byte
	closed bool
}

func newPipe() *pipe { p := &pipe{}; p.cond = sync.NewCond(&p.mu); return p }

func (p *pipe) read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(b) == 0 {
		return 0, nil
	}
	for len(p.buf) == 0 && !p.closed {
		p.cond.Wait()
	}
	if len(p.buf) == 0 {
		return 0, io.EOF
	}
	n := copy(b, p.buf)
	p.buf = p.buf[n:]
	return n, nil
}

func (p *pipe) write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.closed {
		return 0, errors.New("closed")
	}
	p.buf = append(p.buf, b...)
	p.cond.Broadcast()
	return len(b), nil
}

func (p *pipe) close() {
	p.mu.Lock()
	p.closed = true
	p.cond.Broadcast()
	p.mu.Unlock()
}

type conn struct{ in, out *pipe }

func (c *conn) Read(b []byte) (int, error)  { return c.in.read(b) }
func (c *conn) Write(b []byte) (int, error) { return c.out.write(b) }
func (c *conn) Flush() error                { return nil }
func (c *conn) Close() error                { c.in.close(); c.out.close(); return nil }

type server struct {
	accept []chan network.Connection
	pid    uint16
}

// NewNetwork creates n connected servers.
func NewNetwork(n int, timeout time.Duration) []network.Server {
	chans := make([]chan network.Connection, n)
	for i := range chans {
		chans[i] = make(chan network.Connection, n)
	}
	res := make([]network.Server, n)
	for i := range res {
		res[i] = &server{chans, uint16(i)}
	}
	return res
}

// CloseNetwork stops all servers.
func CloseNetwork(nets []network.Server) {
	for _, n := range nets {
		n.Stop()
	}
}

func (s *server) Dial(pid uint16) (network.Connection, error) {
	a, b := newPipe(), newPipe()
	s.accept[pid] <- &conn{b, a}
	return &conn{a, b}, nil
}

func (s *server) Listen() (network.Connection, error) {
	c, ok := <-s.accept[s.pid]
	if !ok {
		return nil, errors.New("stopped")
	}
	return c, nil
}

func (s *server) Stop() {}
