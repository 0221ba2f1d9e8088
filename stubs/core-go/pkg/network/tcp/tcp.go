// Package tcp is a stand-in for core-go's TCP server.
package tcp

import (
	"bufio"
	"net"

	"github.com/rs/zerolog"

	"gitlab.com/alephledger/core-go/pkg/network"
)

type server struct {
	l     net.Listener
	addrs []string
}

type conn struct {
	net.Conn
	w *bufio.Writer
}

func (c *conn) Write(b []byte) (int, error) { return c.w.Write(b) }
func (c *conn) Flush() error                { return c.w.Flush() }

// NewServer starts listening on localAddress.
func NewServer(localAddress string, remoteAddresses []string, log zerolog.Logger) (network.Server, error) {
	l, err := net.Listen("tcp", localAddress)
	if err != nil {
		return nil, err
	}
	return &server{l, remoteAddresses}, nil
}

func (s *server) Dial(pid uint16) (network.Connection, error) {
	c, err := net.Dial("tcp", s.addrs[pid])
	if err != nil {
		return nil, err
	}
	return &conn{c, bufio.NewWriter(c)}, nil
}

func (s *server) Listen() (network.Connection, error) {
	c, err := s.l.Accept()
	if err != nil {
		return nil, err
	}
	return &conn{c, bufio.NewWriter(c)}, nil
}

func (s *server) Stop() { s.l.Close() }
