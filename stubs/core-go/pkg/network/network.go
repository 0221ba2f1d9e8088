// Package network is a stand-in for core-go's network interfaces.
package network

// Connection is a stream between two processes.
type Connection interface {
	Read([]byte) (int, error)
	Write([]byte) (int, error)
	Flush() error
	Close() error
}

// Server establishes connections.
type Server interface {
	Dial(pid uint16) (Connection, error)
	Listen() (Connection, error)
	Stop()
}
