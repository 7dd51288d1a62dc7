//go:build go1.21

// Package udp provides a socket for the UDP transport.
package udp

import (
	"errors"
	"net"
	"reflect"
	"time"
	"unsafe"

	"github.com/botlink/go-mavlink2/util"
	"github.com/botlink/go-mavlink2/zzverif/models"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// Packet is a packet received, or a failure.
type Packet struct {
	Data []byte
	From net.Addr
	Err  error
	N    int // what a failing read reports
}

// Sent is a packet sent.
type Sent struct {
	Data []byte
	To   net.Addr
}

// ErrClosed is what a closed socket says.
var ErrClosed = errors.New("closed socket")

// Socket is a packet connection.
type Socket struct {
	In     chan Packet
	Out    chan Sent
	gone   chan struct{}
	closed chan struct{}
	// WriteErr is the result of the next write.
	WriteErr error
	WriteN   int
	CloseErr error
}

// NewSocket makes a socket.
func NewSocket(room int) *Socket {
	return &Socket{In: make(chan Packet, room), Out: make(chan Sent, 64), gone: make(chan struct{}), closed: make(chan struct{}, 64)}
}

// New puts the transport on the socket.
func New(s *Socket) *util.UDPReadWriteCloser {
	if nd.Symbolic() {
		models.Listen = func(network, address string) (net.PacketConn, error) { return s, nil }
	}
	u, err := util.NewUDPReadWriteCloser("127.0.0.1", 0)
	nd.Assert(err == nil && u != nil, "the transport starts")
	if !nd.Symbolic() {
		v := reflect.ValueOf(u).Elem()
		t := reflect.TypeOf((*net.PacketConn)(nil)).Elem()
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).Type() == t {
				p := (*net.PacketConn)(unsafe.Pointer(v.Field(i).UnsafeAddr()))
				(*p).Close()
				*p = s
			}
		}
	}
	return u
}

// ReadFrom receives.
func (s *Socket) ReadFrom(b []byte) (int, net.Addr, error) {
	select {
	case p := <-s.In:
		if p.Err != nil {
			return p.N, p.From, p.Err
		}
		return copy(b, p.Data), p.From, nil
	case <-s.gone:
		return 0, nil, ErrClosed
	}
}

// WriteTo sends.
func (s *Socket) WriteTo(b []byte, to net.Addr) (int, error) {
	if s.WriteErr != nil {
		return s.WriteN, s.WriteErr
	}
	s.Out <- Sent{append([]byte(nil), b...), to}
	return len(b), nil
}

// Close closes.
func (s *Socket) Close() error {
	s.closed <- struct{}{}
	if len(s.closed) == 1 {
		close(s.gone)
	}
	return s.CloseErr
}

// Closes counts.
func (s *Socket) Closes() int { return len(s.closed) }

// LocalAddr and the methods below are part of the interface.
func (s *Socket) LocalAddr() net.Addr                { return &net.UDPAddr{} }
func (s *Socket) SetDeadline(t time.Time) error      { return nil }
func (s *Socket) SetReadDeadline(t time.Time) error  { return nil }
func (s *Socket) SetWriteDeadline(t time.Time) error { return nil }
