//go:build go1.21

// Package c20: concurrent use of the stream and of the UDP transport is free of data races.
package c20

import (
	"context"
	"fmt"
	"net"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/util"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/m"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/spec"
	"github.com/botlink/go-mavlink2/zzverif/st"
	"github.com/botlink/go-mavlink2/zzverif/udp"
)

// pipe is a transport without any state that is not synchronised.
type pipe struct {
	in   chan []byte
	gone chan struct{}
	sent chan int
}

func newPipe(n int) *pipe {
	p := &pipe{in: make(chan []byte, n), gone: make(chan struct{}), sent: make(chan int, 8)}
	for i := 0; i < n; i++ {
		b := st.Valid1(byte(i))
		if i == 1 {
			b[8]++ // an invalid one
		}
		p.in <- b
	}
	return p
}

func (p *pipe) Read(b []byte) (int, error) {
	select {
	case x := <-p.in:
		return copy(b, x), nil
	case <-p.gone:
		return 0, st.ErrGone
	}
}

func (p *pipe) Write(b []byte) (int, error) {
	n := 0
	for _, x := range b {
		n += int(x)
	}
	p.sent <- n
	return len(b), nil
}

func (p *pipe) Close() error {
	close(p.gone)
	return nil
}

type logger struct{}

func (logger) LogRead(b []byte) error    { return nil }
func (logger) LogWritten(b []byte) error { return nil }

func stream(p *pipe, ch chan mavlink2.Frame) *mavlink2.FrameStream {
	ds := mavlink2.Dialects{st.Any{}}
	invalid := nd.Choose("invalid", 2) == 1
	if nd.Choose("logger", 2) == 1 {
		return mavlink2.NewFrameStreamWithLogger(p, ch, ds, invalid, logger{})
	}
	return mavlink2.NewFrameStream(p, ch, ds, invalid)
}

// consume takes frames and changes them.
func consume(s *mavlink2.FrameStream) {
	for f := range s.Read() {
		b := f.Bytes()
		for i := range b {
			b[i]++
		}
		_ = f.GetMessageID()
	}
}

// All does everything at the same time.
func All() {
	p := newPipe(3)
	ch := make(chan mavlink2.Frame, 1)
	s := stream(p, ch)
	done := make(chan bool, 4)
	ctx, cancel := context.WithCancel(context.Background())
	go func() { s.ReadContext(ctx); done <- true }()
	go func() { s.WriteContext(ctx); done <- true }()
	go func() { consume(s); done <- true }()
	go func() {
		s.Write() <- mavlink2.FrameV1(st.Valid1(7))
		_ = s.GetCloseErr()
		switch nd.Choose("end", 3) {
		case 0:
			s.Close()
		case 1:
			cancel()
		case 2:
			close(ch)
		}
		done <- true
	}()
	_ = s.GetCloseErr()
	<-s.Closed()
	nd.Assert(s.GetCloseErr() != nil, "there is a reason")
	for i := 0; i < 4; i++ {
		<-done
	}
	nd.Cover("everything")
}

// Closers has several goroutines close and look.
func Closers() {
	p := newPipe(1)
	s := stream(p, make(chan mavlink2.Frame))
	done := make(chan bool, 4)
	if nd.Choose("loop", 2) == 1 {
		go func() { s.ReadContext(context.Background()); done <- true }()
	} else {
		go func() { s.WriteContext(context.Background()); done <- true }()
	}
	for i := 0; i < 2; i++ {
		go func() {
			_ = s.GetCloseErr()
			s.Close()
			_ = s.GetCloseErr()
			done <- true
		}()
	}
	_ = s.GetCloseErr()
	for i := 0; i < 3; i++ {
		<-done
	}
	<-s.Closed()
	nd.Cover("several closers")
}

// Streams runs two streams with the same dialects.
func Streams() {
	done := make(chan bool, 4)
	ds := mavlink2.Dialects{st.Any{}}
	for i := 0; i < 2; i++ {
		p := newPipe(2)
		close(p.in)
		p.in = p.in
		s := mavlink2.NewFrameStream(&ending{p}, make(chan mavlink2.Frame), ds, i == 1)
		go func() { s.ReadContext(context.Background()); done <- true }()
		go func() { consume(s); done <- true }()
	}
	for i := 0; i < 4; i++ {
		<-done
	}
	nd.Cover("two streams")
}

// ending is a pipe that ends.
type ending struct{ *pipe }

func (p *ending) Read(b []byte) (int, error) {
	x, ok := <-p.in
	if !ok {
		return 0, st.ErrGone
	}
	return copy(b, x), nil
}

// UDP reads, writes and closes at the same time.
func UDP() {
	sock := udp.NewSocket(3)
	for i := 0; i < 2; i++ {
		sock.In <- udp.Packet{Data: []byte{1, 2}, From: &net.UDPAddr{IP: net.IPv4(10, 0, 0, byte(i)), Port: 1}}
	}
	u := udp.New(sock)
	done := make(chan bool, 4)
	readers := 1 + nd.Choose("readers", 2)
	for i := 0; i < readers; i++ {
		go func() {
			b := make([]byte, 4)
			u.Read(b)
			done <- true
		}()
	}
	for i := 0; i < 2; i++ {
		go func() {
			_, err := u.Write([]byte{3})
			nd.Assert(err == nil || err == util.ErrNoAddress || err == udp.ErrClosed, "no other failure")
			done <- true
		}()
	}
	if nd.Choose("close", 2) == 1 {
		u.Close()
	}
	for i := 0; i < readers+2; i++ {
		<-done
	}
	nd.Cover("reads and writes")
}

// Codec validates, decodes, renders and builds with the same dialects in several goroutines at the same time,
// each with its own frames and messages.
func Codec() {
	s := &spec.All[nd.Choose("dialect", len(spec.All))]
	sp := &s.Msgs[nd.Choose("message", min(nd.Param("messages", 2), len(s.Msgs)))]
	if !sp.Registered {
		return
	}
	c := m.Get(s, sp)
	ds := mavlink2.Dialects{st.None{}, c.D}
	version := 1 + nd.Choose("version", 2)
	if version == 1 && sp.ID > 255 {
		return
	}
	done := make(chan bool, 2)
	work := func(tag byte) {
		b := make([]byte, h.HeaderLen(version)+sp.Max+2)
		b[0], b[1] = 0xfe-byte(version-1), byte(sp.Max)
		if version == 1 {
			b[1] = byte(sp.Min)
			b = b[:8+sp.Min]
		}
		c.Header(b, version)
		b[h.HeaderLen(version)] = tag
		h.Seal(b, version, sp.CRC)
		f, err := mavlink2.FrameFromBytes(b, uint16(len(b)), tag == 1)
		nd.Assert(err == nil, "the frame is recognised")
		nd.Assert(ds.Validate(f) == nil, "the frame is valid")
		x, err := ds.GetMessage(f)
		nd.Assert(err == nil, "the message is decoded")
		if s, ok := x.(fmt.Stringer); ok {
			_ = s.String()
		}
		g, err := ds.GetFrame(version, 1, tag, tag, x)
		nd.Assert(err == nil && g.GetSenderComponentID() == tag, "a frame is built")
		_ = g.(fmt.Stringer).String()
		nd.Assert(ds.Validate(g) == nil, "the frame is valid")
		var u mavlink2.UnknownMessage
		u.Read(g)
		_ = u.String()
		_, err = mavlink2.Dialects{}.GetMessage(g)
		nd.Assert(err == mavlink2.ErrUnknownMessage, "nobody knows it")
		done <- true
	}
	go work(1)
	go work(2)
	<-done
	<-done
	nd.Cover("two at the same time")
}
