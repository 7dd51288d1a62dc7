//go:build go1.21

// Package c29: neither direction of a stream waits for the other.
package c29

import (
	"context"
	"net"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/util"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
	"github.com/botlink/go-mavlink2/zzverif/udp"
)

// gate is a transport whose writes wait to be let through.
type gate struct {
	in    chan []byte
	began chan struct{}
	let   chan struct{}
	wrote chan []byte
	gone  chan struct{}
}

func newGate() *gate {
	return &gate{in: make(chan []byte, 8), began: make(chan struct{}, 8), let: make(chan struct{}, 8), wrote: make(chan []byte, 8), gone: make(chan struct{})}
}

func (g *gate) Read(b []byte) (int, error) {
	select {
	case p := <-g.in:
		return copy(b, p), nil
	case <-g.gone:
		return 0, st.ErrGone
	}
}

func (g *gate) Write(b []byte) (int, error) {
	g.began <- struct{}{}
	select {
	case <-g.let:
	case <-g.gone:
		return 0, st.ErrGone
	}
	g.wrote <- h.Clone(b)
	return len(b), nil
}

func (g *gate) Close() error {
	close(g.gone)
	return nil
}

type logger struct{}

func (logger) LogRead(b []byte) error    { return nil }
func (logger) LogWritten(b []byte) error { return nil }

func stream(g *gate, ch chan mavlink2.Frame) *mavlink2.FrameStream {
	ds := mavlink2.Dialects{st.Any{}}
	if nd.Choose("logger", 2) == 1 {
		return mavlink2.NewFrameStreamWithLogger(g, ch, ds, nd.Choose("invalid", 2) == 1, logger{})
	}
	return mavlink2.NewFrameStream(g, ch, ds, false)
}

func ask(s *mavlink2.FrameStream) {
	nd.Assert(s.GetCloseErr() == nil, "the stream is open")
	select {
	case <-s.Closed():
		nd.Assert(false, "the stream is open")
	default:
	}
}

// Consumer writes while received frames wait for a consumer who does not come, or nothing is received at all.
func Consumer() {
	g := newGate()
	for i := 0; i < 8; i++ {
		g.let <- struct{}{}
	}
	ch := make(chan mavlink2.Frame, nd.Choose("room", 2))
	s := stream(g, ch)
	for i := nd.Choose("received", 3); i > 0; i-- {
		g.in <- st.Valid1(byte(i))
	}
	done := make(chan bool, 2)
	go func() { s.ReadContext(context.Background()); done <- true }()
	go func() { s.WriteContext(context.Background()); done <- true }()
	n := nd.Param("frames", 2)
	for i := 0; i < n; i++ {
		ch <- mavlink2.FrameV1(st.Valid1(byte(i + 10)))
		w := <-g.wrote
		nd.Assert(nd.EqBytes(w, st.Valid1(byte(i+10))), "a frame is written although a received one waits")
		ask(s)
	}
	s.Close()
	<-done
	<-done
	nd.Cover("written")
}

// Writer reads while a write is in progress.
func Writer() {
	g := newGate()
	ch := make(chan mavlink2.Frame, 2)
	s := stream(g, ch)
	done := make(chan bool, 2)
	go func() { s.ReadContext(context.Background()); done <- true }()
	go func() { s.WriteContext(context.Background()); done <- true }()
	ch <- mavlink2.FrameV1(st.Valid1(10))
	if nd.Choose("more", 2) == 1 {
		ch <- mavlink2.FrameV1(st.Valid1(11))
	}
	<-g.began
	n := nd.Param("frames", 2)
	for i := 0; i < n; i++ {
		g.in <- st.Valid1(byte(i))
		f, ok := <-s.Read()
		nd.Assert(ok && nd.EqBytes(f.Bytes(), st.Valid1(byte(i))), "a frame is delivered although a write is in progress")
		ask(s)
	}
	if nd.Choose("let", 2) == 1 {
		g.let <- struct{}{}
		nd.Assert(nd.EqBytes(<-g.wrote, st.Valid1(10)), "the write goes on")
	}
	s.Close()
	<-done
	<-done
	nd.Cover("delivered")
}

// UDP writes and closes while a read is pending.
func UDP() {
	sock := udp.NewSocket(2)
	u := udp.New(sock)
	known := nd.Choose("known", 2) == 1
	if known {
		sock.In <- udp.Packet{Data: []byte{1}, From: &net.UDPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 5}}
		b := make([]byte, 4)
		n, err := u.Read(b)
		nd.Assert(n == 1 && err == nil, "a packet is read")
	}
	done := make(chan bool, 2)
	readers := 1 + nd.Choose("readers", 2)
	for i := 0; i < readers; i++ {
		go func() {
			b := make([]byte, 4)
			_, err := u.Read(b)
			nd.Assert(err == udp.ErrClosed, "the read ends when the transport is closed")
			done <- true
		}()
	}
	for i := 0; i < 2; i++ {
		_, err := u.Write([]byte{2})
		if known {
			nd.Assert(err == nil, "a packet is written while a read is pending")
		} else {
			nd.Assert(err == util.ErrNoAddress, "writing fails at once while the first packet is awaited")
		}
	}
	nd.Assert(u.Close() == nil, "the transport is closed while a read is pending")
	for i := 0; i < readers; i++ {
		<-done
	}
	nd.Cover("written and closed")
}
