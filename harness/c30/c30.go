//go:build go1.21

// Package c30: a stream over the UDP transport hears every peer and answers the first.
package c30

import (
	"context"
	"errors"
	"net"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/util"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
	"github.com/botlink/go-mavlink2/zzverif/udp"
)

var errRead = errors.New("read failure")
var errWrite = errors.New("write failure")

// addr is an arbitrary address.
func addr() *net.UDPAddr {
	return &net.UDPAddr{IP: net.IP(nd.Bytes("ip", 4)), Port: nd.Range("port", 0, 65535)}
}

func clone(a *net.UDPAddr) *net.UDPAddr {
	return &net.UDPAddr{IP: net.IP(h.Clone(a.IP)), Port: a.Port}
}

func same(a net.Addr, b *net.UDPAddr) bool {
	u, ok := a.(*net.UDPAddr)
	return ok && nd.And(nd.EqBytes(u.IP, b.IP), u.Port == b.Port)
}

// Packets receives a stream of pieces of any kind as packets of any sizes from any peers.
func Packets() {
	d := &st.Dialect{Min: 0, Max: 9}
	b := &st.Build{D: d}
	k := nd.Param("k", 2)
	var ends []int
	for i := 0; i < k; i++ {
		b.Any(nd.Choose("kind", 5), 1+nd.Choose("version", 3), 1)
		ends = append(ends, len(b.Data))
	}
	b.Frame(2, 2, true)
	ends = append(ends, len(b.Data))
	if nd.Choose("whole", 2) == 0 { // one packet ends anywhere
		at := nd.Choose("at", len(b.Data)+1)
		ends = []int{at, at, len(b.Data)}
	}
	sock := udp.NewSocket(len(ends) + 1)
	from := 0
	for _, e := range ends {
		sock.In <- udp.Packet{Data: h.Clone(b.Data[from:e]), From: addr()}
		from = e
	}
	sock.In <- udp.Packet{Err: errRead}
	invalid := nd.Choose("invalid", 2) == 1
	s := mavlink2.NewFrameStream(udp.New(sock), nil, mavlink2.Dialects{d}, invalid)
	got := st.Receive(s)
	st.Same(got, d.Scan(b.Data, invalid))
	nd.Assert(st.EndedWith(s.GetCloseErr(), errRead), "the stream ends with the socket's error")
	nd.Assert(sock.Closes() == 1, "the socket is closed")
	nd.Assert(len(sock.Out) == 0, "nothing is sent")
	nd.Cover("received")
}

// world is a stream over a socket with both loops running.
type world struct {
	sock  *udp.Socket
	s     *mavlink2.FrameStream
	ch    chan mavlink2.Frame
	loops chan bool
	stop  func()
	first *net.UDPAddr
	n     byte
}

func newWorld() *world {
	w := &world{sock: udp.NewSocket(4), ch: make(chan mavlink2.Frame), loops: make(chan bool, 2)}
	w.s = mavlink2.NewFrameStream(udp.New(w.sock), w.ch, mavlink2.Dialects{st.Any{}}, nd.Choose("invalid", 2) == 1)
	return w
}

func (w *world) start() {
	ctx, cancel := context.WithCancel(context.Background())
	w.stop = cancel
	go func() {
		w.s.ReadContext(ctx)
		w.loops <- true
	}()
	go func() {
		w.s.WriteContext(ctx)
		w.loops <- true
	}()
}

// packet has a packet with one or two frames arrive and takes them.
func (w *world) packet(two bool) {
	from := addr()
	if w.first == nil {
		w.first = clone(from)
	}
	data := st.Valid1(w.n)
	if two {
		data = append(data, st.Valid1(w.n+1)...)
	}
	w.sock.In <- udp.Packet{Data: data, From: from}
	for i := 0; i < len(data); i += len(st.Valid1(0)) {
		f, ok := <-w.s.Read()
		nd.Assert(ok, "frames are delivered, whoever sent them")
		nd.Assert(nd.EqBytes(f.Bytes(), st.Valid1(w.n)), "frames are delivered unaltered and in order")
		w.n++
	}
}

// write submits a frame after a packet has come.
func (w *world) write(length int) {
	version := 1 + nd.Choose("version", 2)
	b := h.Raw("frame", version, length, false)
	want := h.Clone(b)
	w.ch <- h.Frame(b, version)
	sent := <-w.sock.Out
	nd.Assert(nd.EqBytes(sent.Data, want), "a frame is sent as one packet")
	nd.Assert(same(sent.To, w.first), "to the peer heard first")
	nd.Assert(len(w.sock.Out) == 0, "once")
}

func (w *world) finish(want error) {
	<-w.s.Closed()
	nd.Assert(w.s.GetCloseErr() == want, "the stream ends for that reason")
	<-w.loops
	<-w.loops
	_, ok := <-w.s.Read()
	nd.Assert(!ok, "the channel of received frames is closed")
	nd.Assert(w.sock.Closes() == 1, "the socket is closed once")
	nd.Assert(len(w.sock.Out) == 0, "nothing else is sent")
}

// History follows any sequence of packets and writes.
func History() {
	w := newWorld()
	w.start()
	k := nd.Param("k", 3)
	if nd.Choose("empty", 2) == 1 {
		k -= 2
		from := addr()
		w.first = clone(from)
		w.sock.In <- udp.Packet{From: from}
		w.packet(false)
	}
	for ; k > 0; k-- {
		switch nd.Choose("op", 3) {
		case 0:
			w.packet(false)
		case 1:
			w.packet(true)
		case 2:
			if w.first == nil {
				w.ch <- mavlink2.FrameV1(st.Valid1(9))
				w.finish(util.ErrNoAddress)
				nd.Cover("nobody to write to")
				return
			}
			w.write([]int{0, 1, 255}[nd.Choose("length", 3)])
			nd.Cover("an answer")
		}
	}
	switch nd.Choose("end", 3) {
	case 0:
		w.s.Close()
		w.finish(mavlink2.ErrUserClosed)
	case 1:
		w.sock.In <- udp.Packet{Err: errRead}
		w.finish(errRead)
	case 2:
		w.sock.WriteErr = errWrite
		want := errWrite
		if w.first == nil {
			want = util.ErrNoAddress
		}
		w.ch <- mavlink2.FrameV1(st.Valid1(9))
		w.finish(want)
		nd.Cover("a failing write")
	}
}

// Ends ends the stream while a read is pending and perhaps a frame is about to be written.
func Ends() {
	w := newWorld()
	heard := nd.Choose("heard", 2) == 1
	w.start()
	if heard {
		w.packet(false)
	}
	kind := nd.Choose("kind", 3)
	want := mavlink2.ErrUserClosed
	written := nd.Choose("write", 2) == 1
	done := make(chan bool)
	if written {
		go func() {
			select {
			case w.ch <- mavlink2.FrameV1(st.Valid1(9)):
			case <-w.s.Closed():
			}
			close(done)
		}()
	}
	switch kind {
	case 0:
		go w.s.Close()
	case 1:
		go w.stop()
		want = context.Canceled
	case 2:
		w.sock.In <- udp.Packet{Err: errRead}
		want = errRead
	}
	<-w.s.Closed()
	e := w.s.GetCloseErr()
	nd.Assert(e == want || written && !heard && e == util.ErrNoAddress, "the reason is that of an event that happened")
	<-w.loops
	<-w.loops
	if written {
		<-done
	}
	nd.Assert(w.sock.Closes() == 1, "the socket is closed once")
	if len(w.sock.Out) > 0 {
		nd.Assert(heard && written && len(w.sock.Out) == 1, "what is sent has been submitted")
		sent := <-w.sock.Out
		nd.Assert(nd.EqBytes(sent.Data, st.Valid1(9)), "a frame is sent as one packet")
		nd.Assert(same(sent.To, w.first), "to the peer heard first")
		nd.Cover("sent")
	}
	nd.Cover("ended")
}

// Live has packets from two peers arrive while frames are written.
func Live() {
	w := newWorld()
	w.start()
	w.packet(false)
	n := nd.Param("n", 2)
	done := make(chan bool)
	go func() {
		for i := 0; i < n; i++ {
			w.packet(i%2 == 1)
		}
		close(done)
	}()
	for i := 0; i < n; i++ {
		w.ch <- mavlink2.FrameV1(st.Valid1(byte(100 + i)))
	}
	for i := 0; i < n; i++ {
		sent := <-w.sock.Out
		nd.Assert(nd.EqBytes(sent.Data, st.Valid1(byte(100+i))), "frames are sent one per packet and in order")
		nd.Assert(same(sent.To, w.first), "to the peer heard first")
	}
	<-done
	w.s.Close()
	w.finish(mavlink2.ErrUserClosed)
	nd.Cover("both ways")
}

// Many has a long conversation.
func Many() {
	w := newWorld()
	w.start()
	n := nd.Param("n", 200)
	for i := n; i > 0; i-- {
		if i == n/2 {
			for j := 0; j < 150; j++ {
				w.sock.In <- udp.Packet{From: addr()}
			}
		}
		w.n = byte(i)
		w.packet(i%3 == 0)
		if i%2 == 0 {
			b := st.Nth(i, st.Length(i))
			want := h.Clone(b.Bytes())
			w.ch <- b
			sent := <-w.sock.Out
			nd.Assert(nd.EqBytes(sent.Data, want), "a frame is sent as one packet")
			nd.Assert(same(sent.To, w.first), "to the peer heard first")
		}
	}
	w.s.Close()
	w.finish(mavlink2.ErrUserClosed)
	nd.Cover("a long conversation")
}

// Large receives a packet of any of several sizes and one that follows.
func Large() {
	w := newWorld()
	w.start()
	w.packet(false)
	size := []int{279, 280, 512, 558, 559, 1472, 1500, 2048, 4095, 4096}[nd.Choose("size", 10)]
	var data []byte
	var want [][]byte
	for i := 0; ; i++ {
		f := st.Nth(i, []int{255, 3, 90}[i%3]).Bytes()
		if len(data)+len(f) > size {
			break
		}
		data = append(data, f...)
		want = append(want, h.Clone(f))
	}
	for len(data) < size {
		data = append(data, 7)
	}
	w.sock.In <- udp.Packet{Data: data, From: addr()}
	for _, b := range want {
		f, ok := <-w.s.Read()
		nd.Assert(ok && nd.EqBytes(f.Bytes(), b), "every frame of a large packet is delivered")
	}
	w.packet(true)
	w.s.Close()
	w.finish(mavlink2.ErrUserClosed)
	nd.Cover("a large packet")
}
