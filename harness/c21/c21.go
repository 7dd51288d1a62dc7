//go:build go1.21

// Package c21: the UDP transport answers only the peer it first heard from.
package c21

import (
	"errors"
	"net"

	"github.com/botlink/go-mavlink2/util"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/udp"
)

var errRead = errors.New("read failure")
var errWrite = errors.New("write failure")
var errClose = errors.New("close failure")

// addr is an arbitrary address.
func addr() *net.UDPAddr {
	a := &net.UDPAddr{IP: net.IP(nd.Bytes("ip", []int{4, 16}[nd.Choose("family", 2)])), Port: nd.Range("port", 0, 65535)}
	return a
}

type netUDP = net.UDPAddr

func clone(a *net.UDPAddr) *net.UDPAddr {
	return &net.UDPAddr{IP: net.IP(h.Clone(a.IP)), Port: a.Port, Zone: a.Zone}
}

func same(a, b *net.UDPAddr) bool {
	return nd.And(nd.EqBytes(a.IP, b.IP), nd.And(a.Port == b.Port, nd.EqStr(a.Zone, b.Zone)))
}

// History follows any sequence of received packets, failures and writes.
func History() {
	k := nd.Param("k", 4)
	sock := udp.NewSocket(1)
	u := udp.New(sock)
	var first *net.UDPAddr
	heard := 0
	for i := 0; i < k; i++ {
		switch nd.Choose("op", 4) {
		case 0: // a packet arrives
			data := nd.Bytes("data", nd.Choose("n", nd.Param("lens", 3)))
			from := addr()
			if first == nil {
				first = clone(from)
			}
			heard++
			sock.In <- udp.Packet{Data: h.Clone(data), From: from}
			buf := make([]byte, 8)
			n, err := u.Read(buf)
			nd.Assert(err == nil, "a packet is read")
			nd.Assert(n == len(data) && nd.EqBytes(buf[:n], data), "its bytes are unaltered")
		case 1: // receiving fails
			p := udp.Packet{Err: errRead, N: nd.Choose("count", 2)}
			if nd.Choose("address", 2) == 1 {
				p.From = addr()
			}
			sock.In <- p
			n, err := u.Read(make([]byte, 8))
			nd.Assert(err == errRead && n == p.N, "failures to receive are passed on")
		case 2, 3: // something is sent
			data := nd.Bytes("data", nd.Choose("n", nd.Param("lens", 3)))
			sock.WriteErr = nil
			if nd.Choose("fail", 2) == 1 {
				sock.WriteErr = errWrite
				sock.WriteN = nd.Choose("count", 2)
			}
			orig := h.Clone(data)
			n, err := u.Write(data)
			nd.Assert(nd.EqBytes(data, orig), "the bytes to send are left alone")
			switch {
			case first == nil:
				nd.Assert(err == util.ErrNoAddress && n == 0, "there is nobody to write to")
				nd.Assert(len(sock.Out) == 0, "nothing is sent")
				nd.Cover("nobody to write to")
			case sock.WriteErr != nil:
				nd.Assert(err == errWrite && n == sock.WriteN, "failures to send are passed on")
				nd.Assert(len(sock.Out) == 0, "nothing is sent")
			default:
				nd.Assert(err == nil && n == len(data), "everything is sent")
				nd.Assert(len(sock.Out) == 1, "in one packet")
				s := <-sock.Out
				nd.Assert(nd.EqBytes(s.Data, data), "with exactly the given bytes")
				to, ok := s.To.(*net.UDPAddr)
				nd.Assert(ok && to != nil, "to an address")
				nd.Assert(same(to, first), "to the peer heard first")
				if heard > 1 {
					nd.Cover("an answer after others were heard")
				}
			}
		}
		nd.Assert(sock.Closes() == 0, "the socket stays open")
	}
}

// Sizes sends and receives packets of many sizes.
func Sizes() {
	n := []int{0, 1, 2, 263, 280, 512, 513, 1024, 1472, 2048}[nd.Choose("size", 10)]
	sock := udp.NewSocket(1)
	u := udp.New(sock)
	from := addr()
	data := nd.Bytes("in", n)
	sock.In <- udp.Packet{Data: h.Clone(data), From: from}
	buf := nd.Bytes("buffer", n+nd.Choose("room", 2))
	before := h.Clone(buf)
	c, err := u.Read(buf)
	nd.Assert(err == nil && c == n && nd.EqBytes(buf[:n], data), "a packet is read unaltered")
	nd.Assert(nd.EqBytes(buf[n:], before[n:]), "the rest of the buffer is left alone")
	out := nd.Bytes("out", n)
	w, err := u.Write(out)
	nd.Assert(err == nil && w == n && len(sock.Out) == 1, "a packet is sent")
	s := <-sock.Out
	nd.Assert(nd.EqBytes(s.Data, out), "unaltered")
	nd.Assert(same(s.To.(*net.UDPAddr), from), "to the peer heard first")
	if n > 0 {
		nd.Cover("a packet")
	}
}

// Close closes the socket.
func Close() {
	sock := udp.NewSocket(1)
	u := udp.New(sock)
	if nd.Choose("fail", 2) == 1 {
		sock.CloseErr = errClose
	}
	nd.Assert(u.Close() == sock.CloseErr, "the result of closing is passed on")
	nd.Assert(sock.Closes() == 1, "the socket is closed")
	nd.Cover("closed")
}

// Concurrent has packets from two peers read by two goroutines while a third writes.
func Concurrent() {
	sock := udp.NewSocket(2)
	u := udp.New(sock)
	a, b := addr(), addr()
	nd.Assume(a.Port != b.Port)
	sock.In <- udp.Packet{Data: []byte{1}, From: a}
	sock.In <- udp.Packet{Data: []byte{2}, From: b}
	done := make(chan bool, 4)
	for i := 0; i < 2; i++ {
		go func() {
			buf := make([]byte, 2)
			n, err := u.Read(buf)
			nd.Assert(err == nil && n == 1 && (buf[0] == 1 || buf[0] == 2), "packets are read")
			done <- true
		}()
	}
	go func() {
		for i := 0; i < 2; i++ {
			_, err := u.Write([]byte{byte(i)})
			nd.Assert(err == nil || err == util.ErrNoAddress, "no other failure")
		}
		done <- true
	}()
	<-done
	<-done
	<-done
	_, err := u.Write([]byte{9})
	nd.Assert(err == nil, "a peer was heard")
	var to *net.UDPAddr
	for len(sock.Out) > 0 {
		s := <-sock.Out
		x := s.To.(*net.UDPAddr)
		nd.Assert(nd.Or(same(x, a), same(x, b)), "the peer is one that was heard")
		nd.Assert(to == nil || same(to, x), "the peer never changes")
		to = x
	}
	nd.Cover("two peers at once")
}
