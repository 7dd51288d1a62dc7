//go:build go1.21

package c21

import (
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/udp"
)

// Many receives a long run of packets from many peers and answers each of them.
func Many() {
	k := nd.Param("k", 300)
	sock := udp.NewSocket(1)
	u := udp.New(sock)
	first := addr()
	keep := clone(first)
	other := addr()
	only := nd.Choose("peers", 2) == 1
	buf := make([]byte, 300)
	for i := 0; i < k; i++ {
		from := first
		if i > 0 && (only || i%3 == 1) {
			from = clone(other)
			if !only {
				from.Port = i
			}
		} else if i > 0 {
			from = clone(keep)
		}
		data := append(nd.Bytes("data", 2), make([]byte, i%280)...)
		sock.In <- udp.Packet{Data: h.Clone(data), From: from}
		n, err := u.Read(buf)
		nd.Assert(err == nil && n == len(data) && nd.EqBytes(buf[:n], data), "every packet is read unaltered")
		c, err := u.Write(data)
		nd.Assert(err == nil && c == len(data) && len(sock.Out) == 1, "every packet is sent")
		s := <-sock.Out
		nd.Assert(nd.EqBytes(s.Data, data), "unaltered")
		to, ok := s.To.(*netUDP)
		nd.Assert(ok && same(to, keep), "to the peer heard first, however many packets were heard")
	}
	nd.Assert(sock.Closes() == 0, "the socket stays open")
	nd.Cover("many packets")
}
