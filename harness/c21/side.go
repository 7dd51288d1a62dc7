//go:build go1.21

package c21

import (
	"net"

	"github.com/botlink/go-mavlink2/util"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/udp"
)

// Side has two transports receive and send in any order; each remembers a peer of its own.
func Side() {
	var socks [2]*udp.Socket
	var us [2]*util.UDPReadWriteCloser
	var first [2]*net.UDPAddr
	for i := range us {
		socks[i] = udp.NewSocket(1)
		us[i] = udp.New(socks[i])
	}
	for j := nd.Param("k", 4); j > 0; j-- {
		i := nd.Choose("transport", 2)
		u, s := us[i], socks[i]
		data := nd.Bytes("data", 1)
		if nd.Choose("op", 2) == 0 {
			from := addr()
			if first[i] == nil {
				first[i] = clone(from)
			}
			s.In <- udp.Packet{Data: h.Clone(data), From: from}
			buf := make([]byte, 8)
			n, err := u.Read(buf)
			nd.Assert(err == nil && n == 1 && nd.EqBytes(buf[:n], data), "a packet is read unaltered")
			continue
		}
		n, err := u.Write(data)
		if first[i] == nil {
			nd.Assert(n == 0 && err == util.ErrNoAddress, "writing fails before anyone was heard on this transport")
			nd.Assert(len(s.Out) == 0, "nothing is sent")
			nd.Cover("nobody")
			continue
		}
		nd.Assert(err == nil && n == 1, "a packet is sent")
		sent := <-s.Out
		to, ok := sent.To.(*net.UDPAddr)
		nd.Assert(ok && same(to, first[i]), "to the peer this transport heard first")
		nd.Assert(nd.EqBytes(sent.Data, data), "with the given bytes")
		nd.Cover("sent")
	}
	i := nd.Choose("closed", 2)
	us[i].Close()
	nd.Assert(socks[i].Closes() == 1 && socks[1-i].Closes() == 0, "closing a transport closes its own socket")
}
