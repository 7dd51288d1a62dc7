//go:build go1.21

package c21

import (
	"time"

	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
	"github.com/botlink/go-mavlink2/zzverif/udp"
)

// Silence lets time pass between what peers send and what is sent to them.
func Silence() {
	sock := udp.NewSocket(1)
	u := udp.New(sock)
	a, b := addr(), addr()
	buf := make([]byte, 8)
	first := clone(a)
	read := func(p udp.Packet) {
		sock.In <- p
		n, err := u.Read(buf)
		nd.Assert(err == nil && n == len(p.Data) && nd.EqBytes(buf[:n], p.Data), "a packet is read")
	}
	time.Sleep(st.Pauses[nd.Choose("before", len(st.Pauses))])
	read(udp.Packet{Data: []byte{nd.U8("data")}, From: a})
	for i := 0; i < nd.Param("k", 2); i++ {
		time.Sleep(st.Pauses[nd.Choose("pause", len(st.Pauses))])
		if nd.Choose("other", 2) == 1 {
			read(udp.Packet{Data: []byte{nd.U8("data"), 7}, From: b})
		}
		out := []byte{nd.U8("out")}
		n, err := u.Write(out)
		nd.Assert(err == nil && n == 1 && len(sock.Out) == 1, "a packet is sent")
		s := <-sock.Out
		nd.Assert(nd.EqBytes(s.Data, out), "unaltered")
		nd.Assert(same(s.To.(*netUDP), first), "to the peer heard first, however long ago")
	}
	nd.Assert(sock.Closes() == 0, "the socket stays open")
	nd.Cover("written")
}
