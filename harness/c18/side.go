//go:build go1.21

package c18

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// Side ends one stream in any way while another one is at work, which ends in another way later.
func Side() {
	a := newWorld(0)
	first := nd.Choose("first", kinds)
	second := nd.Choose("second", kinds)
	b := newWorld(0)
	b.prepare(second)
	a.prepare(first)
	a.start()
	b.start()
	a.end(first)
	a.finish()
	select {
	case <-b.s.Closed():
		nd.Assert(false, "the end of a stream closes no other one")
	default:
	}
	nd.Assert(b.s.GetCloseErr() == nil, "a stream that goes on has no close reason")
	nd.Assert(b.l.Closes == 0, "the end of a stream closes no other transport")
	e := a.s.GetCloseErr()
	b.l.In <- st.Valid1(3)
	f, ok := <-b.s.Read()
	nd.Assert(ok && nd.EqBytes(f.Bytes(), st.Valid1(3)), "the other stream delivers")
	if second != 3 {
		b.ch <- mavlink2.FrameV1(st.Valid1(4))
		nd.Yield()
	}
	b.end(second)
	b.finish()
	nd.Assert(a.s.GetCloseErr() == e, "the reason of the first never changes")
	nd.Assert(a.l.Closes == 1, "the first transport is closed once")
	// one made later is open
	c := newWorld(0)
	nd.Assert(c.s.GetCloseErr() == nil, "a new stream has no close reason")
	c.prepare(0)
	c.start()
	c.l.In <- st.Valid1(5)
	f, ok = <-c.s.Read()
	nd.Assert(ok && nd.EqBytes(f.Bytes(), st.Valid1(5)), "a new stream delivers")
	c.end(0)
	c.finish()
	nd.Cover("ended one after the other")
}
