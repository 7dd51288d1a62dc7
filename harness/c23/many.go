//go:build go1.21

package c23

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/m"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// Many relays a long run of frames of many types; every other one is built when the next ones have been decoded.
func Many() {
	k := nd.Param("k", 300)
	type item struct {
		c       *m.Case
		version int
		in      []byte
		orig    []byte
		msg     mavlink2.Message
	}
	var late []item
	relayed := 0
	build := func(x item) {
		hl := h.HeaderLen(x.version)
		f := h.Frame(x.in, x.version)
		ds := mavlink2.Dialects{x.c.D}
		g, err := ds.GetFrame(x.version, f.GetSenderSystemID(), f.GetSenderComponentID(), uint8(f.GetMessageSequence()), x.msg)
		nd.Assert(err == nil && g != nil, "the decoded message is built anew")
		out := g.Bytes()
		n := len(out) - hl - 2
		nd.Assert(n >= 0 && n <= x.c.Spec.Max && int(out[1]) == n, "the new frame announces its payload")
		nd.Assert(nd.And(out[0] == x.orig[0], nd.EqBytes(out[2:hl], x.orig[2:hl])), "the header is kept")
		nd.Assert(x.c.SameOnWire(m.Pad(out[hl:hl+n], x.c.Spec.Max), m.Pad(x.orig[hl:len(x.orig)-2], x.c.Spec.Max), true), "the payload is kept up to trailing zeros")
		nd.Assert(nd.EqBytes(x.in, x.orig), "the relayed frame is not modified")
		nd.Assert(ds.Validate(g) == nil, "the new frame is valid")
		relayed++
	}
	for i := 0; i < k; i++ {
		c := m.Nth(i)
		if !c.Spec.Registered {
			continue
		}
		version := 1 + i%2
		b := c.NthFrame(i, version)
		if b == nil {
			continue
		}
		x := item{c: c, version: version, in: b, orig: h.Clone(b)}
		ds := mavlink2.Dialects{c.D}
		nd.Assert(ds.Validate(h.Frame(b, version)) == nil, "the frame is valid")
		var err error
		x.msg, err = ds.GetMessage(h.Frame(b, version))
		nd.Assert(err == nil, "a valid frame is decoded")
		if i%2 == 0 {
			late = append(late, x)
		} else {
			build(x)
		}
		if len(late) > 5 {
			build(late[0])
			late = late[1:]
		}
	}
	for _, x := range late {
		build(x)
	}
	if relayed > k/2 {
		nd.Cover("many relayed")
	}
}
