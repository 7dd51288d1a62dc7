//go:build go1.21

package c06

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/m"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// Many sends a long run of messages of many types; some frames wait while others are built, and decoded messages are
// kept to the end.
func Many() {
	k := nd.Param("k", 300)
	type item struct {
		c       *m.Case
		version int
		wire    []byte
		frame   mavlink2.Frame
		seq     uint8
		got     mavlink2.Message
	}
	var sent, kept []item
	arrive := func(x item) {
		b := h.Clone(x.frame.Bytes())
		ds := mavlink2.Dialects{x.c.D}
		g, err := mavlink2.FrameFromBytes(b, uint16(len(b)), true)
		nd.Assert(err == nil && g != nil, "the frame is recognised")
		nd.Assert(ds.Validate(g) == nil, "the parsed frame validates")
		nd.Assert(g.GetMessageSequence() == uint(x.seq) && g.GetSenderSystemID() == x.seq+1 && g.GetSenderComponentID() == x.seq+2, "sender and sequence arrive")
		x.got, err = ds.GetMessage(g)
		nd.Assert(err == nil, "the message is decoded")
		nd.Assert(nd.SameType(x.got, x.c.New()), "the message has the same type")
		nd.Assert(x.c.SameOnWire(x.c.Wire(x.got), x.wire, true), "the field values arrive")
		kept = append(kept, x)
	}
	for i := 0; i < k; i++ {
		c := m.Nth(i)
		if !c.Spec.Registered {
			continue
		}
		version := 1 + i%2
		b := c.NthFrame(i, version)
		if b == nil {
			continue
		}
		hl := h.HeaderLen(version)
		msg := c.New()
		nd.Assert(msg.Read(h.Frame(b, version)) == nil, "a payload no longer than the maximum is decoded")
		x := item{c: c, version: version, wire: m.Pad(b[hl:len(b)-2], c.Spec.Max), seq: uint8(i)}
		var err error
		x.frame, err = mavlink2.Dialects{c.D}.GetFrame(version, x.seq+1, x.seq+2, x.seq, msg)
		nd.Assert(err == nil && x.frame != nil, "a frame is built")
		sent = append(sent, x)
		if i%4 != 1 {
			arrive(sent[0])
			sent = sent[1:]
		}
	}
	for _, x := range sent {
		arrive(x)
	}
	for _, x := range kept {
		nd.Assert(x.c.SameOnWire(x.c.Wire(x.got), x.wire, true), "a message that has arrived keeps its values")
	}
	if len(kept) > k/2 {
		nd.Cover("many arrived")
	}
}
