//go:build go1.21

package c06

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/m"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// Again sends one message object three times, filled anew in between, as senders do that keep one object around.
func Again() {
	c := m.PickRegistered()
	order := nd.Choose("versions", 3)
	msg := c.New()
	ds := mavlink2.Dialects{c.D}
	type item struct {
		version int
		seq     uint8
		frame   mavlink2.Frame
		bytes   []byte
		want    []byte
	}
	var sent []item
	for i, name := range []string{"a", "b", "c"} {
		version := 2
		if c.Spec.ID <= 255 && (order == 1 || order == 2 && i == 1) {
			version = 1
		}
		nd.Fill(name, msg)
		use := c.Spec.Max
		if c.Spec.Variable {
			use = 5 + 4 - i
			nd.SetFieldBits(msg, nd.FieldIndex(msg, "PayloadLength"), 0, uint64(4-i))
		}
		wire := c.Wire(msg)
		if version == 2 {
			nd.Assume(wire[use-1] != 0)
		}
		if version == 1 && !c.Spec.Variable {
			use = c.Spec.Min
		}
		x := item{version: version, seq: nd.U8("seq"), want: m.Pad(h.Clone(wire[:use]), c.Spec.Max)}
		var err error
		x.frame, err = ds.GetFrame(version, 1, 2, x.seq, msg)
		nd.Assert(err == nil && x.frame != nil, "a frame is built")
		x.bytes = h.Clone(x.frame.Bytes())
		sent = append(sent, x)
	}
	for _, x := range sent {
		b := h.Clone(x.frame.Bytes())
		nd.Assert(nd.EqBytes(b, x.bytes), "a built frame stays as it is when the message is used again")
		g, err := mavlink2.FrameFromBytes(b, uint16(len(b)), true)
		nd.Assert(err == nil && g != nil, "the frame is recognised")
		nd.Assert(ds.Validate(g) == nil, "the parsed frame validates")
		nd.Assert(g.GetVersion() == x.version && g.GetMessageSequence() == uint(x.seq), "version and sequence arrive")
		got, err := ds.GetMessage(g)
		nd.Assert(err == nil, "the message is decoded")
		nd.Assert(c.SameOnWire(c.Wire(got), x.want, true), "the field values arrive that the message had when it was sent")
	}
	nd.Cover("sent again")
}
