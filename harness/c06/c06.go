//go:build go1.21

// Package c06: every message survives the trip through a frame unchanged.
package c06

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/m"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// Trip sends every message type through a frame.
func Trip() {
	c := m.PickRegistered()
	version := 1 + nd.Choose("version", 2)
	if version == 1 && c.Spec.ID > 255 {
		return
	}
	msg := c.Fresh("m")
	use := c.Spec.Max
	if c.Spec.Variable {
		k := []int{0, 1, 2, 100, 248, 249, 250, 255}[nd.Choose("room", 8)]
		nd.SetFieldBits(msg, nd.FieldIndex(msg, "PayloadLength"), 0, uint64(k))
		if k > 249 {
			k = 249
		}
		use = 5 + k
	}
	wire := c.Wire(msg)
	if version == 2 {
		// the length of the encoded payload: everything, one byte less, a middle one, only zeros
		last := []int{use - 1, use - 2, use / 2, 0}[nd.Choose("tail", 4)]
		if last < 0 {
			return
		}
		for i := last + 1; i < use; i++ {
			nd.Assume(wire[i] == 0)
		}
		if last > 0 {
			nd.Assume(wire[last] != 0)
		}
	}
	ds := mavlink2.Dialects{c.D}
	seq, sys, comp := nd.U8("seq"), nd.U8("sys"), nd.U8("comp")
	f, err := ds.GetFrame(version, sys, comp, seq, msg)
	nd.Assert(err == nil && f != nil, "a frame is built")
	nd.Assert(ds.Validate(f) == nil, "the frame validates")
	b := h.Clone(f.Bytes())
	g, err := mavlink2.FrameFromBytes(b, uint16(len(b)), true)
	nd.Assert(err == nil && g != nil, "the frame is recognised")
	nd.Assert(ds.Validate(g) == nil, "the parsed frame validates")
	nd.Assert(g.GetVersion() == version, "the version arrives")
	nd.Assert(g.GetMessageSequence() == uint(seq), "the sequence arrives")
	nd.Assert(g.GetSenderSystemID() == sys, "the system id arrives")
	nd.Assert(g.GetSenderComponentID() == comp, "the component id arrives")
	nd.Assert(g.GetMessageID() == c.Spec.ID, "the message id arrives")
	got, err := ds.GetMessage(g)
	nd.Assert(err == nil, "the message is decoded")
	nd.Assert(nd.SameType(got, msg), "the message has the same type")
	want := h.Clone(wire[:use])
	if version == 1 && !c.Spec.Variable {
		want = want[:c.Spec.Min]
	}
	nd.Assert(c.SameOnWire(c.Wire(got), m.Pad(want, c.Spec.Max), true), "the field values arrive")
	nd.Assert(m.Marker(got) == (version == 2 && c.HasExt()), "the extension marker tells what was carried")
	if c.Spec.Variable && version == 1 {
		nd.Assert(m.VarLen(got) == use-5, "the variable length arrives")
	}
	nd.Cover("arrived")
}
