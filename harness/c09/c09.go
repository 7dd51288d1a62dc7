//go:build go1.21

// Package c09: messages are never squeezed into a protocol version that cannot carry them.
package c09

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/m"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

func setup() (*m.Case, mavlink2.Message, int, []byte, bool) {
	c := m.Pick()
	msg := c.Fresh("m")
	version := nd.Int("version")
	if c.Spec.Variable {
		nd.SetFieldBits(msg, nd.FieldIndex(msg, "PayloadLength"), 0, 3)
	}
	return c, msg, version, h.Clone(c.Wire(msg)), m.Marker(msg)
}

// Encode asks for every version.
func Encode() {
	c, msg, version, wire, marker := setup()
	// keep the trimming of trailing zeros out of the picture
	last := &c.Spec.Fields[len(c.Spec.Fields)-1]
	k := last.N
	if k > 0 {
		k--
	}
	nd.SetFieldBits(msg, nd.FieldIndex(msg, last.Name), k, 1<<(8*uint(last.Size)-1))
	wire = h.Clone(c.Wire(msg))
	out, err := msg.Write(version)
	if version != 1 && version != 2 {
		nd.Assert(err == mavlink2.ErrUnsupportedVersion, "any other version is unsupported")
		nd.Cover("unsupported")
	} else if version == 1 && c.Spec.ID > 255 {
		nd.Assert(err == mavlink2.ErrEncodeV2MessageV1Frame, "version 1 has no room for the id")
		nd.Cover("narrow")
	} else {
		nd.Assert(err == nil, "a version that can carry the message is not refused")
		nd.Assert(len(out) > 0, "a version that can carry the message yields a payload")
		nd.Cover("encoded")
		return
	}
	nd.Assert(len(out) == 0, "a refusal yields no payload")
	nd.Assert(c.SameOnWire(c.Wire(msg), wire, true), "a refusal leaves the fields as they were")
	nd.Assert(m.Marker(msg) == marker, "a refusal leaves the marker as it was")
}

// Decode offers frames of every version.
func Decode() {
	c, msg, version, wire, marker := setup()
	f := &m.Fake{Version: version, ID: c.Spec.ID, Payload: nd.Bytes("payload", c.Spec.Max)}
	err := msg.Read(f)
	if version != 1 && version != 2 {
		nd.Assert(err == mavlink2.ErrUnsupportedVersion, "any other version is unsupported")
		nd.Cover("unsupported")
	} else if version == 1 && c.Spec.ID > 255 {
		nd.Assert(err == mavlink2.ErrDecodeV2MessageV1Frame, "a version 1 frame cannot carry the message")
		nd.Cover("narrow")
	} else {
		nd.Assert(err == nil, "a version that can carry the message is not refused")
		nd.Cover("decoded")
		return
	}
	nd.Assert(c.SameOnWire(c.Wire(msg), wire, true), "a refusal leaves the fields as they were")
	nd.Assert(m.Marker(msg) == marker, "a refusal leaves the marker as it was")
}

// Build builds frames of every version with the dialect that defines the message.
func Build() {
	c, msg, version, wire, _ := setup()
	if !c.Spec.Registered {
		return
	}
	if c.Spec.ID <= 255 {
		nd.Assume(version != 1 && version != 2)
	} else {
		nd.Assume(version != 2)
	}
	f, err := mavlink2.Dialects{c.D}.GetFrame(version, nd.U8("sys"), nd.U8("comp"), nd.U8("seq"), msg)
	nd.Assert(f == nil, "a refusal yields no frame")
	if version == 1 {
		nd.Assert(err == mavlink2.ErrEncodeV2MessageV1Frame, "version 1 has no room for the id")
		nd.Cover("narrow")
	} else {
		nd.Assert(err == mavlink2.ErrUnsupportedVersion, "any other version is unsupported")
		nd.Cover("unsupported")
	}
	nd.Assert(c.SameOnWire(c.Wire(msg), wire, true), "a refusal leaves the fields as they were")
}
