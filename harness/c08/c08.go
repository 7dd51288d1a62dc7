//go:build go1.21

// Package c08: decoding any payload is total, zero-extends it, and leaves nothing stale.
package c08

import (
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/m"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// Decode decodes every payload length the definition allows into an object with arbitrary contents.
func Decode() {
	c := m.Pick()
	version := 1 + nd.Choose("version", 2)
	if version == 1 && c.Spec.ID > 255 {
		return
	}
	b, n := c.RawUpTo("frame", version, 0, c.Spec.Max)
	hl := h.HeaderLen(version)
	if nd.Choose("short", 3) == 2 {
		nd.Assume(n <= c.Spec.Min) // certainly some path of short payloads
	}
	orig := h.Clone(b)
	msg := c.Fresh("old")
	err := msg.Read(h.Frame(b, version))
	nd.Assert(err == nil, "a payload no longer than the maximum is decoded")
	nd.Assert(nd.EqBytes(b, orig), "the frame is not modified")
	ext := version == 2 && c.HasExt()
	nd.Assert(m.Marker(msg) == ext, "the extension marker is set exactly for version 2 frames of definitions with extensions")
	want := 1
	if ext {
		want = 2
	}
	nd.Assert(msg.GetVersion() == want, "the reported version follows the marker")
	payload := make([]byte, c.Spec.Max)
	for i := range payload {
		payload[i] = nd.IteU8(i < n, orig[hl+i], 0)
	}
	nd.Assert(c.SameOnWire(c.Wire(msg), payload, true), "every field has the value found at its wire position, missing bytes counting as zero")
	if c.Spec.Variable {
		k := m.VarLen(msg)
		nd.Assert(k == nd.IteInt(n > 5, n-5, 0), "the variable length is what is left of the payload")
	}
	nd.Cover("decoded")
}

// Concrete repeats the check for a few fixed payload lengths around the definition's limits.
func Concrete() {
	c := m.Pick()
	version := 1 + nd.Choose("version", 2)
	if version == 1 && c.Spec.ID > 255 {
		return
	}
	lens := []int{0, 1, c.Spec.Min, c.Spec.Max - 1, c.Spec.Max}
	n := lens[nd.Choose("len", len(lens))]
	if n > c.Spec.Max || n < 0 {
		return
	}
	b := c.Raw("frame", version, n)
	hl := h.HeaderLen(version)
	msg := c.Fresh("old")
	err := msg.Read(h.Frame(b, version))
	nd.Assert(err == nil, "a payload no longer than the maximum is decoded")
	nd.Assert(c.SameOnWire(c.Wire(msg), m.Pad(b[hl:hl+n], c.Spec.Max), true), "every field has the value found at its wire position, missing bytes counting as zero")
	before := h.Clone(c.Wire(msg))
	for i := range b {
		b[i] ^= 0xff
	}
	nd.Assert(c.SameOnWire(c.Wire(msg), before, true), "the decoded message does not follow the frame")
	nd.Cover("decoded")
}

// Long decodes payloads longer than the definition allows: whatever comes of it, nothing panics.
func Long() {
	c := m.Pick()
	version := 1 + nd.Choose("version", 2)
	if c.Spec.Max == 255 {
		return
	}
	b, _ := c.RawUpTo("frame", version, c.Spec.Max, 255)
	orig := h.Clone(b)
	msg := c.Fresh("old")
	msg.Read(h.Frame(b, version))
	nd.Assert(nd.EqBytes(b, orig), "the frame is not modified")
	nd.Cover("decoded")
}

// Two has a dialect decode two frames of the same message, one after the other: both messages keep their values,
// and the second object is a different one.
func Two() {
	c := m.PickRegistered()
	version := 1 + nd.Choose("version", 2)
	if version == 1 && c.Spec.ID > 255 {
		return
	}
	p, q := c.Raw("first", version, c.Spec.Max), c.Raw("second", version, c.Spec.Min)
	hl := h.HeaderLen(version)
	x, err := c.D.GetMessage(h.Frame(p, version))
	nd.Assert(err == nil, "a payload no longer than the maximum is decoded")
	y, err := c.D.GetMessage(h.Frame(q, version))
	nd.Assert(err == nil, "a payload no longer than the maximum is decoded")
	nd.Assert(c.SameOnWire(c.Wire(y), m.Pad(q[hl:hl+c.Spec.Min], c.Spec.Max), true), "a message decoded later has its own values")
	nd.Assert(c.SameOnWire(c.Wire(x), m.Pad(p[hl:hl+c.Spec.Max], c.Spec.Max), true), "a message decoded earlier keeps its values")
	x.Read(h.Frame(c.Raw("third", version, c.Spec.Max), version))
	nd.Assert(c.SameOnWire(c.Wire(y), m.Pad(q[hl:hl+c.Spec.Min], c.Spec.Max), true), "messages are independent of each other")
	nd.Cover("two messages")
}
