//go:build go1.21

// Package c07: encoded payloads follow the MAVLink wire format of each message definition.
package c07

import (
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/m"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// Encode encodes every message type with arbitrary field values.
func Encode() {
	c := m.Pick()
	version := 1 + nd.Choose("version", 2)
	if version == 1 && c.Spec.ID > 255 {
		return
	}
	msg := c.Fresh("m")
	full := c.Spec.Max
	if c.Spec.Variable {
		k := nd.Choose("room", nd.Param("room", 12))
		if k >= 6 {
			k = 255 - (k - 6) // beyond the capacity, and just below
		}
		i := nd.FieldIndex(msg, "PayloadLength")
		nd.SetFieldBits(msg, i, 0, uint64(k))
		if k > 249 {
			k = 249
		}
		full = 5 + k
	}
	wire := c.Wire(msg)
	keep := h.Clone(wire)
	marker := m.Marker(msg)
	out, err := msg.Write(version)
	nd.Assert(err == nil, "a version that can carry the message encodes it")
	nd.Assert(m.Marker(msg) == marker, "encoding leaves the extension marker as it was")
	nd.Assert(c.SameOnWire(c.Wire(msg), keep, true), "encoding leaves the message as it was")
	if version == 1 {
		want := c.Spec.Min
		if c.Spec.Variable {
			want = full
		}
		nd.Assert(len(out) == want, "version 1 has exactly the fixed length")
		nd.Assert(c.SameOnWire(m.Pad(out, c.Spec.Max), m.Pad(wire[:want], c.Spec.Max), false), "version 1 has the fields in wire order")
		nd.Cover("v1")
		return
	}
	k := len(out)
	nd.Assert(k >= 1, "version 2 has at least one byte")
	nd.Assert(k <= full, "version 2 has at most the full length")
	nd.Assert(c.SameOnWire(m.Pad(out, c.Spec.Max), m.Pad(wire[:full], c.Spec.Max), true), "version 2 has the fields in wire order, only zeros are cut off")
	if k > 1 {
		nd.Assert(out[k-1] != 0, "trailing zeros are cut off")
		nd.Cover("v2")
	} else {
		nd.Cover("v2 one byte")
	}
}

// Twice encodes the same message twice and checks that the first result is left alone.
func Twice() {
	c := m.Pick()
	version := 1 + nd.Choose("version", 2)
	if version == 1 && c.Spec.ID > 255 || c.Spec.Variable {
		return
	}
	a, b := c.Fresh("a"), c.Fresh("b")
	last := &c.Spec.Fields[len(c.Spec.Fields)-1]
	for _, msg := range []any{a, b} {
		i := nd.FieldIndex(msg, last.Name)
		n := last.N
		if n > 0 {
			n--
		}
		nd.SetFieldBits(msg, i, n, ^uint64(0)>>(64-8*uint(last.Size)))
	}
	x, err := a.Write(version)
	nd.Assert(err == nil, "a version that can carry the message encodes it")
	keep := h.Clone(x)
	y, err := b.Write(version)
	nd.Assert(err == nil, "a version that can carry the message encodes it")
	for i := range y {
		y[i] ^= 0xff
	}
	nd.Assert(nd.EqBytes(x, keep), "an encoded payload is not shared with another one")
	nd.Cover("checked")
}
