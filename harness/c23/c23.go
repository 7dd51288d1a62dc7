//go:build go1.21

// Package c23: decoding a frame and building it anew keeps its content.
package c23

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/m"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// Relay relays frames of every message type.
func Relay() {
	c := m.PickRegistered()
	version := 1 + nd.Choose("version", 2)
	if version == 1 && c.Spec.ID > 255 {
		return
	}
	full := c.Spec.Max
	var n int
	if version == 1 {
		n = c.Spec.Min
		if c.Spec.Variable {
			n = []int{5, 6, 100, 253, 254}[nd.Choose("len", 5)]
		}
	} else {
		lens := []int{full, full - 1, c.Spec.Min, 1, 0}
		n = lens[nd.Choose("len", len(lens))]
		if n < 0 {
			return
		}
	}
	b := c.Raw("frame", version, n)
	hl := h.HeaderLen(version)
	if version == 2 {
		b[2], b[3] = 0, 0
		// how many trailing zeros the payload has: none, one, half, all
		last := []int{n - 1, n - 2, n / 2, 0}[nd.Choose("tail", 4)]
		if last >= 0 {
			for i := last + 1; i < n; i++ {
				nd.Assume(b[hl+i] == 0)
			}
			if last > 0 {
				nd.Assume(b[hl+last] != 0)
			}
		}
	}
	h.Seal(b, version, c.Spec.CRC)
	f := h.Frame(b, version)
	ds := mavlink2.Dialects{c.D}
	nd.Assume(ds.Validate(f) == nil)
	orig := h.Clone(b)
	msg, err := ds.GetMessage(f)
	nd.Assert(err == nil, "a valid frame is decoded")
	g, err := ds.GetFrame(version, f.GetSenderSystemID(), f.GetSenderComponentID(), uint8(f.GetMessageSequence()), msg)
	nd.Assert(err == nil && g != nil, "the decoded message is built anew")
	out := g.Bytes()
	nd.Assert(len(out) >= hl+2, "the new frame has a header and a checksum")
	k := len(out) - hl - 2
	nd.Assert(int(out[1]) == k, "the new frame announces its payload")
	nd.Assert(nd.And(out[0] == orig[0], nd.EqBytes(out[2:hl], orig[2:hl])), "the header is kept")
	if version == 1 {
		nd.Assert(k == n, "the version 1 payload keeps its length")
	}
	nd.Assert(k <= full, "the payload is no longer than the definition allows")
	nd.Assert(c.SameOnWire(m.Pad(out[hl:hl+k], full), m.Pad(orig[hl:hl+n], full), true), "the payload is kept up to trailing zeros")
	nd.Assert(nd.EqBytes(b, orig), "the relayed frame is not modified")
	nd.Assert(ds.Validate(g) == nil, "the new frame is valid")
	nd.Cover("relayed")
}
