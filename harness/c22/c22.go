//go:build go1.21

// Package c22: no bytes from the network can crash a receiver.
package c22

import (
	"fmt"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/m"
	"github.com/botlink/go-mavlink2/zzverif/msgs"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/spec"
)

func use(f mavlink2.Frame) {
	f.GetVersion()
	f.GetMessageLength()
	f.GetMessageSequence()
	f.GetSenderSystemID()
	f.GetSenderComponentID()
	f.GetMessageID()
	f.GetMessageBytes()
	f.GetChecksum()
	f.GetChecksumInput()
	f.Bytes()
	if g, ok := f.(mavlink2.FrameV2); ok {
		g.GetIncompatibilityFlags()
		g.GetCompatibilityFlags()
		g.GetSignature()
	}
	if s, ok := f.(fmt.Stringer); ok {
		_ = s.String()
	}
}

func read(msg mavlink2.Message) {
	msg.GetVersion()
	msg.GetDialect()
	msg.GetMessageName()
	msg.GetID()
	if p, ok := msg.(interface{ GetPayload() []byte }); ok {
		p.GetPayload()
	}
	if s, ok := msg.(fmt.Stringer); ok {
		_ = s.String()
	}
}

// Frames uses every accessor of complete frames of every length.
func Frames() {
	version := 1 + nd.Choose("version", 2)
	n := h.Lens("len", nd.Param("dense", 8))
	signed := version == 2 && nd.Choose("signed", 2) == 1
	b := h.Raw("frame", version, n, signed)
	f, err := mavlink2.FrameFromBytes(b, uint16(len(b)), true)
	nd.Assert(err == nil && f != nil, "a complete frame is accepted")
	use(f)
	nd.Cover("used")
}

// Messages decodes complete frames of every length, valid or not, with every dialect and uses the result.
func Messages() {
	c := m.PickRegistered()
	version := 1 + nd.Choose("version", 2)
	if version == 1 && c.Spec.ID > 255 {
		return
	}
	b, _ := c.RawUpTo("frame", version, 0, 255)
	f := h.Frame(b, version)
	ds := mavlink2.Dialects{c.D}
	msg, err := ds.GetMessage(f)
	if err == nil {
		nd.Assert(msg != nil, "decoding succeeds or returns an error")
		read(msg)
		nd.Cover("decoded")
	}
}

// Texts decodes frames of a few lengths and uses each text accessor, or encodes the message again.
func Texts() {
	c := m.PickRegistered()
	version := 1 + nd.Choose("version", 2)
	if version == 1 && c.Spec.ID > 255 {
		return
	}
	msg := c.New()
	ts := texts(msg)
	k := nd.Choose("use", 1+len(ts))
	n := []int{0, c.Spec.Min, c.Spec.Max, 255}[nd.Choose("len", 4)]
	b := c.Raw("frame", version, n)
	if k == 0 && c.Spec.Max > 40 {
		for i := 40; i < n-8; i++ {
			b[h.HeaderLen(version)+i] = 1
		}
	}
	if err := msg.Read(h.Frame(b, version)); err != nil {
		nd.Assert(n > c.Spec.Max, "payloads within the definition are decoded")
		return
	}
	if k == 0 {
		out, err := msg.Write(2)
		nd.Assert(err != nil || len(out) <= 255, "encoding gives a payload or an error")
		return
	}
	nd.Assert(len(ts[k-1]()) <= 255, "a text is part of the payload")
	nd.Cover("text")
}

// Unknown decodes frames with every id by every dialect.
func Unknown() {
	version := 1 + nd.Choose("version", 2)
	e := msgs.Dialects[nd.Choose("dialect", len(msgs.Dialects))]
	n := []int{0, 1, 7}[nd.Choose("len", 3)]
	b := h.Raw("frame", version, n, false)
	for i := range spec.All {
		if spec.All[i].Pkg == e.Pkg {
			for k := range spec.All[i].Msgs {
				x := &spec.All[i].Msgs[k]
				if x.Registered {
					nd.Assume(h.ID(b, version) != x.ID) // those are decoded by Messages
				}
			}
		}
	}
	ds := mavlink2.Dialects{e.D()}
	f := h.Frame(b, version)
	ds.Validate(f)
	msg, err := ds.GetMessage(f)
	nd.Assert(err != nil || msg != nil, "decoding succeeds or returns an error")
	if msg != nil {
		read(msg)
		nd.Cover("unknown")
	}
}
