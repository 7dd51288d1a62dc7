//go:build go1.21

// Package c04: frame accessors report exactly what is on the wire.
package c04

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// Recognise gives arbitrary buffers to FrameFromBytes.
func Recognise() {
	n := nd.Choose("n", nd.Param("n", 16))
	b := nd.Bytes("raw", n)
	orig := h.Clone(b)
	cp := nd.Choose("copy", 2) == 1
	k := nd.Choose("announced", n+1)
	f, err := mavlink2.FrameFromBytes(b, uint16(k), cp)
	nd.Assert(nd.EqBytes(b, orig), "the source buffer is not modified")
	if n == 0 {
		nd.Assert(err == mavlink2.ErrFrameTooShort, "an empty buffer is too short")
		nd.Assert(f == nil, "an empty buffer gives no frame")
		nd.Cover("empty")
		return
	}
	switch b[0] {
	case 0xfe:
		nd.Assert(err == nil, "the version 1 start byte is accepted")
		_, ok := f.(mavlink2.FrameV1)
		nd.Assert(ok, "the version 1 start byte gives a version 1 frame")
		nd.Cover("v1")
	case 0xfd:
		nd.Assert(err == nil, "the version 2 start byte is accepted")
		_, ok := f.(mavlink2.FrameV2)
		nd.Assert(ok, "the version 2 start byte gives a version 2 frame")
		nd.Cover("v2")
	default:
		nd.Assert(err == mavlink2.ErrUnknownStartByte, "another start byte is refused as unknown")
		nd.Assert(f == nil, "another start byte gives no frame")
		nd.Cover("other")
		return
	}
	if cp {
		got := f.Bytes()
		nd.Assert(len(got) == k, "a copy holds exactly the announced number of bytes")
		nd.Assert(nd.EqBytes(got, orig[:k]), "a copy holds the announced bytes")
		for i := range b {
			b[i] ^= 0xff
		}
		nd.Assert(nd.EqBytes(got, orig[:k]), "a copy does not follow the source buffer")
		for i := range b {
			b[i] = orig[i]
		}
		for i := range got {
			got[i] ^= 0xff
		}
		if k > 0 {
			got = append(got[:k-1], 1, 2, 3)
		}
		nd.Assert(nd.EqBytes(b, orig), "the source buffer does not follow the copy")
		nd.Cover("copied")
	} else {
		nd.Assert(nd.EqBytes(f.Bytes()[:k], orig[:k]), "the frame holds the buffer's bytes")
	}
}

func le16(a, b byte) uint16 { return uint16(a) | uint16(b)<<8 }

// V1 checks every accessor of every version 1 frame.
func V1() {
	n := h.Lens("len", nd.Param("dense", 16))
	b := h.Raw("frame", 1, n, false)
	orig := h.Clone(b)
	f, err := mavlink2.FrameFromBytes(b, uint16(len(b)), nd.Choose("copy", 2) == 1)
	nd.Assert(err == nil && f != nil, "a complete frame is accepted")
	nd.Assert(f.GetVersion() == 1, "version")
	nd.Assert(f.GetMessageLength() == uint(n), "payload length")
	nd.Assert(f.GetMessageSequence() == uint(orig[2]), "sequence")
	nd.Assert(f.GetSenderSystemID() == orig[3], "system id")
	nd.Assert(f.GetSenderComponentID() == orig[4], "component id")
	nd.Assert(f.GetMessageID() == uint32(orig[5]), "message id")
	nd.Assert(nd.EqBytes(f.GetMessageBytes(), orig[6:6+n]), "payload")
	nd.Assert(f.GetChecksum() == le16(orig[6+n], orig[7+n]), "checksum")
	nd.Assert(nd.EqBytes(f.GetChecksumInput(), orig[1:6+n]), "checksummed range")
	nd.Assert(nd.EqBytes(f.Bytes(), orig), "raw bytes")
	nd.Assert(nd.EqBytes(b, orig), "accessors leave the frame as it was")
	nd.Cover("checked")
}

// V2 checks every accessor of every version 2 frame.
func V2() {
	n := h.Lens("len", nd.Param("dense", 16))
	signed := nd.Choose("signed", 2) == 1
	b := h.Raw("frame", 2, n, signed)
	orig := h.Clone(b)
	g, err := mavlink2.FrameFromBytes(b, uint16(len(b)), nd.Choose("copy", 2) == 1)
	nd.Assert(err == nil && g != nil, "a complete frame is accepted")
	f, ok := g.(mavlink2.FrameV2)
	nd.Assert(ok, "the start byte tells a version 2 frame")
	nd.Assert(f.GetVersion() == 2, "version")
	nd.Assert(f.GetMessageLength() == uint(n), "payload length")
	nd.Assert(f.GetIncompatibilityFlags() == orig[2], "incompatibility flags")
	nd.Assert(f.GetCompatibilityFlags() == orig[3], "compatibility flags")
	nd.Assert(f.GetMessageSequence() == uint(orig[4]), "sequence")
	nd.Assert(f.GetSenderSystemID() == orig[5], "system id")
	nd.Assert(f.GetSenderComponentID() == orig[6], "component id")
	nd.Assert(f.GetMessageID() == uint32(orig[7])|uint32(orig[8])<<8|uint32(orig[9])<<16, "message id")
	nd.Assert(nd.EqBytes(f.GetMessageBytes(), orig[10:10+n]), "payload")
	nd.Assert(f.GetChecksum() == le16(orig[10+n], orig[11+n]), "checksum")
	nd.Assert(nd.EqBytes(f.GetChecksumInput(), orig[1:10+n]), "checksummed range")
	sig := f.GetSignature()
	if signed {
		nd.Assert(nd.EqBytes(sig, orig[12+n:25+n]), "signature")
		nd.Cover("signed")
	} else {
		nd.Assert(sig == nil, "no signature without the flag")
		nd.Cover("unsigned")
	}
	nd.Assert(nd.EqBytes(f.Bytes(), orig), "raw bytes")
	nd.Assert(nd.EqBytes(b, orig), "accessors leave the frame as it was")
}
