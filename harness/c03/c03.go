//go:build go1.21

// Package c03: a corruption confined to two neighbouring bytes is always detected.
package c03

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// Pair corrupts one arbitrary pair of neighbouring bytes of a valid frame.
func Pair() {
	version := 1 + nd.Choose("version", 2)
	lens := []int{0, 1, 2, 3, 9, 28, 51, 255}
	var n int
	if nd.Param("dense", 0) > 0 {
		n = h.Lens("len", nd.Param("dense", 0))
	} else {
		n = lens[nd.Choose("len", len(lens))]
	}
	b := h.Raw("frame", version, n, false)
	extra := nd.U8("extra")
	h.Seal(b, version, extra)
	d := &h.Dialect{Answer: 1, Any: true, Meta: mavlink2.MessageMeta{CRCExtra: extra, MaximumLength: 255}}
	ds := mavlink2.Dialects{d}
	nd.Assume(ds.Validate(h.Frame(b, version)) == nil)
	nd.Cover("valid")
	at := 2 + nd.Choose("at", len(b)-3) // from the byte after the length to the checksum
	frozen := func(i int) bool {
		if version == 1 {
			return i == 5
		}
		return i >= 7 && i <= 9
	}
	nd.Assume(!frozen(at) || !frozen(at+1))
	x, y := nd.U8("x"), nd.U8("y")
	if frozen(at) {
		x = 0
	}
	if frozen(at + 1) {
		y = 0
	}
	if version == 2 && at == 2 {
		x &^= 1 // a change of the signing flag is tried by Flag
	}
	if at+1 == len(b)-2 {
		// the seed lies between content and checksum: one byte at a time there
		if nd.Choose("single", 2) == 1 {
			x = 0
		} else {
			y = 0
		}
	}
	nd.Assume(nd.Or(x != 0, y != 0))
	b[at] ^= x
	b[at+1] ^= y
	nd.Assert(ds.Validate(h.Frame(b, version)) != nil, "a corrupted frame is refused")
	nd.Cover("corrupted")
}

// Flag corrupts the flag bytes of a frame that has room for a signature.
func Flag() {
	n := nd.Choose("len", nd.Param("n", 4))
	signed := nd.Choose("signed", 2) == 1
	b := h.Raw("frame", 2, n, signed)
	extra := nd.U8("extra")
	h.Seal(b, 2, extra)
	d := &h.Dialect{Answer: 1, Any: true, Meta: mavlink2.MessageMeta{CRCExtra: extra, MaximumLength: 255}}
	ds := mavlink2.Dialects{d}
	room := append(h.Clone(b), nd.Bytes("more", 13)...)
	nd.Assume(ds.Validate(h.Frame(b, 2)) == nil)
	x, y := nd.U8("x"), nd.U8("y")
	nd.Assume(nd.Or(x != 0, y != 0))
	at := nd.Choose("at", 2) + 2
	room[at] ^= x
	room[at+1] ^= y
	nd.Assert(ds.Validate(h.Frame(room, 2)) != nil, "a frame with corrupted flags is refused")
	nd.Cover("corrupted")
}
