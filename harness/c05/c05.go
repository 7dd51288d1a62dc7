//go:build go1.21

// Package c05: a built frame has the MAVLink layout and the header fields it was asked for.
package c05

import (
	"errors"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

var errEncode = errors.New("cannot encode")

func layout(f mavlink2.Frame, version int, seq, sys, comp byte, id uint32, payload []byte, extra byte) {
	b := f.Bytes()
	n := len(payload)
	hl := h.HeaderLen(version)
	nd.Assert(f.GetVersion() == version, "the frame is of the requested version")
	nd.Assert(len(b) == hl+n+2, "the frame consists of header, payload and checksum")
	want := make([]byte, 0, hl+n+2)
	if version == 1 {
		want = append(want, 0xfe, byte(n), seq, sys, comp, byte(id))
	} else {
		want = append(want, 0xfd, byte(n), 0, 0, seq, sys, comp, byte(id), byte(id>>8), byte(id>>16))
	}
	want = append(want, payload...)
	c := h.CRC(want[1:], extra)
	nd.Assert(nd.EqBytes(b[:hl], want[:hl]), "the header holds what was asked for")
	nd.Assert(nd.EqBytes(b[hl:hl+n], payload), "the payload is the message's")
	nd.Assert(nd.And(b[hl+n] == byte(c), b[hl+n+1] == byte(c>>8)), "the checksum is the MAVLink checksum with the definition's seed")
}

// Build builds frames of every length from arbitrary messages.
func Build() {
	version := 1 + nd.Choose("version", 2)
	n := h.Lens("len", nd.Param("dense", 16))
	m := &h.Message{ID: nd.U32("id"), Payload: nd.Bytes("payload", n)}
	nd.Assume(m.ID <= 0xffffff)
	if version == 1 {
		nd.Assume(m.ID <= 255)
	}
	orig := h.Clone(m.Payload)
	d := &h.Dialect{Answer: 1, For: m.ID, Meta: mavlink2.MessageMeta{CRCExtra: nd.U8("extra"), MinimumLength: uint(nd.U8("min")), MaximumLength: uint(nd.U8("max"))}}
	seq, sys, comp := nd.U8("seq"), nd.U8("sys"), nd.U8("comp")
	f, err := mavlink2.Dialects{d}.GetFrame(version, sys, comp, seq, m)
	nd.Assert(err == nil && f != nil, "a message of a loaded dialect is built")
	layout(f, version, seq, sys, comp, m.ID, orig, d.Meta.CRCExtra)
	nd.Assert(nd.EqBytes(m.Payload, orig), "the message's payload is left as it was")
	nd.Cover("built")
}

// Spare is Build with payload slices that have room behind them, as encoders leave it.
func Spare() {
	version := 1 + nd.Choose("version", 2)
	n := nd.Choose("len", nd.Param("n", 6))
	back := nd.Bytes("payload", n+4)
	keep := h.Clone(back)
	m := &h.Message{ID: uint32(nd.U8("id")), Payload: back[:n]}
	d := &h.Dialect{Answer: 1, For: m.ID, Meta: mavlink2.MessageMeta{CRCExtra: nd.U8("extra"), MaximumLength: 255}}
	seq, sys, comp := nd.U8("seq"), nd.U8("sys"), nd.U8("comp")
	ds := mavlink2.Dialects{d}
	f, err := ds.GetFrame(version, sys, comp, seq, m)
	nd.Assert(err == nil && f != nil, "a message of a loaded dialect is built")
	layout(f, version, seq, sys, comp, m.ID, keep[:n], d.Meta.CRCExtra)
	nd.Assert(nd.EqBytes(back, keep), "memory behind the payload is not touched")
	g, err := ds.GetFrame(version, sys, comp, seq+1, m)
	nd.Assert(err == nil && g != nil, "a second frame is built")
	layout(f, version, seq, sys, comp, m.ID, keep[:n], d.Meta.CRCExtra)
	layout(g, version, seq+1, sys, comp, m.ID, keep[:n], d.Meta.CRCExtra)
	nd.Cover("built twice")
}

// Refuse covers the requests that have to be refused, and who decides on the seed.
func Refuse() {
	version := nd.Int("version")
	n := nd.Choose("len", nd.Param("n", 3))
	m := &h.Message{ID: nd.U32("id"), Payload: nd.Bytes("payload", n)}
	nd.Assume(m.ID <= 0xffffff)
	if nd.Choose("encodable", 2) == 1 {
		m.Err = errEncode
	}
	k := nd.Choose("dialects", nd.Param("k", 3)+1)
	var ds mavlink2.Dialects
	var first *h.Dialect
	for i := 0; i < k; i++ {
		d := &h.Dialect{Answer: nd.Choose("answer", 3), For: m.ID, Meta: mavlink2.MessageMeta{CRCExtra: nd.U8("extra"), MaximumLength: 255}}
		ds = append(ds, d)
		if first == nil && d.Answer != 0 {
			first = d
		}
	}
	seq, sys, comp := nd.U8("seq"), nd.U8("sys"), nd.U8("comp")
	orig := h.Clone(m.Payload)
	f, err := ds.GetFrame(version, sys, comp, seq, m)
	badVersion := version != 1 && version != 2
	narrow := version == 1 && m.ID > 255
	unknown := first == nil
	failing := first != nil && first.Answer != 1
	reasons := 0
	if badVersion {
		reasons++
	}
	if narrow {
		reasons++
	}
	if unknown || failing {
		reasons++
	}
	if m.Err != nil {
		reasons++
	}
	if reasons == 0 {
		nd.Assert(err == nil && f != nil, "nothing else is refused")
		layout(f, version, seq, sys, comp, m.ID, orig, first.Meta.CRCExtra)
		nd.Cover("built")
		return
	}
	nd.Assert(err != nil, "an impossible request is refused")
	nd.Assert(f == nil, "a refused request gives no frame")
	if reasons > 1 {
		return
	}
	switch {
	case badVersion:
		nd.Assert(err == mavlink2.ErrUnsupportedVersion, "another version is unsupported")
		nd.Cover("version")
	case narrow:
		nd.Assert(err == mavlink2.ErrEncodeV2MessageV1Frame, "version 1 has no room for the id")
		nd.Cover("narrow")
	case unknown:
		nd.Assert(err == mavlink2.ErrUnknownMessage, "an undefined message is unknown")
		nd.Cover("unknown")
	case failing:
		nd.Assert(err == h.ErrOwn, "a dialect's failure is passed on")
		nd.Cover("failing")
	default:
		nd.Assert(err == errEncode, "the encoder's error is passed on")
		nd.Cover("encoding")
	}
}

// History builds one frame after the other with collections that define the same message with different seeds;
// each frame is what was asked for, and earlier ones stay as they were.
func History() {
	version := 1 + nd.Choose("version", 2)
	n, k := nd.Choose("len", 3), nd.Choose("other len", 3)
	m := &h.Message{ID: uint32(nd.U8("id")), Payload: nd.Bytes("payload", n)}
	o := &h.Message{ID: uint32(nd.U8("other id")), Payload: nd.Bytes("other payload", k)}
	d := &h.Dialect{Answer: 1, Any: true, Meta: mavlink2.MessageMeta{CRCExtra: nd.U8("extra"), MaximumLength: 255}}
	e := &h.Dialect{Answer: 1, Any: true, Meta: mavlink2.MessageMeta{CRCExtra: nd.U8("other extra"), MaximumLength: 255}}
	seq, sys, comp := nd.U8("seq"), nd.U8("sys"), nd.U8("comp")
	one, two := mavlink2.Dialects{d}, mavlink2.Dialects{e}
	f, err := one.GetFrame(version, sys, comp, seq, m)
	nd.Assert(err == nil && f != nil, "a message of a loaded dialect is built")
	g, err := one.GetFrame(version, comp, sys, seq+1, o)
	nd.Assert(err == nil && g != nil, "a message of a loaded dialect is built")
	x, err := two.GetFrame(version, sys, comp, seq, m)
	nd.Assert(err == nil && x != nil, "a message of a loaded dialect is built")
	z, err := mavlink2.Dialects{}.GetFrame(version, sys, comp, seq, m)
	nd.Assert(err == mavlink2.ErrUnknownMessage && z == nil, "a message no dialect defines is refused, whatever was built before")
	y, err := two.GetFrame(3-version, sys, comp, seq, m)
	nd.Assert(err == nil && y != nil, "a message of a loaded dialect is built")
	layout(f, version, seq, sys, comp, m.ID, m.Payload, d.Meta.CRCExtra)
	layout(g, version, seq+1, comp, sys, o.ID, o.Payload, d.Meta.CRCExtra)
	layout(x, version, seq, sys, comp, m.ID, m.Payload, e.Meta.CRCExtra)
	layout(y, 3-version, seq, sys, comp, m.ID, m.Payload, e.Meta.CRCExtra)
	b := x.Bytes()
	for i := range b {
		b[i] ^= 0xff
	}
	layout(f, version, seq, sys, comp, m.ID, m.Payload, d.Meta.CRCExtra)
	layout(y, 3-version, seq, sys, comp, m.ID, m.Payload, e.Meta.CRCExtra)
	nd.Cover("several frames")
}
