//go:build go1.21

// Package c02: validation accepts exactly the well-formed frames of the loaded dialects.
package c02

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/msgs"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/spec"
)

// expected is the verdict that the statement prescribes, as the reason it names (nil: accepted).
func expected(b []byte, version int, meta mavlink2.MessageMeta) error {
	n := int(b[1])
	hl := h.HeaderLen(version)
	sum := h.CRC(b[1:hl+n], meta.CRCExtra)
	if version == 1 && uint(n) < meta.MinimumLength {
		return mavlink2.ErrMessageTooShort
	}
	if uint(n) > meta.MaximumLength {
		return mavlink2.ErrMessageTooLong
	}
	if byte(sum) != b[hl+n] || byte(sum>>8) != b[hl+n+1] {
		return mavlink2.ErrInvalidChecksum
	}
	return nil
}

func same(got, want error) bool { return got == want }

func verdict(ds mavlink2.Dialects, b []byte, version int) error {
	orig := h.Clone(b)
	f := h.Frame(b, version)
	err := ds.Validate(f)
	nd.Assert(nd.EqBytes(b, orig), "validating leaves the frame as it was")
	return err
}

// One dialect with arbitrary metadata, every payload length.
func One() {
	version := 1 + nd.Choose("version", 2)
	n := h.Lens("len", nd.Param("dense", 16))
	b := h.Raw("frame", version, n, false)
	d := &h.Dialect{Answer: 1, For: h.ID(b, version)}
	d.Meta.CRCExtra = nd.U8("extra")
	d.Meta.MinimumLength = uint(nd.U64("min"))
	d.Meta.MaximumLength = uint(nd.U64("max"))
	got := verdict(mavlink2.Dialects{d}, b, version)
	want := expected(b, version, d.Meta)
	// a frame may be out of both bounds only when the definition is contradictory
	nd.Assume(d.Meta.MinimumLength <= d.Meta.MaximumLength)
	nd.Assert((got == nil) == (want == nil), "a frame is accepted exactly when length and checksum fit the definition")
	if want == nil {
		nd.Cover("accepted")
	} else if want == mavlink2.ErrInvalidChecksum {
		nd.Assert(same(got, want), "the reason is the bad checksum")
		nd.Cover("checksum")
	} else {
		// the length is out of bounds: the checksum may be wrong as well
		sumok := nd.And(byte(h.CRC(b[1:len(b)-2], d.Meta.CRCExtra)) == b[len(b)-2], byte(h.CRC(b[1:len(b)-2], d.Meta.CRCExtra)>>8) == b[len(b)-1])
		nd.Assert(nd.Or(same(got, want), nd.And(!sumok, same(got, mavlink2.ErrInvalidChecksum))), "the reason is one that applies")
		if sumok {
			nd.Cover("length")
		}
	}
}

// Signed frames and frames with arbitrary flags follow the same rule.
func Signed() {
	n := nd.Choose("len", nd.Param("n", 4))
	b := h.Raw("frame", 2, n, true)
	d := &h.Dialect{Answer: 1, For: h.ID(b, 2)}
	d.Meta = mavlink2.MessageMeta{CRCExtra: nd.U8("extra"), MaximumLength: uint(nd.U64("max")), MinimumLength: uint(nd.U64("min"))}
	nd.Assume(d.Meta.MinimumLength <= d.Meta.MaximumLength)
	got := verdict(mavlink2.Dialects{d}, b, 2)
	sum := h.CRC(b[1:10+n], d.Meta.CRCExtra)
	ok := nd.And(nd.And(byte(sum) == b[10+n], byte(sum>>8) == b[11+n]), uint(n) <= d.Meta.MaximumLength)
	nd.Assert(nd.Iff(got == nil, ok), "a signed frame is accepted exactly when length and checksum fit the definition")
	if ok {
		nd.Cover("accepted")
	} else {
		nd.Cover("refused")
	}
}

// Collection lets up to k dialects answer in every way; the first that defines the message decides.
func Collection() {
	version := 1 + nd.Choose("version", 2)
	n := nd.Choose("len", nd.Param("n", 3))
	b := h.Raw("frame", version, n, false)
	k := nd.Choose("dialects", nd.Param("k", 3)+1)
	var ds mavlink2.Dialects
	want := error(mavlink2.ErrUnknownMessage)
	var meta mavlink2.MessageMeta
	decided := false
	for i := 0; i < k; i++ {
		d := &h.Dialect{Answer: nd.Choose("answer", 4), For: h.ID(b, version)}
		if nd.Choose("other", 2) == 1 {
			d.For ^= 1 // defines another message
			nd.Assume(d.Answer == 1)
		}
		d.Meta = mavlink2.MessageMeta{CRCExtra: nd.U8("extra"), MinimumLength: uint(nd.U64("min")), MaximumLength: uint(nd.U64("max"))}
		nd.Assume(d.Meta.MinimumLength <= d.Meta.MaximumLength)
		ds = append(ds, d)
		if !decided && d.For == h.ID(b, version) && d.Answer != 0 {
			decided = true
			switch d.Answer {
			case 2:
				want = h.ErrOwn
			case 3:
				want = h.ErrOwn2
			default:
				meta = d.Meta
				want = nil
			}
		}
	}
	got := verdict(ds, b, version)
	if want != nil {
		nd.Assert(same(got, want), "what no dialect defines is unknown, and a dialect's failure is passed on")
		nd.Cover("refused")
		return
	}
	want = expected(b, version, meta)
	nd.Assert((got == nil) == (want == nil), "the first dialect that defines the message decides")
	nd.Assert(nd.Or(got == nil, nd.Or(same(got, want), same(got, mavlink2.ErrInvalidChecksum))), "the reason is one that applies")
	if want == nil {
		nd.Cover("accepted")
	}
}

// Real runs each dialect of the repository against its definitions for every message id.
func Real() {
	di := nd.Choose("dialect", len(spec.All))
	version := 1 + nd.Choose("version", 2)
	sp := spec.All[di]
	var d mavlink2.Dialect
	for _, e := range msgs.Dialects {
		if e.Pkg == sp.Pkg {
			d = e.D()
		}
	}
	if d == nil {
		return
	}
	n := nd.Choose("len", nd.Param("n", 2))
	b := h.Raw("frame", version, n, false)
	id := h.ID(b, version)
	got := verdict(mavlink2.Dialects{d}, b, version)
	known := false
	var extra, min, max int
	for i := range sp.Msgs {
		m := &sp.Msgs[i]
		if !m.Registered {
			continue
		}
		is := id == m.ID
		known = nd.Or(known, is)
		extra = nd.IteInt(is, int(m.CRC), extra)
		min = nd.IteInt(is, m.Min, min)
		max = nd.IteInt(is, m.Max, max)
	}
	sum := h.CRC(b[1:len(b)-2], byte(extra))
	ok := nd.And(known, nd.And(nd.Or(version == 2, n >= min), nd.And(n <= max, nd.And(byte(sum) == b[len(b)-2], byte(sum>>8) == b[len(b)-1]))))
	nd.Assert(nd.Iff(got == nil, ok), "a dialect's frame is accepted exactly when it is well-formed")
	nd.Assert(nd.Iff(same(got, mavlink2.ErrUnknownMessage), !known), "exactly the messages the dialect does not define are unknown")
	nd.Cover("checked")
}

// History validates one frame after the other with collections that differ about the same message: what was
// decided before does not matter.
func History() {
	version := 1 + nd.Choose("version", 2)
	b := h.Raw("frame", version, nd.Choose("len", 3), false)
	c := h.Raw("other", version, nd.Choose("other len", 3), false)
	id := h.ID(b, version)
	meta := func(name string) mavlink2.MessageMeta {
		m := mavlink2.MessageMeta{CRCExtra: nd.U8(name + ".extra"), MinimumLength: uint(nd.Range(name+".min", 0, 255)), MaximumLength: uint(nd.Range(name+".max", 0, 255))}
		nd.Assume(m.MinimumLength <= m.MaximumLength)
		return m
	}
	d := &h.Dialect{Answer: 1, For: id, Meta: meta("a")}
	e := &h.Dialect{Answer: 1, For: id, Meta: meta("b")}
	one, two := mavlink2.Dialects{d}, mavlink2.Dialects{e}
	reuse := nd.Choose("reuse", 3)
	say := func(ds mavlink2.Dialects, x *h.Dialect, f []byte) {
		got := verdict(ds, f, version)
		if x == nil {
			nd.Assert(same(got, mavlink2.ErrUnknownMessage), "a collection that does not define the message refuses it, whatever others say")
			return
		}
		nd.Assert((got == nil) == (expected(f, version, x.Meta) == nil), "a collection decides by its own definition, whatever was decided before")
	}
	say(one, d, b)
	if h.ID(c, version) == id {
		say(one, d, c)
	} else {
		say(one, nil, c)
	}
	switch reuse {
	case 0:
		say(two, e, b)
	case 1: // the same collection gets another dialect
		one[0] = e
		say(one, e, b)
	case 2: // the same dialect changes its mind
		d.Meta = e.Meta
		say(one, d, b)
	}
	say(nil, nil, b)
	say(mavlink2.Dialects{&h.Dialect{Answer: 0, Any: true}}, nil, b)
	nd.Cover("checked")
}
