//go:build go1.21

// Package c11: decoding picks the first dialect that knows the message; unknown ones are kept.
package c11

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// Order tries every collection of up to k dialects.
func Order() {
	version := 1 + nd.Choose("version", 2)
	n := nd.Choose("len", nd.Param("n", 3))
	b := h.Raw("frame", version, n, false)
	orig := h.Clone(b)
	k := nd.Choose("dialects", nd.Param("k", 3)+1)
	var ds mavlink2.Dialects
	var all []*h.Dialect
	first := -1
	for i := 0; i < k; i++ {
		d := &h.Dialect{Answer: nd.Choose("answer", 4), Any: true, Msg: &h.Message{Tag: i}}
		if nd.Choose("silent", 2) == 1 {
			d.Msg = nil
		}
		ds = append(ds, d)
		all = append(all, d)
		if first < 0 && d.Answer != 0 {
			first = i
		}
	}
	f := h.Frame(b, version)
	m, err := ds.GetMessage(f)
	nd.Assert(nd.EqBytes(b, orig), "decoding leaves the frame as it was")
	for i, d := range all {
		if first >= 0 && i > first {
			nd.Assert(d.Parsed == 0, "later dialects are not consulted")
		}
	}
	if first >= 0 {
		d := all[first]
		switch d.Answer {
		case 1:
			nd.Assert(err == nil, "the first dialect that knows the message decodes it")
			nd.Cover("decoded")
		case 2:
			nd.Assert(err == h.ErrOwn, "the error of the first dialect that knows the message is passed on")
			nd.Cover("failed")
		case 3:
			nd.Assert(err == h.ErrOwn2, "the error of the first dialect that knows the message is passed on")
		}
		nd.Assert(m == d.Msg, "what the first dialect returns is returned")
		return
	}
	nd.Assert(err == mavlink2.ErrUnknownMessage, "a message no dialect knows is unknown")
	unknown(m, b, version)
}

func unknown(m mavlink2.Message, b []byte, version int) {
	orig := h.Clone(b)
	hl := h.HeaderLen(version)
	n := int(b[1])
	u, ok := m.(*mavlink2.UnknownMessage)
	nd.Assert(ok && u != nil, "an unknown message is kept as a generic one")
	nd.Assert(u.GetID() == h.ID(b, version), "an unknown message keeps its id")
	nd.Assert(u.ID == h.ID(b, version), "an unknown message keeps its id")
	nd.Assert(u.Version == version, "an unknown message keeps its version")
	nd.Assert(u.GetVersion() == version, "an unknown message keeps its version")
	nd.Assert(nd.EqBytes(u.Raw, orig[hl:hl+n]), "an unknown message keeps its payload")
	for i := range b {
		b[i] ^= 0x55
	}
	nd.Assert(nd.EqBytes(u.Raw, orig[hl:hl+n]), "the payload does not follow the frame")
	for i := range b {
		b[i] = orig[i]
	}
	p, err := u.Write(version)
	nd.Assert(err == nil, "an unknown message can be encoded again")
	nd.Assert(nd.EqBytes(p, orig[hl:hl+n]), "an unknown message encodes to its payload")
	for i := range u.Raw {
		u.Raw[i] ^= 0xff
	}
	nd.Assert(nd.EqBytes(b, orig), "the frame does not follow the payload")
	nd.Cover("unknown")
}

// Unknown decodes frames of every length that no dialect knows.
func Unknown() {
	version := 1 + nd.Choose("version", 2)
	n := h.Lens("len", nd.Param("dense", 16))
	b := h.Raw("frame", version, n, version == 2 && nd.Choose("signed", 2) == 1)
	var ds mavlink2.Dialects
	switch nd.Choose("dialects", 3) {
	case 1:
		ds = mavlink2.Dialects{}
	case 2:
		ds = mavlink2.Dialects{&h.Dialect{Answer: 1, For: h.ID(b, version) ^ 4}}
	}
	m, err := ds.GetMessage(h.Frame(b, version))
	nd.Assert(err == mavlink2.ErrUnknownMessage, "a message no dialect knows is unknown")
	unknown(m, b, version)
}

// History decodes one frame after the other with different collections.
func History() {
	version := 1 + nd.Choose("version", 2)
	b := h.Raw("frame", version, nd.Choose("len", 3), false)
	f := h.Frame(b, version)
	d := &h.Dialect{Answer: nd.Choose("answer", 4), Any: true, Msg: &h.Message{Tag: 1}}
	e := &h.Dialect{Answer: nd.Choose("answer", 4), Any: true, Msg: &h.Message{Tag: 2}}
	ds := mavlink2.Dialects{d, e}
	check := func(ds mavlink2.Dialects, all ...*h.Dialect) {
		m, err := ds.GetMessage(f)
		for _, x := range all {
			if x.Answer == 0 {
				continue
			}
			nd.Assert(m == x.Msg, "the first dialect of the collection that knows the message decides, whatever happened before")
			want := error(nil)
			if x.Answer == 2 {
				want = h.ErrOwn
			} else if x.Answer == 3 {
				want = h.ErrOwn2
			}
			nd.Assert(err == want, "the first dialect of the collection that knows the message decides, whatever happened before")
			return
		}
		nd.Assert(err == mavlink2.ErrUnknownMessage, "a message no dialect of the collection knows is unknown, whatever happened before")
		unknown(m, b, version)
	}
	check(ds, d, e)
	check(mavlink2.Dialects{e, d}, e, d)
	check(nil)
	check(ds, d, e)
	switch nd.Choose("change", 3) {
	case 0:
		d.Answer = nd.Choose("answer", 4)
		check(ds, d, e)
	case 1:
		ds[0] = e
		check(ds, e, e)
	case 2:
		check(ds[1:], e)
	}
	nd.Cover("several collections")
}
