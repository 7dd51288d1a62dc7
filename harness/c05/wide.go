//go:build go1.21

package c05

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// Wide has one of many dialects know the seed.
func Wide() {
	version := 1 + nd.Choose("version", 2)
	m := &h.Message{ID: nd.U32("id"), Payload: nd.Bytes("payload", nd.Choose("len", 3))}
	nd.Assume(m.ID <= 0xffffff)
	nd.Assume(nd.Or(version == 2, m.ID <= 255))
	k := nd.Param("k", 40)
	at := h.Position(k)
	d := &h.Dialect{Answer: 1 + nd.Choose("failing", 2), For: m.ID, Meta: mavlink2.MessageMeta{CRCExtra: nd.U8("extra"), MaximumLength: 255}}
	seq, sys, comp := nd.U8("seq"), nd.U8("sys"), nd.U8("comp")
	orig := h.Clone(m.Payload)
	f, err := h.Wide(k, at, d).GetFrame(version, sys, comp, seq, m)
	switch {
	case at == k:
		nd.Assert(err == mavlink2.ErrUnknownMessage && f == nil, "an undefined message is unknown")
		nd.Cover("unknown")
	case d.Answer == 2:
		nd.Assert(err == h.ErrOwn && f == nil, "a dialect's failure is passed on")
		nd.Cover("failing")
	default:
		nd.Assert(err == nil && f != nil, "nothing else is refused")
		layout(f, version, seq, sys, comp, m.ID, orig, d.Meta.CRCExtra)
		nd.Cover("built")
	}
}
