//go:build go1.21

package c02

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// Wide has one of many dialects answer.
func Wide() {
	version := 1 + nd.Choose("version", 2)
	n := nd.Choose("len", 2)
	b := h.Raw("frame", version, n, false)
	k := nd.Param("k", 40)
	at := h.Position(k)
	d := &h.Dialect{Answer: 1, For: h.ID(b, version), Meta: mavlink2.MessageMeta{CRCExtra: nd.U8("extra"), MinimumLength: uint(nd.U64("min")), MaximumLength: uint(nd.U64("max"))}}
	nd.Assume(d.Meta.MinimumLength <= d.Meta.MaximumLength)
	got := verdict(h.Wide(k, at, d), b, version)
	if at == k {
		nd.Assert(same(got, mavlink2.ErrUnknownMessage), "what no dialect defines is unknown")
		nd.Cover("unknown")
		return
	}
	want := expected(b, version, d.Meta)
	nd.Assert((got == nil) == (want == nil), "the only dialect that defines the message decides")
	nd.Assert(nd.Or(got == nil, nd.Or(same(got, want), same(got, mavlink2.ErrInvalidChecksum))), "the reason is one that applies")
	if want == nil {
		nd.Cover("accepted")
	}
}
