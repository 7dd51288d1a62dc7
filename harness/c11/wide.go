//go:build go1.21

package c11

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// Wide has one of many dialects answer.
func Wide() {
	version := 1 + nd.Choose("version", 2)
	b := h.Raw("frame", version, nd.Choose("len", 2), false)
	k := nd.Param("k", 40)
	at := h.Position(k)
	d := &h.Dialect{Answer: 1 + nd.Choose("answer", 3), Any: true, For: h.ID(b, version), Msg: &h.Message{Tag: at}}
	ds := h.Wide(k, at, d)
	m, err := ds.GetMessage(h.Frame(b, version))
	switch {
	case at == k:
		nd.Assert(err == mavlink2.ErrUnknownMessage, "a message no dialect knows is unknown")
		unknown(m, b, version)
		nd.Cover("unknown")
		return
	case d.Answer == 1:
		nd.Assert(err == nil, "the only dialect that knows the message decodes it")
		nd.Cover("decoded")
	case d.Answer == 2:
		nd.Assert(err == h.ErrOwn, "the error of the only dialect that knows the message is passed on")
	default:
		nd.Assert(err == h.ErrOwn2, "the error of the only dialect that knows the message is passed on")
	}
	nd.Assert(m == d.Msg, "what the dialect returns is returned")
}
