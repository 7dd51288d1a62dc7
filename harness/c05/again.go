//go:build go1.21

package c05

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// Again builds frames from one message object whose contents change in between: another payload slice, and other
// values in the same slice.
func Again() {
	versions := nd.Choose("versions", 3)
	m := &h.Message{ID: uint32(nd.U8("id"))}
	d := &h.Dialect{Answer: 1, For: m.ID, Meta: mavlink2.MessageMeta{CRCExtra: nd.U8("extra"), MaximumLength: 255}}
	ds := mavlink2.Dialects{d}
	n := nd.Choose("len", nd.Param("n", 5))
	type item struct {
		version int
		seq     uint8
		sys     uint8
		comp    uint8
		want    []byte
		f       mavlink2.Frame
	}
	var built []item
	for i := 0; i < 4; i++ {
		if i == 2 {
			copy(m.Payload, nd.Bytes("within", len(m.Payload))) // the same memory, other values
		} else {
			k := n
			if i == 3 {
				k = n + 1
			}
			m.Payload = nd.Bytes("payload", k)
		}
		x := item{version: 2, seq: nd.U8("seq"), sys: nd.U8("sys"), comp: nd.U8("comp"), want: h.Clone(m.Payload)}
		if versions == 1 || versions == 2 && i%2 == 1 {
			x.version = 1
		}
		var err error
		x.f, err = ds.GetFrame(x.version, x.sys, x.comp, x.seq, m)
		nd.Assert(err == nil && x.f != nil, "a message of a loaded dialect is built")
		built = append(built, x)
	}
	for _, x := range built {
		layout(x.f, x.version, x.seq, x.sys, x.comp, m.ID, x.want, d.Meta.CRCExtra)
	}
	nd.Cover("built again")
}
