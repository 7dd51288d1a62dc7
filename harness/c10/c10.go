//go:build go1.21

// Package c10: dialect tables agree with the MAVLink definitions and with their decoders.
package c10

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/m"
	"github.com/botlink/go-mavlink2/zzverif/msgs"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/spec"
)

func dialect() (*spec.Dialect, mavlink2.Dialect) {
	sp := &spec.All[nd.Choose("dialect", len(spec.All))]
	nd.Note("dialect", sp.Pkg)
	for _, e := range msgs.Dialects {
		if e.Pkg == sp.Pkg {
			return sp, e.D()
		}
	}
	nd.Assume(false)
	return nil, nil
}

// Meta looks every id up.
func Meta() {
	sp, d := dialect()
	id := nd.U32("id")
	meta, err := d.GetMeta(id)
	known := false
	var extra, min, max int
	for i := range sp.Msgs {
		x := &sp.Msgs[i]
		if !x.Registered {
			continue
		}
		is := id == x.ID
		known = nd.Or(known, is)
		extra = nd.IteInt(is, int(x.CRC), extra)
		min = nd.IteInt(is, x.Min, min)
		max = nd.IteInt(is, x.Max, max)
	}
	nd.Assert(nd.Iff(err == nil, known), "metadata exists exactly for the messages the dialect defines")
	nd.Assert(nd.Implies(!known, err == mavlink2.ErrUnknownMessage), "every other id is unknown")
	nd.Assert(nd.Implies(known, int(meta.CRCExtra) == extra), "the CRC seed is the definition's")
	nd.Assert(nd.Implies(known, int(meta.MinimumLength) == min), "the minimum length is the definition's")
	nd.Assert(nd.Implies(known, int(meta.MaximumLength) == max), "the maximum length is the definition's")
	nd.Cover("checked")
}

// Decode offers frames with every id.
func Decode() {
	sp, d := dialect()
	id := nd.U32("id")
	f := &m.Fake{Version: 2, ID: id, Payload: nd.Bytes("payload", 3)}
	msg, err := d.GetMessage(f)
	known := false
	for i := range sp.Msgs {
		if sp.Msgs[i].Registered {
			known = nd.Or(known, id == sp.Msgs[i].ID)
		}
	}
	if err != nil {
		nd.Assert(!known, "every message the dialect defines is decoded")
		nd.Assert(err == mavlink2.ErrUnknownMessage, "every other id is unknown")
		nd.Cover("unknown")
		return
	}
	nd.Assert(known, "only messages the dialect defines are decoded")
	nd.Assert(msg != nil, "a decoded message exists")
	nd.Assert(msg.GetID() == id, "the decoded message has the id of the frame")
	nd.Assert(msg.GetDialect() == sp.Name, "the decoded message has the dialect's name")
	got := int(nd.Concrete(int(id)))
	for i := range sp.Msgs {
		x := &sp.Msgs[i]
		if x.Registered && int(x.ID) == got {
			nd.Assert(msg.GetMessageName() == x.Name, "the decoded message has the definition's name")
			nd.Assert(nd.FieldIndex(msg, x.Fields[0].Name) >= 0, "the decoded message has the definition's fields")
			nd.Cover("decoded")
		}
	}
}

// Objects checks the identity of every message type.
func Objects() {
	c := m.Pick()
	msg := c.Fresh("m")
	nd.Assert(msg.GetID() == c.Spec.ID, "the id is the definition's")
	nd.Assert(msg.GetMessageName() == c.Spec.Name, "the name is the definition's")
	nd.Assert(msg.GetDialect() == c.Dialect.Name, "the dialect name is the dialect's")
	if d, ok := c.D.(interface{ GetName() string }); ok {
		nd.Assert(d.GetName() == c.Dialect.Name, "the dialect has its name")
	}
	if x, ok := msg.(interface{ HasExtensionFields() bool }); ok {
		nd.Assert(x.HasExtensionFields() == c.HasExt(), "extension fields are announced exactly when there are some")
	}
	nd.Cover("checked")
}

// Again looks two ids up one after the other: the answer is the same as on its own, and so is a third time's.
func Again() {
	sp, d := dialect()
	lookup := func(id uint32) {
		meta, err := d.GetMeta(id)
		known := false
		var extra, min, max int
		for i := range sp.Msgs {
			x := &sp.Msgs[i]
			if !x.Registered {
				continue
			}
			is := id == x.ID
			known = nd.Or(known, is)
			extra = nd.IteInt(is, int(x.CRC), extra)
			min = nd.IteInt(is, x.Min, min)
			max = nd.IteInt(is, x.Max, max)
		}
		nd.Assert(nd.Iff(err == nil, known), "what was looked up before does not matter")
		nd.Assert(nd.Implies(known, int(meta.CRCExtra) == extra), "the CRC seed is the definition's, whatever was looked up before")
		nd.Assert(nd.Implies(known, nd.And(int(meta.MinimumLength) == min, int(meta.MaximumLength) == max)), "the lengths are the definition's, whatever was looked up before")
	}
	a := sp.Msgs[nd.Choose("first", len(sp.Msgs))].ID ^ uint32(nd.Choose("off", 2))<<8
	lookup(a)
	id := nd.U32("id")
	lookup(id)
	lookup(a)
	lookup(id)
	nd.Cover("checked")
}
