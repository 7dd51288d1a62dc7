//go:build go1.21

package c07

import (
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/m"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// Again encodes one message object three times, filled anew in between.
func Again() {
	c := m.Pick()
	order := nd.Choose("versions", 3)
	msg := c.New()
	var outs, wants [][]byte
	for i, name := range []string{"a", "b", "c"} {
		version := 2
		if c.Spec.ID <= 255 && (order == 1 || order == 2 && i == 1) {
			version = 1
		}
		nd.Fill(name, msg)
		use := c.Spec.Max
		if c.Spec.Variable {
			use = 5 + 4 - i
			nd.SetFieldBits(msg, nd.FieldIndex(msg, "PayloadLength"), 0, uint64(4-i))
		}
		wire := c.Wire(msg)
		if version == 2 {
			nd.Assume(wire[use-1] != 0)
		} else if !c.Spec.Variable {
			use = c.Spec.Min
		}
		out, err := msg.Write(version)
		nd.Assert(err == nil, "a version that can carry the message encodes it")
		nd.Assert(len(out) == use, "the encoding has the length of the fields")
		outs = append(outs, out)
		wants = append(wants, m.Pad(h.Clone(wire[:use]), c.Spec.Max))
	}
	for i := range outs {
		nd.Assert(c.SameOnWire(m.Pad(outs[i], c.Spec.Max), wants[i], true), "each encoding has the values the message had when it was encoded")
	}
	nd.Cover("encoded again")
}
