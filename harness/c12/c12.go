//go:build go1.21

// Package c12: text fields return what was stored, whatever they held before.
package c12

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/m"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/spec"
)

type field struct {
	d *spec.Dialect
	m *spec.Msg
	n string
}

func pick() (*m.Case, *spec.Field, func(string) error, func() string, mavlink2.Message) {
	var all []field
	for i := range spec.All {
		d := &spec.All[i]
		for j := range d.Msgs {
			for _, t := range d.Msgs[j].Text {
				all = append(all, field{d, &d.Msgs[j], t})
			}
		}
	}
	x := all[nd.Choose("field", len(all))]
	c := m.Get(x.d, x.m)
	nd.Note("field", x.n)
	msg := c.Fresh("m")
	set, get := accessors(msg, x.n)
	nd.Assert(set != nil && get != nil, "a text field can be stored and read")
	for i := range x.m.Fields {
		if x.m.Fields[i].Name == x.n {
			return c, &x.m.Fields[i], set, get, msg
		}
	}
	nd.Assume(false)
	return nil, nil, nil, nil, nil
}

// Store stores strings of every length up to and beyond the field.
func Store() {
	c, f, set, get, msg := pick()
	var n int
	if nd.Param("all", 0) == 1 {
		n = nd.Choose("len", f.N+4)
	} else {
		lens := []int{0, 1, f.N / 2, f.N - 1, f.N, f.N + 1, f.N + 7}
		n = lens[nd.Choose("len", len(lens))]
	}
	text := nd.Bytes("text", n)
	nul := false
	for _, b := range text {
		nul = nd.Or(nul, b == 0)
	}
	before := h.Clone(c.Wire(msg))
	marker := m.Marker(msg)
	err := set(string(text))
	after := c.Wire(msg)
	for i := range before {
		if i < f.Off || i >= f.Off+f.N {
			nd.Assert(after[i] == before[i], "storing touches no other field")
		}
	}
	nd.Assert(m.Marker(msg) == marker, "storing does not touch the extension marker")
	kept := text
	if n > f.N {
		nd.Assert(err == mavlink2.ErrValueTooLong, "a string that is too long is reported")
		kept = text[:f.N]
		nd.Cover("too long")
	} else {
		nd.Assert(err == nil, "a string that fits is stored without an error")
		nd.Cover("fits")
	}
	nd.Assert(nd.EqBytes(after[f.Off:f.Off+len(kept)], kept), "the field starts with the string")
	if !nul {
		got := get()
		nd.Assert(nd.EqStr(got, string(kept)), "what was stored is read back")
		nd.Assert(len(got) == len(kept), "what was stored is read back")
		nd.Cover("read back")
	}
}

// Fetch reads fields with arbitrary contents.
func Fetch() {
	c, f, _, get, msg := pick()
	wire := h.Clone(c.Wire(msg))
	field := wire[f.Off : f.Off+f.N]
	got := get()
	k := len(got)
	nd.Assert(k <= f.N, "no more than the field is read")
	nd.Assert(nd.EqStr(got, string(field[:k])), "the field is read from its start")
	for i := 0; i < k; i++ {
		nd.Assert(field[i] != 0, "reading stops at the first NUL")
	}
	if k < f.N {
		nd.Assert(field[k] == 0, "reading stops only at a NUL")
		nd.Cover("terminated")
	} else {
		nd.Cover("whole")
	}
	nd.Assert(nd.EqBytes(c.Wire(msg), wire), "reading changes nothing")
}

// Payload stores payloads of every length in the variable-length message.
func Payload() {
	msg := &common.V2Extension{}
	nd.Fill("m", msg)
	var c *m.Case
	for i := range spec.All {
		for j := range spec.All[i].Msgs {
			if spec.All[i].Msgs[j].Variable {
				c = m.Get(&spec.All[i], &spec.All[i].Msgs[j])
			}
		}
	}
	room := len(msg.Payload)
	lens := []int{0, 1, 2, 17, room - 1, room, room + 1, 255, 256, 300}
	p := nd.Bytes("payload", lens[nd.Choose("len", len(lens))])
	orig := h.Clone(p)
	before := h.Clone(c.Wire(msg))
	marker := m.Marker(msg)
	err := msg.SetPayloadSlice(p)
	nd.Assert(nd.EqBytes(p, orig), "storing leaves the given slice as it was")
	want := orig
	if len(p) > room {
		nd.Assert(err == mavlink2.ErrValueTooLong, "a payload that is too long is reported")
		want = orig[:room]
		nd.Cover("too long")
	} else {
		nd.Assert(err == nil, "a payload that fits is stored without an error")
		nd.Cover("fits")
	}
	got := msg.GetPayload()
	nd.Assert(len(got) == len(want), "what was stored is read back")
	nd.Assert(nd.EqBytes(got, want), "what was stored is read back")
	after := c.Wire(msg)
	for i := 0; i < 5; i++ {
		nd.Assert(after[i] == before[i], "storing touches no other field")
	}
	nd.Assert(m.Marker(msg) == marker, "storing does not touch the extension marker")
	for i := range p {
		p[i] ^= 0xff
	}
	nd.Assert(nd.EqBytes(msg.GetPayload(), want), "the message does not follow the given slice")
	out, err := msg.Write(1)
	nd.Assert(err == nil && nd.EqBytes(out[5:], want), "what was stored is what is sent")
}
