//go:build go1.21

// Package c25: message text rendering shows every field once and never fails.
package c25

import (
	"fmt"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/m"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// Messages renders every message type.
func Messages() {
	c := m.Pick()
	msg := c.Fresh("m")
	marker := nd.Choose("marker", 2) == 1
	m.SetMarker(msg, marker)
	wire := h.Clone(c.Wire(msg))
	s, ok := msg.(fmt.Stringer)
	nd.Assert(ok, "messages can be rendered")
	text := s.String()
	names := 1
	if nd.FieldIndex(msg, "Name") >= 0 {
		names = 2 // a field of that name has a line of its own
	}
	nd.Assert(nd.Shows(text, "Name", c.Dialect.Name+"/"+c.Spec.Name, names), "the message is named")
	for i := range c.Spec.Fields {
		f := &c.Spec.Fields[i]
		if f.Ext && !marker {
			nd.Assert(nd.ShowsNone(text, f.Name), "extension fields are not shown when the message does not carry them")
			continue
		}
		n := 1
		if f.Name == "Name" {
			n = 2
		}
		nd.Assert(nd.Shows(text, f.Name, nd.FieldAny(msg, nd.FieldIndex(msg, f.Name)), n), "a field is shown once under its own name")
	}
	nd.Assert(c.SameOnWire(c.Wire(msg), wire, true), "rendering changes nothing")
	nd.Assert(m.Marker(msg) == marker, "rendering changes nothing")
	nd.Cover("rendered")
}

// Frames renders complete frames and unknown messages.
func Frames() {
	version := 1 + nd.Choose("version", 2)
	n := nd.Choose("len", nd.Param("n", 8))
	signed := version == 2 && nd.Choose("signed", 2) == 1
	b := h.Raw("frame", version, n, signed)
	orig := h.Clone(b)
	f := h.Frame(b, version)
	s, ok := f.(fmt.Stringer)
	nd.Assert(ok, "frames can be rendered")
	text := s.String()
	nd.Assert(len(text) > 0, "something is shown")
	nd.Assert(nd.EqBytes(b, orig), "rendering changes nothing")
	u := &mavlink2.UnknownMessage{}
	u.Read(f)
	text = u.String()
	nd.Assert(nd.ShowsOnce(text, "ID", u.ID), "the id of an unknown message is shown")
	nd.Assert(nd.ShowsOnce(text, "Version", u.Version), "the version of an unknown message is shown")
	nd.Assert(nd.EqBytes(u.Raw, orig[h.HeaderLen(version):h.HeaderLen(version)+n]), "rendering changes nothing")
	var zero mavlink2.UnknownMessage
	_ = zero.String()
	nd.Cover("rendered")
}

// Twice renders two messages of the same type in turns.
func Twice() {
	c := m.Pick()
	x, y := c.Fresh("x"), c.Fresh("y")
	m.SetMarker(x, true)
	m.SetMarker(y, nd.Choose("marker", 2) == 1)
	first := x.(fmt.Stringer).String()
	other := y.(fmt.Stringer).String()
	f := &c.Spec.Fields[nd.Choose("field", nd.Param("fields", 2))%len(c.Spec.Fields)]
	if f.Name != "Name" {
		nd.Assert(nd.Shows(first, f.Name, nd.FieldAny(x, nd.FieldIndex(x, f.Name)), 1), "a field is shown once, whatever is rendered in between")
		if !f.Ext || m.Marker(y) {
			nd.Assert(nd.Shows(other, f.Name, nd.FieldAny(y, nd.FieldIndex(y, f.Name)), 1), "a field is shown once, whatever was rendered before")
		}
	}
	again := x.(fmt.Stringer).String()
	if f.Name != "Name" {
		nd.Assert(nd.Shows(again, f.Name, nd.FieldAny(x, nd.FieldIndex(x, f.Name)), 1), "a field is shown once, however often the message is rendered")
	}
	nd.Cover("rendered twice")
}

// Again renders one message object twice, filled anew in between.
func Again() {
	c := m.Pick()
	x := c.New()
	fi := nd.Choose("field", nd.Param("fields", 2)) % len(c.Spec.Fields)
	f := &c.Spec.Fields[fi]
	if f.Name == "Name" {
		return
	}
	for i := 0; i < 3; i++ {
		nd.Fill([]string{"a", "b", "c"}[i], x)
		m.SetMarker(x, i != 1)
		text := x.(fmt.Stringer).String()
		if f.Ext && i == 1 {
			nd.Assert(nd.ShowsNone(text, f.Name), "extension fields are not shown when the message does not carry them")
			continue
		}
		nd.Assert(nd.Shows(text, f.Name, nd.FieldAny(x, nd.FieldIndex(x, f.Name)), 1), "a field is shown with the value it has when the message is rendered")
	}
	nd.Cover("rendered again")
}
