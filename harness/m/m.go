//go:build go1.21

// Package m ties the message types of the repository to their definitions.
package m

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/msgs"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/spec"
)

// Case is one message type with its definition and dialect.
type Case struct {
	Spec    *spec.Msg
	Dialect *spec.Dialect
	New     func() mavlink2.Message
	D       mavlink2.Dialect
}

// Total counts the definitions.
func Total() int {
	n := 0
	for i := range spec.All {
		n += len(spec.All[i].Msgs)
	}
	return n
}

// Pick explores every definition.
func Pick() *Case {
	k := nd.Choose("type", Total())
	for i := range spec.All {
		d := &spec.All[i]
		if k < len(d.Msgs) {
			return Get(d, &d.Msgs[k])
		}
		k -= len(d.Msgs)
	}
	return nil
}

// PickRegistered explores every definition its dialect offers.
func PickRegistered() *Case {
	c := Pick()
	if !c.Spec.Registered {
		nd.Assume(false)
	}
	return c
}

// Get finds the implementation of a definition.
func Get(d *spec.Dialect, s *spec.Msg) *Case {
	c := &Case{Spec: s, Dialect: d}
	for i := range msgs.All {
		if msgs.All[i].Pkg == d.Pkg && msgs.All[i].Type == s.Name {
			c.New = msgs.All[i].New
		}
	}
	for i := range msgs.Dialects {
		if msgs.Dialects[i].Pkg == d.Pkg {
			c.D = msgs.Dialects[i].D()
		}
	}
	if c.New == nil || c.D == nil {
		nd.Note("missing", d.Pkg+"."+s.Name)
		nd.Assume(false)
	}
	nd.Note("message", d.Pkg+"."+s.Name)
	return c
}

// Fresh makes a message whose fields all have arbitrary values.
func (c *Case) Fresh(name string) mavlink2.Message {
	m := c.New()
	nd.Fill(name, m)
	return m
}

// HasExt tells whether the definition has extension fields.
func (c *Case) HasExt() bool { return !c.Spec.Variable && c.Spec.Max > c.Spec.Min }

// Marker reads the extension marker of the message.
func Marker(m mavlink2.Message) bool {
	i := nd.FieldIndex(m, "HasExtensionFieldValues")
	return i >= 0 && nd.FieldBits(m, i, 0) != 0
}

// SetMarker writes it.
func SetMarker(m mavlink2.Message, v bool) {
	i := nd.FieldIndex(m, "HasExtensionFieldValues")
	if i >= 0 {
		if v {
			nd.SetFieldBits(m, i, 0, 1)
		} else {
			nd.SetFieldBits(m, i, 0, 0)
		}
	}
}

// VarLen is the number of payload bytes in use of the variable-length message.
func VarLen(m mavlink2.Message) int {
	i := nd.FieldIndex(m, "PayloadLength")
	return int(nd.FieldBits(m, i, 0))
}

// Wire lays the fields of the message out as its definition says, in full length.
func (c *Case) Wire(m mavlink2.Message) []byte {
	out := make([]byte, c.Spec.Max)
	for i := range c.Spec.Fields {
		f := &c.Spec.Fields[i]
		ix := nd.FieldIndex(m, f.Name)
		nd.Assert(ix >= 0, "every field of the definition exists")
		n := f.N
		if n == 0 {
			n = 1
		}
		for k := 0; k < n; k++ {
			v := nd.FieldBits(m, ix, k)
			for j := 0; j < f.Size; j++ {
				out[f.Off+k*f.Size+j] = byte(v >> (8 * uint(j)))
			}
		}
	}
	return out
}

func isFloat(t string) bool { return t == "float32" || t == "float64" }

// nan tells whether the bits are a NaN of the size.
func nan(v uint64, size int) bool {
	if size == 4 {
		return v&0x7fffffff > 0x7f800000
	}
	return v&0x7fffffffffffffff > 0x7ff0000000000000
}

// Value is element k of field f on the wire.
func Value(f *spec.Field, k int, wire []byte) uint64 {
	var v uint64
	for j := 0; j < f.Size; j++ {
		v |= uint64(wire[f.Off+k*f.Size+j]) << (8 * uint(j))
	}
	return v
}

// SameOnWire compares element by element two full-length payloads; NaN floats are alike.
func (c *Case) SameOnWire(a, b []byte, withExt bool) bool {
	ok := true
	for i := range c.Spec.Fields {
		f := &c.Spec.Fields[i]
		if f.Ext && !withExt {
			continue
		}
		n := f.N
		if n == 0 {
			n = 1
		}
		for k := 0; k < n; k++ {
			x, y := Value(f, k, a), Value(f, k, b)
			eq := x == y
			if isFloat(f.Type) {
				eq = nd.Or(eq, nd.And(nan(x, f.Size), nan(y, f.Size)))
			}
			ok = nd.And(ok, eq)
		}
	}
	return ok
}

// Pad extends a payload by zero bytes.
func Pad(p []byte, n int) []byte {
	out := make([]byte, n)
	copy(out, p)
	return out
}

// Fake is a frame with arbitrary answers.
type Fake struct {
	Version int
	ID      uint32
	Payload []byte
	Seq     byte
	Sys     byte
	Comp    byte
	Touched int
}

// GetVersion and the methods below are the frame interface.
func (f *Fake) GetVersion() int             { return f.Version }
func (f *Fake) GetMessageLength() uint      { f.Touched++; return uint(len(f.Payload)) }
func (f *Fake) GetMessageSequence() uint    { return uint(f.Seq) }
func (f *Fake) GetSenderSystemID() uint8    { return f.Sys }
func (f *Fake) GetSenderComponentID() uint8 { return f.Comp }
func (f *Fake) GetMessageBytes() []byte     { f.Touched++; return f.Payload }
func (f *Fake) GetMessageID() uint32        { return f.ID }
func (f *Fake) GetChecksum() uint16         { return 0 }
func (f *Fake) GetChecksumInput() []byte    { return nil }
func (f *Fake) Bytes() []byte               { return nil }

// Header fills in the id of the message.
func (c *Case) Header(b []byte, version int) {
	if version == 1 {
		b[5] = byte(c.Spec.ID)
		return
	}
	b[7], b[8], b[9] = byte(c.Spec.ID), byte(c.Spec.ID>>8), byte(c.Spec.ID>>16)
}

// Raw is a frame of the message with an arbitrary payload of n bytes and arbitrary other header bytes.
func (c *Case) Raw(name string, version, n int) []byte {
	b := h.Raw(name, version, n, false)
	c.Header(b, version)
	return b
}

// RawUpTo is such a frame with an arbitrary payload length lo..hi; what follows the payload is arbitrary.
func (c *Case) RawUpTo(name string, version, lo, hi int) ([]byte, int) {
	b := c.Raw(name, version, hi)
	n := nd.Range(name+".n", lo, hi)
	b[1] = byte(n)
	return b, n
}
