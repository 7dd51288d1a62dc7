//go:build go1.21

// Package c16: a delivered frame belongs to its receiver.
package c16

import (
	"context"
	"io"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

type logger struct{}

func (logger) LogRead(b []byte) error    { return nil }
func (logger) LogWritten(b []byte) error { return nil }

// Stream keeps every delivered frame, and spoils those it is told to as soon as they arrive.
func Stream() {
	d := &st.Dialect{Min: 1, Max: 255}
	b := &st.Build{D: d}
	k := nd.Param("k", 3)
	invalid := nd.Choose("invalid", 2) == 1
	rot := nd.Choose("versions", 3)
	lens := nd.Choose("lengths", nd.Param("lens", 3))
	var ends []int
	for i := 0; i < k; i++ {
		version := 1 + (rot+i)%3
		n := []int{2, 255}[[]int{0, 5, 7, 2}[lens]>>i&1]
		if i == 1 && nd.Choose("bad", 2) == 1 {
			b.Unknown(version, n)
		} else {
			b.Frame(version, n, true)
		}
		ends = append(ends, len(b.Data))
	}
	spoil := nd.Choose("spoil", k+1)
	p := &st.Pipe{Chunks: [][]byte{h.Clone(b.Data)}, Err: io.EOF}
	switch nd.Choose("pieces", 3) {
	case 1:
		p.Chunks = st.Cut(b.Data, 100)
	case 2: // every frame by itself
		p.Chunks = nil
		at := 0
		for _, e := range ends {
			p.Chunks = append(p.Chunks, h.Clone(b.Data[at:e]))
			at = e
		}
	}
	var s *mavlink2.FrameStream
	if nd.Choose("logger", 2) == 1 {
		s = mavlink2.NewFrameStreamWithLogger(p, make(chan mavlink2.Frame), mavlink2.Dialects{d}, invalid, logger{})
	} else {
		s = mavlink2.NewFrameStream(p, make(chan mavlink2.Frame), mavlink2.Dialects{d}, invalid)
	}
	want := d.Scan(b.Data, invalid)
	go s.ReadContext(context.Background())
	var frames []mavlink2.Frame
	var bytes [][]byte
	i := 0
	for f := range s.Read() {
		nd.Assert(i < len(want) && nd.EqBytes(f.Bytes(), want[i]), "spoiling a delivered frame changes no later one")
		keep := f.Bytes()
		if i == spoil {
			for j := range keep {
				keep[j] = nd.U8("junk")
			}
		}
		frames = append(frames, f)
		bytes = append(bytes, h.Clone(keep))
		for j := range frames {
			nd.Assert(nd.EqBytes(frames[j].Bytes(), bytes[j]), "a delivered frame does not change when others arrive")
		}
		i++
	}
	nd.Assert(i == len(want), "spoiling a frame loses none")
	for j := range frames {
		nd.Assert(nd.EqBytes(frames[j].Bytes(), bytes[j]), "a delivered frame does not change")
	}
	if spoil < i {
		nd.Cover("a spoiled frame")
	}
}

// Unknown decodes frames no dialect knows; the messages are independent of the frames and of each other.
func Unknown() {
	version := 1 + nd.Choose("version", 2)
	n := h.Lens("n", 6)
	b := h.Raw("frame", version, n, false)
	orig := h.Clone(b)
	f := h.Frame(b, version)
	var ds mavlink2.Dialects
	m, err := ds.GetMessage(f)
	nd.Assert(err == mavlink2.ErrUnknownMessage, "nobody knows it")
	u, ok := m.(*mavlink2.UnknownMessage)
	nd.Assert(ok, "it is an unknown message")
	m2, _ := ds.GetMessage(f)
	hl := h.HeaderLen(version)
	// the frame is spoiled
	for i := range b {
		b[i] = nd.U8("junk")
	}
	nd.Assert(nd.EqBytes(u.Raw, orig[hl:hl+n]), "the message keeps its payload whatever happens to the frame")
	now := h.Clone(b)
	for i := range u.Raw {
		u.Raw[i] = nd.U8("junk")
	}
	nd.Assert(nd.EqBytes(b, now), "changing the message leaves the frame alone")
	if u2, ok := m2.(*mavlink2.UnknownMessage); ok {
		nd.Assert(nd.EqBytes(u2.Raw, orig[hl:hl+n]), "changing a message leaves another one alone")
	}
	if n > 0 {
		nd.Cover("a payload")
	}
}

// Copies makes frames of a buffer the way the reader does.
func Copies() {
	n := nd.Choose("n", nd.Param("n", 12))
	room := nd.Choose("room", 3)
	b := nd.Bytes("data", n+room)
	f, err := mavlink2.FrameFromBytes(b, uint16(n), true)
	if err != nil || n == 0 {
		return
	}
	orig := h.Clone(b)
	for i := range b {
		b[i] = nd.U8("junk")
	}
	nd.Assert(nd.EqBytes(f.Bytes(), orig[:n]), "a copied frame does not change with its buffer")
	now := h.Clone(b)
	fb := f.Bytes()
	for i := range fb {
		fb[i] = nd.U8("junk")
	}
	nd.Assert(nd.EqBytes(b, now), "changing a copied frame leaves its buffer alone")
	nd.Cover("a copy")
}

// Many keeps a long run of frames, in pieces of every kind.
func Many() {
	d := &st.Dialect{Min: 0, Max: 255}
	b := &st.Build{D: d}
	k := nd.Param("many", 300)
	n := []int{0, 3}[nd.Choose("n", 2)]
	version := 1 + nd.Choose("version", 2)
	invalid := nd.Choose("invalid", 2) == 1
	var each [][]byte
	for i := 0; i < k; i++ {
		known := true
		if invalid && i%3 == 1 {
			known = false
		}
		// only the payload is arbitrary, which is what the bytes of the frame depend on
		f := make([]byte, h.HeaderLen(version)+n+2)
		f[0], f[1], f[len(f)-1] = 0xfe, byte(n), 1
		id := 5
		if version == 2 {
			f[0] = 0xfd
			f[4], id = byte(i%250), 7
		} else {
			f[2] = byte(i % 250)
		}
		if known {
			copy(f[h.HeaderLen(version):], nd.Bytes("payload", n))
			f[id] = 2
			h.Seal(f, version, st.Extra)
		} else {
			f[id] = 1
		}
		b.Data = append(b.Data, f...)
		each = append(each, h.Clone(f))
	}
	p := &st.Pipe{Chunks: [][]byte{h.Clone(b.Data)}, Err: io.EOF}
	switch nd.Choose("pieces", 3) {
	case 1:
		p.Chunks = st.Cut(b.Data, 5)
	case 2:
		p.Chunks = nil
		for _, f := range each {
			p.Chunks = append(p.Chunks, h.Clone(f))
		}
	}
	s := mavlink2.NewFrameStream(p, make(chan mavlink2.Frame, nd.Choose("room", 2)*5), mavlink2.Dialects{d}, invalid)
	got := st.Receive(s)
	nd.Assert(len(got) == k, "every frame is delivered")
	for i := range got {
		nd.Assert(nd.EqBytes(got[i].Bytes(), each[i]), "a delivered frame does not change, however many follow")
	}
	for i := range got {
		now := got[i].Bytes()
		for j := range now {
			now[j] = ^now[j]
		}
	}
	for i := range got {
		now := got[i].Bytes()
		for j := range now {
			now[j] = ^now[j]
		}
		nd.Assert(nd.EqBytes(now, each[i]), "delivered frames share no memory with each other")
	}
	nd.Cover("many frames")
}
