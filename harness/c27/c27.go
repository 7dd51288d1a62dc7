//go:build go1.21

// Package c27: what one stream writes, another reads.
package c27

import (
	"context"
	"io"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/m"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/spec"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// send writes the frames through a stream and returns what its transport got.
func send(ds mavlink2.Dialects, fs []mavlink2.Frame) [][]byte {
	p := &st.Pipe{}
	ch := make(chan mavlink2.Frame, len(fs))
	for _, f := range fs {
		ch <- f
	}
	close(ch)
	s := mavlink2.NewFrameStream(p, ch, ds, false)
	s.WriteContext(context.Background())
	<-s.Closed()
	return p.Wrote
}

// carry makes a transport of what was written.
func carry(parts [][]byte, how int) *st.Pipe {
	var all []byte
	for _, p := range parts {
		all = append(all, p...)
	}
	p := &st.Pipe{Err: io.EOF}
	switch how {
	case 0: // one datagram per write
		p.Datagrams = true
		for _, x := range parts {
			p.Chunks = append(p.Chunks, h.Clone(x))
		}
	case 1:
		p.Chunks = [][]byte{all}
	case 2:
		p.Chunks = st.Cut(all, 1)
	case 3:
		p.Chunks = st.Cut(all, 7)
		p.WithLast = true
	}
	return p
}

// receive reads a transport to its end.
func receive(ds mavlink2.Dialects, p *st.Pipe, invalid bool) []mavlink2.Frame {
	return st.Receive(mavlink2.NewFrameStream(p, make(chan mavlink2.Frame), ds, invalid))
}

type sent struct {
	c              *m.Case
	version        int
	seq, sys, comp byte
	wire           []byte
	f              mavlink2.Frame
	raw            []byte
}

// make builds a frame of an arbitrary message whose encoding has its full length, or half of it.
func build(ds mavlink2.Dialects, c *m.Case, version int, name string) *sent {
	msg := c.Fresh(name)
	x := &sent{c: c, version: version, seq: nd.U8("seq"), sys: nd.U8("sys"), comp: nd.U8("comp")}
	use := c.Spec.Max
	if c.Spec.Variable {
		k := []int{0, 3, 249}[nd.Choose("room", 3)]
		nd.SetFieldBits(msg, nd.FieldIndex(msg, "PayloadLength"), 0, uint64(k))
		use = 5 + k
	}
	wire := c.Wire(msg)
	if version == 2 {
		last := use - 1
		if nd.Choose("tail", 2) == 1 {
			last = use / 2
		}
		for i := last + 1; i < use; i++ {
			nd.Assume(wire[i] == 0)
		}
		if last > 0 {
			nd.Assume(wire[last] != 0)
		}
	} else if !c.Spec.Variable {
		use = c.Spec.Min
	}
	x.wire = h.Clone(wire[:use])
	f, err := ds.GetFrame(version, x.sys, x.comp, x.seq, msg)
	nd.Assert(err == nil && f != nil, "a frame is built")
	x.f, x.raw = f, h.Clone(f.Bytes())
	return x
}

func arrived(ds mavlink2.Dialects, f mavlink2.Frame, x *sent) {
	nd.Assert(nd.EqBytes(f.Bytes(), x.raw), "frames arrive as they were sent, in order")
	nd.Assert(f.GetVersion() == x.version, "the version arrives")
	nd.Assert(nd.And(f.GetMessageSequence() == uint(x.seq), nd.And(f.GetSenderSystemID() == x.sys, f.GetSenderComponentID() == x.comp)), "the header arrives")
	got, err := ds.GetMessage(f)
	nd.Assert(err == nil, "the message is decoded")
	nd.Assert(got.GetMessageName() == x.c.Spec.Name, "the message has the type that was sent")
	nd.Assert(x.c.SameOnWire(x.c.Wire(got), m.Pad(x.wire, x.c.Spec.Max), true), "the field values arrive")
}

func heartbeat() *m.Case {
	for i := range spec.All {
		for j := range spec.All[i].Msgs {
			if spec.All[i].Msgs[j].Name == "Heartbeat" {
				return m.Get(&spec.All[i], &spec.All[i].Msgs[j])
			}
		}
	}
	return nil
}

// Messages sends a message of every type, followed by another one.
func Messages() {
	c := m.PickRegistered()
	hb := heartbeat()
	if c.Spec.ID == hb.Spec.ID && c.Dialect.Pkg != hb.Dialect.Pkg {
		return
	}
	ds := mavlink2.Dialects{c.D, hb.D}
	version := 1 + nd.Choose("version", 2)
	if version == 1 && c.Spec.ID > 255 {
		return
	}
	a := build(ds, c, version, "a")
	b := build(ds, hb, 3-version, "b")
	how := nd.Choose("how", nd.Param("how", 2))
	got := receive(ds, carry(send(ds, []mavlink2.Frame{a.f, b.f}), how), nd.Choose("invalid", 2) == 1)
	nd.Assert(len(got) == 2, "exactly the frames sent arrive")
	arrived(ds, got[0], a)
	arrived(ds, got[1], b)
	nd.Cover("two messages")
}

// Relay passes frames on over several streams that read and write; corrupted and unknown ones are passed on where
// they are asked for.
func Relay() {
	d := &st.Dialect{Min: 1, Max: 255}
	ds := mavlink2.Dialects{d}
	b := &st.Build{D: d}
	var fs []mavlink2.Frame
	var raw [][]byte
	k := 1 + nd.Choose("k", nd.Param("k", 2))
	for i := 0; i < k; i++ {
		version := 1 + nd.Choose("version", 3)
		f := b.Frame(version, []int{1, 255, 40}[nd.Choose("n", nd.Param("lens", 3))], true)
		fs = append(fs, h.Frame(f, min(version, 2)))
		raw = append(raw, h.Clone(f))
	}
	hops := nd.Param("hops", 2)
	for i := 0; i < hops; i++ {
		parts := send(ds, fs)
		nd.Assert(len(parts) == k, "every frame is written")
		if nd.Choose("noise", 2) == 1 {
			// bytes that start no frame get in between
			noise := nd.Bytes("noise", 2)
			st.Plain(noise)
			parts = append([][]byte{noise}, parts...)
			parts = append(parts[:2], append([][]byte{noise[:1]}, parts[2:]...)...)
		}
		fs = receive(ds, carry(parts, nd.Choose("how", 4)), i == 1)
		nd.Assert(len(fs) == k, "exactly the frames sent arrive")
		for j := range fs {
			nd.Assert(nd.EqBytes(fs[j].Bytes(), raw[j]), "frames arrive as they were sent, in order, over every hop")
		}
	}
	nd.Cover("relayed")
}

// Live has two streams talk to each other while both run.
func Live() {
	a, b := make(chan []byte, 2), make(chan []byte, 2)
	x, y := &end{in: a, out: b}, &end{in: b, out: a}
	ds := mavlink2.Dialects{st.Any{}}
	toX, toY := make(chan mavlink2.Frame), make(chan mavlink2.Frame)
	s := mavlink2.NewFrameStream(x, toX, ds, false)
	t := mavlink2.NewFrameStream(y, toY, ds, false)
	x.gone, y.gone = make(chan struct{}), make(chan struct{})
	ctx := context.Background()
	go s.ReadContext(ctx)
	go s.WriteContext(ctx)
	go t.ReadContext(ctx)
	go t.WriteContext(ctx)
	n := nd.Param("frames", 1)
	// y echoes what it gets
	go func() {
		for f := range t.Read() {
			toY <- f
		}
	}()
	for i := 0; i < n; i++ {
		toX <- mavlink2.FrameV1(st.Valid1(byte(i + 1)))
		f, ok := <-s.Read()
		nd.Assert(ok, "the echo arrives")
		nd.Assert(nd.EqBytes(f.Bytes(), st.Valid1(byte(i+1))), "the echo is the frame that was sent")
	}
	s.Close()
	t.Close()
	nd.Cover("echo")
}

// end is one end of a connection.
type end struct {
	in, out chan []byte
	gone    chan struct{}
}

func (e *end) Read(b []byte) (int, error) {
	select {
	case p := <-e.in:
		return copy(b, p), nil
	case <-e.gone:
		return 0, st.ErrGone
	}
}

func (e *end) Write(b []byte) (int, error) {
	select {
	case e.out <- h.Clone(b):
		return len(b), nil
	case <-e.gone:
		return 0, st.ErrGone
	}
}

func (e *end) Close() error {
	close(e.gone)
	return nil
}
