//go:build go1.21

// Package c13: the reader delivers exactly the valid frames of the byte stream, in order.
package c13

import (
	"io"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

func read(d *st.Dialect, data []byte, err error) ([]mavlink2.Frame, *mavlink2.FrameStream) {
	p := &st.Pipe{Chunks: [][]byte{h.Clone(data)}, Err: err}
	switch nd.Choose("delivery", nd.Param("delivery", 1)) {
	case 1: // one byte at a time
		p.Chunks = st.Cut(data, 1)
	case 2: // the end together with the last bytes
		p.Chunks = st.Cut(data, 5)
		p.WithLast = true
	}
	s := mavlink2.NewFrameStream(p, make(chan mavlink2.Frame), mavlink2.Dialects{d}, false)
	return st.Receive(s), s
}

func check(d *st.Dialect, data []byte, got []mavlink2.Frame, s *mavlink2.FrameStream, err error) {
	st.Same(got, d.Scan(data, false))
	nd.Assert(st.EndedWith(s.GetCloseErr(), err), "the stream ends with the transport's error")
}

// Scan reads every stream of up to n bytes.
func Scan() {
	n := nd.Param("n", 9) - nd.Choose("less", 3)
	data := nd.Bytes("data", n)
	d := &st.Dialect{Min: 0, Max: 3}
	err := io.EOF
	if nd.Choose("err", 2) == 1 {
		err = st.ErrTransport
	}
	got, s := read(d, data, err)
	check(d, data, got, s, err)
	if len(got) == 1 {
		nd.Cover("one frame")
	}
	if len(got) == 0 {
		nd.Cover("no frame")
	}
}

// Pieces reads streams of known, corrupted and unknown frames, junk and false starts, in any order.
func Pieces() {
	k := nd.Param("k", 3)
	d := &st.Dialect{Min: 1, Max: 9}
	b := &st.Build{D: d}
	known := 0
	for i := 0; i < k; i++ {
		kind := nd.Choose("kind", 5)
		version, n := 0, 0
		if kind > 0 {
			version = 1 + nd.Choose("version", 3)
		}
		switch kind {
		case 1:
			known++
			n = []int{1, 2, 9}[nd.Choose("n", nd.Param("lens", 2))]
		case 4:
			n = []int{0, 11, 40}[nd.Choose("n", 3)]
		default:
			n = nd.Choose("n", 2)
		}
		b.Any(kind, version, n)
	}
	b.Frame(2, 1, true)
	known++
	data := b.Data
	got, s := read(d, data, io.EOF)
	check(d, data, got, s, io.EOF)
	if len(got) == known && known > 1 {
		nd.Cover("several frames, none lost")
	}
	if len(got) == 0 {
		nd.Cover("the end cuts off what a false start asks for")
	}
}

// Nested reads streams in which frames lie inside what an earlier header announces, and valid frames whose
// payloads contain whole frames.
func Nested() {
	d := &st.Dialect{Min: 0, Max: 255}
	b := &st.Build{D: d}
	outer := 1 + nd.Choose("outer", 3)
	in := 1 + nd.Choose("inner", 3)
	inner := &st.Build{D: d}
	kind := nd.Choose("inner kind", 3)
	inner.Junk(nd.Choose("before", 2))
	inner.Any(1+kind, in, nd.Choose("n", 3))
	inner.Junk(nd.Choose("after", 2))
	p := inner.Data
	v := outer
	if v == 3 {
		v = 2
	}
	f := h.Raw("outer", v, len(p), outer == 3)
	id := 5
	if v == 2 {
		id = 7
	}
	valid := nd.Choose("outer known", 2) == 1
	if valid {
		f[id] &^= 1
	} else {
		f[id] |= 1
		st.Plain(f[1:])
	}
	hl := h.HeaderLen(v)
	copy(f[hl:], p)
	if valid {
		h.Seal(f, v, st.Extra)
	}
	b.Data = append(b.Data, f...)
	b.Frame(1+nd.Choose("last", 2), 2, true)
	got, s := read(d, b.Data, io.EOF)
	check(d, b.Data, got, s, io.EOF)
	if valid {
		nd.Assert(len(got) == 2, "a valid frame's payload is not searched for frames")
		nd.Cover("a frame inside a valid frame")
	} else if kind == 0 {
		nd.Assert(len(got) == 2, "a frame inside an unknown frame is found")
		nd.Cover("a frame inside an unknown frame")
	}
}

// Long reads frames of the greatest lengths one after the other.
func Long() {
	d := &st.Dialect{Min: 1, Max: 255}
	b := &st.Build{D: d}
	lens := []int{255, 254, 1, 128}
	want := 0
	b.Junk(nd.Choose("junk", 2) * 2)
	for i := 0; i < nd.Param("k", 3); i++ {
		version := 1 + nd.Choose("version", 3)
		n := lens[nd.Choose("n", nd.Param("lens", 2))]
		if nd.Choose("bad", 2) == 1 {
			b.Unknown(version, n)
		} else {
			b.Frame(version, n, true)
			want++
		}
	}
	got, s := read(d, b.Data, st.ErrTransport)
	check(d, b.Data, got, s, st.ErrTransport)
	nd.Assert(len(got) == want, "no frame is lost")
	if want > 1 {
		nd.Cover("long frames back to back")
	}
}

// Bytewise reads every stream of up to n bytes that comes in small pieces.
func Bytewise() {
	n := nd.Param("n", 8) - nd.Choose("less", 2)
	data := nd.Bytes("data", n)
	d := &st.Dialect{Min: 0, Max: 3}
	p := &st.Pipe{Chunks: st.Cut(data, 1), Err: io.EOF}
	if nd.Choose("delivery", 2) == 1 {
		p.Chunks = st.Cut(data, 5)
		p.WithLast = true
	}
	s := mavlink2.NewFrameStream(p, make(chan mavlink2.Frame), mavlink2.Dialects{d}, false)
	got := st.Receive(s)
	check(d, data, got, s, io.EOF)
	nd.Cover("checked")
}
