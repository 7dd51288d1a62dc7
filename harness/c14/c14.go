//go:build go1.21

// Package c14: what is delivered does not depend on how the transport splits the bytes.
package c14

import (
	"io"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

func run(d *st.Dialect, p *st.Pipe, data []byte, invalid bool) []mavlink2.Frame {
	s := mavlink2.NewFrameStream(p, make(chan mavlink2.Frame), mavlink2.Dialects{d}, invalid)
	got := st.Receive(s)
	st.Same(got, d.Scan(data, invalid))
	nd.Assert(st.EndedWith(s.GetCloseErr(), p.Err), "the stream ends with the transport's error")
	return got
}

// split cuts data at the positions.
func split(data []byte, cuts []int) [][]byte {
	var out [][]byte
	from := 0
	for _, c := range cuts {
		out = append(out, h.Clone(data[from:c]))
		from = c
	}
	return append(out, h.Clone(data[from:]))
}

// example is a stream of arbitrary known, corrupted and unknown frames.
func example(d *st.Dialect, which int) []byte {
	b := &st.Build{D: d}
	switch which {
	case 0:
		b.Frame(2, 3, true)
		b.Frame(1, 2, true)
	case 1:
		b.Junk(2)
		b.Frame(1, 1, true)
		b.Bad(2, 1)
		b.Frame(3, 1, true)
	case 2:
		b.False(1, 4)
		b.Frame(2, 1, true)
		b.Unknown(1, 2)
		b.Frame(1, 3, true)
	case 3:
		b.Frame(3, 2, true)
		b.Unknown(3, 1)
		b.Frame(2, 1, true)
	}
	return b.Data
}

// Cuts reads streams cut at up to k places anywhere; pieces may be empty, and the last may come with the error.
func Cuts() {
	d := &st.Dialect{Min: 1, Max: 9}
	data := example(d, nd.Choose("stream", 4))
	k := nd.Param("k", 2)
	var cuts []int
	from := 0
	for i := 0; i < k; i++ {
		from += nd.Choose("cut", len(data)+1-from)
		cuts = append(cuts, from)
	}
	mode := nd.Choose("mode", nd.Param("modes", 2)) // the end comes alone or with the last piece; default or pass-through
	p := &st.Pipe{Chunks: split(data, cuts), Err: io.EOF, WithLast: mode&1 == 1}
	got := run(d, p, data, mode == 1 || mode == 2)
	if len(got) >= 2 && cuts[0] > 0 && cuts[0] < len(data) {
		nd.Cover("frames cut in pieces")
	}
	if len(cuts) > 1 && cuts[0] == cuts[1] {
		nd.Cover("an empty read")
	}
}

// Sizes reads streams in pieces of one size, from single bytes on.
func Sizes() {
	d := &st.Dialect{Min: 1, Max: 9}
	data := example(d, nd.Choose("stream", 4))
	size := 1 + nd.Choose("size", nd.Param("n", 14))
	first := nd.Choose("first", size)
	var cuts []int
	for c := first; c < len(data); c += size {
		cuts = append(cuts, c)
	}
	p := &st.Pipe{Chunks: split(data, cuts), Err: st.ErrTransport, WithLast: nd.Choose("last", 2) == 1}
	got := run(d, p, data, nd.Choose("invalid", 2) == 1)
	if size == 1 && len(got) > 1 {
		nd.Cover("single bytes")
	}
}

// Patterns reads a stream of short frames of any contents in every way of cutting it.
func Patterns() {
	d := &st.Dialect{Min: 0, Max: 9}
	b := &st.Build{D: d}
	b.Frame(1, 0, true)
	b.Frame(1, nd.Choose("n", 2), true)
	data := b.Data
	var cuts []int
	n := nd.Param("n", 9)
	for i := 1; i < n; i++ {
		if nd.Choose("cut", 2) == 1 {
			cuts = append(cuts, i)
		}
	}
	p := &st.Pipe{Chunks: split(data, cuts), Err: io.EOF}
	run(d, p, data, false)
	if len(cuts) == n-1 {
		nd.Cover("byte by byte")
	}
}

// Datagrams reads from a transport that drops what a read has no room for.
func Datagrams() {
	d := &st.Dialect{Min: 1, Max: 255}
	b := &st.Build{D: d}
	var ends []int
	big := nd.Choose("big", 3)
	lens := []int{1, 255, 130}
	k := 1 + nd.Choose("datagrams", nd.Param("k", 2))
	frames := 0
	for i := 0; i < k; i++ {
		from := len(b.Data)
		total := []int{40, 700, 4096}[big]
		n := lens[nd.Choose("n", 2)]
		for {
			left := from + total - len(b.Data)
			if left < n+25 {
				break
			}
			b.Frame(1+frames%3, n, true)
			frames++
		}
		// fill the datagram up to its size
		if left := from + total - len(b.Data); left > 0 && nd.Choose("fill", 2) == 1 {
			b.Junk(left)
		}
		ends = append(ends, len(b.Data))
	}
	p := &st.Pipe{Chunks: split(b.Data, ends[:len(ends)-1]), Err: io.EOF, Datagrams: true}
	got := run(d, p, b.Data, false)
	nd.Assert(len(got) == frames, "every frame of every datagram is delivered")
	if big == 2 {
		nd.Cover("datagrams of 4096 bytes")
	}
}

// Straddle reads datagrams between which frames are cut.
func Straddle() {
	d := &st.Dialect{Min: 1, Max: 255}
	b := &st.Build{D: d}
	rot := nd.Choose("versions", 3)
	lens := nd.Choose("lengths", nd.Param("lens", 3))
	for i := 0; i < 4; i++ {
		b.Frame(1+(rot+i)%3, []int{255, 30}[[]int{0, 10, 5, 15}[lens]>>i&1], true)
	}
	at := nd.Choose("cut", nd.Param("n", 24))
	cuts := []int{len(b.Data) * (at + 1) / (nd.Param("n", 24) + 2)}
	p := &st.Pipe{Chunks: split(b.Data, cuts), Err: io.EOF, Datagrams: true, WithLast: at&1 == 1}
	got := run(d, p, b.Data, false)
	nd.Assert(len(got) == 4, "every frame is delivered")
	nd.Cover("frames cut between datagrams")
}
