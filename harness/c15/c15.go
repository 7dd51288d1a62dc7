//go:build go1.21

// Package c15: in pass-through mode invalid frames are handed over too.
package c15

import (
	"io"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

func check(d *st.Dialect, data []byte, err error) []mavlink2.Frame {
	p := &st.Pipe{Chunks: [][]byte{h.Clone(data)}, Err: err}
	switch nd.Choose("delivery", nd.Param("delivery", 1)) {
	case 1: // one byte at a time
		p.Chunks = st.Cut(data, 1)
	case 2: // the end together with the last bytes
		p.Chunks = st.Cut(data, 5)
		p.WithLast = true
	}
	s := mavlink2.NewFrameStream(p, make(chan mavlink2.Frame), mavlink2.Dialects{d}, true)
	got := st.Receive(s)
	all := d.Scan(data, true)
	st.Same(got, all)
	nd.Assert(st.EndedWith(s.GetCloseErr(), err), "the stream ends with the transport's error, not with an invalid frame")
	// what the default mode delivers is among them, in the same order
	i := 0
	for _, w := range d.Scan(data, false) {
		for i < len(got) && !(len(all[i]) == len(w) && nd.SameMem(all[i], w)) {
			i++
		}
		nd.Assert(i < len(got), "a frame of the default mode is delivered too")
		i++
	}
	return got
}

// Scan reads every stream of up to n bytes.
func Scan() {
	n := nd.Param("n", 9) - nd.Choose("less", 2)
	data := nd.Bytes("data", n)
	d := &st.Dialect{Min: 0, Max: 3}
	got := check(d, data, io.EOF)
	if len(got) > 0 {
		nd.Cover("a frame")
	}
}

// Pieces reads streams of known, corrupted and unknown frames, junk and false starts, in any order.
func Pieces() {
	k := nd.Param("k", 2)
	d := &st.Dialect{Min: 1, Max: 9}
	b := &st.Build{D: d}
	apparent := 0
	for i := 0; i < k; i++ {
		kind := nd.Choose("kind", 5)
		version, n := 0, 0
		if kind > 0 {
			version = 1 + nd.Choose("version", 3)
			apparent++
		}
		switch kind {
		case 1:
			n = []int{1, 9}[nd.Choose("n", 2)]
		case 4:
			n = []int{0, 11, 40}[nd.Choose("n", 3)]
		default:
			n = nd.Choose("n", 2)
		}
		b.Any(kind, version, n)
	}
	b.Frame(2, 1, true)
	got := check(d, b.Data, st.ErrTransport)
	if len(got) == apparent+1 && apparent == k {
		nd.Cover("every apparent frame")
	}
}

// Lengths reads frames whose payload length the dialect does not allow.
func Lengths() {
	d := &st.Dialect{Min: 2, Max: 4}
	b := &st.Build{D: d}
	version := 1 + nd.Choose("version", 3)
	n := nd.Choose("n", 8)
	v := version
	if v == 3 {
		v = 2
	}
	f := h.Raw("f", v, n, version == 3)
	f[len(f)-1] &= 0x7f
	st.Plain(f[1:])
	b.Data = f
	b.Frame(1, 3, true)
	got := check(d, b.Data, io.EOF)
	nd.Assert(len(got) == 2, "both are handed over")
	nd.Cover("short and long frames")
}

// Long reads invalid frames of the greatest lengths one after the other.
func Long() {
	d := &st.Dialect{Min: 1, Max: 255}
	b := &st.Build{D: d}
	want := 0
	for i := 0; i < nd.Param("k", 3); i++ {
		version := 1 + nd.Choose("version", 3)
		if nd.Choose("bad", 2) == 1 {
			b.Unknown(version, 255)
		} else {
			b.Frame(version, 255, true)
		}
		want++
	}
	got := check(d, b.Data, io.EOF)
	nd.Assert(len(got) == want, "no frame is lost")
	nd.Cover("long frames back to back")
}

// fixed is a frame of given contents.
func fixed(version, n int, known bool) []byte {
	v := version
	if v == 3 {
		v = 2
	}
	f := make([]byte, h.HeaderLen(v)+n+2)
	for i := range f {
		f[i] = byte(3 * i)
	}
	f[0], f[1] = 0xfe, byte(n)
	id := 5
	if v == 2 {
		f[0], f[2], id = 0xfd, 0, 7
	}
	if version == 3 {
		f[2] = 1
		f = append(f, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13)
	}
	f[id] = 4
	if !known {
		f[id] = 5
	}
	h.Seal(f, v, st.Extra)
	return f
}

// Nested reads frames that are invalid for any reason and have a frame inside what they announce as payload.
func Nested() {
	d := &st.Dialect{Min: 8, Max: 200}
	inner := &st.Build{D: d}
	why := nd.Choose("why", 4) // unknown, too long, too short, bad checksum
	outer := 1 + nd.Choose("outer", 3)
	in := 1 + nd.Choose("inner", 3)
	inner.Junk(nd.Choose("before", 2))
	known := nd.Choose("inner kind", 2) == 0
	switch {
	case why == 1 || why == 2:
		inner.Data = append(inner.Data, fixed(in, 8, known)...)
	case known:
		inner.Frame(in, 8, true)
	default:
		inner.Unknown(in, 1)
	}
	p := inner.Data
	n := len(p)
	v := outer
	if v == 3 {
		v = 2
	}
	switch why {
	case 1:
		d.Max = 8 // the inner frame just fits
		if n <= 8 {
			return
		}
	case 2:
		if v == 2 {
			return
		}
		d.Min = 254
		n = 253
	}
	var f []byte
	if why == 1 || why == 2 {
		f = fixed(outer, n, true)
	} else {
		f = h.Raw("outer", v, n, outer == 3)
	}
	id := 5
	if v == 2 {
		id = 7
	}
	if why == 0 {
		f[id] |= 1
	} else {
		f[id] &^= 1
	}
	hl := h.HeaderLen(v)
	if why == 0 || why == 3 {
		st.Plain(f[1:])
	}
	copy(f[hl:], p)
	switch why {
	case 1, 2:
		h.Seal(f, v, st.Extra)
		nd.Assume(f[hl+n] != 0xfe && f[hl+n] != 0xfd && f[hl+n+1] != 0xfe && f[hl+n+1] != 0xfd)
	case 3:
		c := h.CRC(f[1:hl+n], st.Extra)
		nd.Assume(nd.Or(f[hl+n] != byte(c), f[hl+n+1] != byte(c>>8)))
	}
	b := &st.Build{D: d, Data: f}
	b.Frame(2, 8, true)
	got := check(d, b.Data, io.EOF)
	nd.Assert(len(got) >= 3, "the frame, the one inside and the one behind it are handed over")
	nd.Cover("a frame inside an invalid one")
}
