//go:build go1.21

package c14

import (
	"io"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// Many reads a long stream in pieces of many sizes, which may also change from piece to piece.
func Many() {
	d := &st.Dialect{Min: 0, Max: 255}
	b := &st.Build{D: d}
	b.Many(nd.Param("n", 250))
	invalid := nd.Choose("invalid", 2) == 1
	p := &st.Pipe{Err: io.EOF}
	switch size := []int{4096, 4095, 280, 279, 256, 64, 3, 2, 0}[nd.Choose("size", nd.Param("sizes", 9))]; size {
	case 0:
		rest, n := b.Data, 1
		for len(rest) > 0 {
			n = (n*5 + 3) % 311
			c := min(n+1, len(rest))
			p.Chunks = append(p.Chunks, append([]byte(nil), rest[:c]...))
			rest = rest[c:]
		}
		p.WithLast = true
	default:
		p.Chunks = st.Cut(b.Data, size)
	}
	s := mavlink2.NewFrameStream(p, nil, mavlink2.Dialects{d}, invalid)
	got := st.Receive(s)
	st.Same(got, d.Scan(b.Data, invalid))
	nd.Assert(st.EndedWith(s.GetCloseErr(), io.EOF), "the stream ends with the transport's error")
	nd.Cover("many frames")
}
