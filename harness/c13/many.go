//go:build go1.21

package c13

import (
	"io"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// Many reads a long stream.
func Many() {
	d := &st.Dialect{Min: 0, Max: 255}
	b := &st.Build{D: d}
	n := nd.Param("n", 300)
	b.Many(n)
	p := &st.Pipe{Chunks: st.Cut(b.Data, []int{len(b.Data), 1000, 17, 1}[nd.Choose("pieces", nd.Param("pieces", 3))]), Err: io.EOF}
	s := mavlink2.NewFrameStream(p, nil, mavlink2.Dialects{d}, false)
	got := st.Receive(s)
	check(d, b.Data, got, s, io.EOF)
	if len(got) > n/2 {
		nd.Cover("many frames")
	}
}

// Hostile reads a long stream in which hardly anything or only every other frame is valid.
func Hostile() {
	d := &st.Dialect{Min: 0, Max: 255}
	b := &st.Build{D: d}
	n := nd.Param("n", 300)
	b.Hostile(n, nd.Choose("mixed", 2) == 1)
	p := &st.Pipe{Chunks: st.Cut(b.Data, []int{len(b.Data), 17, 1}[nd.Choose("pieces", nd.Param("pieces", 2))]), Err: io.EOF}
	s := mavlink2.NewFrameStream(p, nil, mavlink2.Dialects{d}, false)
	got := st.Receive(s)
	check(d, b.Data, got, s, io.EOF)
	if len(got) >= 3 {
		nd.Cover("received")
	}
}
