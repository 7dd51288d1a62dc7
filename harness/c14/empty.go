//go:build go1.21

package c14

import (
	"io"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// Empty reads an arbitrary piece and a known frame with many empty reads before one of the bytes.
func Empty() {
	d := &st.Dialect{Min: 0, Max: 9}
	b := &st.Build{D: d}
	kind := nd.Choose("kind", 5)
	b.Any(kind, 1+nd.Choose("version", 2), 1)
	b.Frame(2, 2, true)
	at := nd.Choose("at", len(b.Data)+1)
	invalid := nd.Choose("invalid", 2) == 1
	p := &st.Pipe{Err: io.EOF}
	if at > 0 {
		p.Chunks = append(p.Chunks, append([]byte(nil), b.Data[:at]...))
	}
	for i := nd.Param("n", 300); i > 0; i-- {
		p.Chunks = append(p.Chunks, nil)
	}
	if at < len(b.Data) {
		p.Chunks = append(p.Chunks, append([]byte(nil), b.Data[at:]...))
	}
	s := mavlink2.NewFrameStream(p, nil, mavlink2.Dialects{d}, invalid)
	got := st.Receive(s)
	st.Same(got, d.Scan(b.Data, invalid))
	nd.Assert(st.EndedWith(s.GetCloseErr(), io.EOF), "the stream ends with the transport's error")
	nd.Cover("read")
}
