//go:build go1.21

package c15

import (
	"io"
	"time"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// Slow passes everything on however long the transport and the consumer take.
func Slow() {
	d := &st.Dialect{Min: 1, Max: 9}
	b := &st.Build{D: d}
	b.Any(nd.Choose("kind", 4), 1+nd.Choose("version", 3), 2)
	b.Any(1+nd.Choose("kind", 3), 1+nd.Choose("version", 2), 1)
	p := &st.Pipe{Err: io.EOF, Chunks: st.Cut(b.Data, 9)}
	how := nd.Choose("pauses", 3)
	p.Pause = []time.Duration{0, time.Hour, time.Millisecond}[how]
	pause := []time.Duration{time.Hour, time.Hour, time.Millisecond}[how]
	want := d.Scan(b.Data, true)
	s := mavlink2.NewFrameStream(p, nil, mavlink2.Dialects{d}, true)
	st.Same(st.ReceiveSlowly(s, pause), want)
	if how == 1 {
		nd.Cover("both take their time")
	}
}
