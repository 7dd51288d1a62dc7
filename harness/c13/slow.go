//go:build go1.21

package c13

import (
	"context"
	"io"
	"time"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// Slow has the transport and the consumer take their time; no frame is lost for it.
func Slow() {
	d := &st.Dialect{Min: 0, Max: 255}
	b := &st.Build{D: d}
	k := nd.Param("k", 3)
	for i := 0; i < k; i++ {
		b.Frame(1+(i+nd.Choose("version", 3))%3, i%2, true)
	}
	p := &st.Pipe{Err: io.EOF}
	switch nd.Choose("how", 3) {
	case 0:
		p.Chunks = [][]byte{h.Clone(b.Data)}
	case 1:
		p.Chunks = st.Cut(b.Data, 9)
	case 2:
		p.Chunks = st.Cut(b.Data, 1)
	}
	want := d.Scan(b.Data, false)
	p.Pause = st.Pauses[nd.Choose("transport", len(st.Pauses))]
	pause := st.Pauses[nd.Choose("consumer", len(st.Pauses))]
	s := mavlink2.NewFrameStream(p, nil, mavlink2.Dialects{d}, nd.Choose("invalid", 2) == 1)
	go s.ReadContext(context.Background())
	var got []mavlink2.Frame
	time.Sleep(pause)
	for f := range s.Read() {
		got = append(got, f)
		time.Sleep(pause)
	}
	st.Same(got, want)
	nd.Assert(st.EndedWith(s.GetCloseErr(), io.EOF), "the stream ends with the transport's error")
	if pause > 0 && p.Pause > 0 {
		nd.Cover("both take their time")
	}
}
