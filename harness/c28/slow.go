//go:build go1.21

package c28

import (
	"context"
	"time"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// Prompt measures when frames are delivered: at the time their last byte arrives.
func Prompt() {
	d := &st.Dialect{Min: 1, Max: 255}
	invalid := nd.Choose("invalid", 2) == 1
	l := st.NewLink(8)
	s := mavlink2.NewFrameStream(l, nil, mavlink2.Dialects{d}, invalid)
	go s.ReadContext(context.Background())
	for i := 0; i < 2; i++ {
		b := &st.Build{D: d}
		if i == 0 || nd.Param("k", 1) > 1 {
			b.Any(nd.Choose("kind", 4), 1+nd.Choose("version", nd.Param("k", 1)+1), 1)
		}
		b.Frame(1+nd.Choose("version", 2), 1, true)
		cut := len(b.Data) - []int{0, 1, len(b.Data) / 2}[nd.Choose("late", 3)]
		l.In <- h.Clone(b.Data[:cut])
		if cut < len(b.Data) {
			time.Sleep(st.Pauses[1+nd.Choose("pause", 2)])
			l.In <- h.Clone(b.Data[cut:])
		}
		came := time.Now()
		for _, w := range d.Scan(b.Data, invalid) {
			f, ok := <-s.Read()
			nd.Assert(ok, "a frame that has arrived is delivered")
			nd.Assert(nd.EqBytes(f.Bytes(), w), "the frame that has arrived is delivered")
			nd.Assert(time.Since(came) == 0, "a frame is delivered when its last byte arrives, not later")
			nd.Cover("delivered")
		}
		time.Sleep(st.Pauses[nd.Choose("after", 2)*2])
	}
	s.Close()
}
