//go:build go1.21

package c28

import (
	"context"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// Many takes each frame of a long run before the next one is sent, some of them in two parts, some after noise.
func Many() {
	l := st.NewLink(8)
	s := mavlink2.NewFrameStream(l, nil, mavlink2.Dialects{&st.Dialect{Min: 0, Max: 255}}, nd.Choose("invalid", 2) == 1)
	go s.ReadContext(context.Background())
	for i := 0; i < nd.Param("k", 300); i++ {
		b := h.Clone(st.Nth(i, st.Length(i)).Bytes())
		want := h.Clone(b)
		if i%7 == 3 {
			noise := nd.Bytes("noise", 1+i%2)
			st.Plain(noise)
			b = append(noise, b...)
		}
		if i%5 == 2 {
			cut := len(b) - 1 - i/5%5
			l.In <- b[:cut]
			b = b[cut:]
		}
		l.In <- b
		f, ok := <-s.Read()
		nd.Assert(ok && nd.EqBytes(f.Bytes(), want), "every frame of a long run is delivered when it has arrived")
	}
	s.Close()
	nd.Cover("many frames")
}
