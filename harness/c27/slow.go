//go:build go1.21

package c27

import (
	"context"
	"time"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// Slow has frames go from one stream to another with time passing before, between and after them.
func Slow() {
	wire := make(chan []byte)
	x, y := &end{in: make(chan []byte), out: wire, gone: make(chan struct{})}, &end{in: wire, out: make(chan []byte), gone: make(chan struct{})}
	ds := mavlink2.Dialects{st.Any{}}
	ch := make(chan mavlink2.Frame, nd.Choose("room", 2))
	s := mavlink2.NewFrameStream(x, ch, ds, false)
	t := mavlink2.NewFrameStream(y, nil, ds, nd.Choose("invalid", 2) == 1)
	go s.WriteContext(context.Background())
	go t.ReadContext(context.Background())
	n := nd.Param("frames", 3)
	var raw [][]byte
	for i := 0; i < n; i++ {
		raw = append(raw, st.Valid1(nd.U8("payload")))
	}
	pause := st.Pauses[nd.Choose("producer", len(st.Pauses))]
	go func() {
		for _, r := range raw {
			time.Sleep(pause)
			ch <- mavlink2.FrameV1(r)
		}
	}()
	slow := st.Pauses[nd.Choose("consumer", len(st.Pauses))]
	time.Sleep(2 * slow)
	for i := range raw {
		f, ok := <-t.Read()
		nd.Assert(ok && nd.EqBytes(f.Bytes(), raw[i]), "frames arrive as they were sent, in order")
		time.Sleep(slow)
	}
	nd.Assert(s.GetCloseErr() == nil && t.GetCloseErr() == nil, "both streams stay open")
	s.Close()
	t.Close()
	if pause > 0 && slow > 0 {
		nd.Cover("both take their time")
	}
}
