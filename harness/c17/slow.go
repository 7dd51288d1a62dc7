//go:build go1.21

package c17

import (
	"context"
	"time"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

type slowSink struct {
	sink
	pause time.Duration
	busy  bool
}

func (s *slowSink) Write(b []byte) (int, error) {
	nd.Assert(!s.busy, "one write at a time")
	s.busy = true
	c := h.Clone(b)
	time.Sleep(s.pause)
	nd.Assert(nd.EqBytes(b, c), "the bytes stay while they are being written")
	s.busy = false
	return s.sink.Write(b)
}

// Slow has producers and the transport take their time.
func Slow() {
	k := nd.Param("k", 3)
	fs, raw := frames(k)
	t := &slowSink{sink: sink{gone: make(chan struct{})}, pause: st.Pauses[nd.Choose("transport", len(st.Pauses))]}
	pause := st.Pauses[nd.Choose("producer", len(st.Pauses))]
	ch := make(chan mavlink2.Frame, []int{0, 1, k}[nd.Choose("room", 3)])
	s := mavlink2.NewFrameStream(t, ch, nil, false)
	go func() {
		for _, f := range fs {
			time.Sleep(pause)
			s.Write() <- f
		}
		time.Sleep(pause)
		close(ch)
	}()
	if nd.Choose("reader", 2) == 1 {
		go s.ReadContext(context.Background())
	}
	s.WriteContext(context.Background())
	<-s.Closed()
	compare(&t.sink, raw)
	nd.Assert(s.GetCloseErr() == mavlink2.ErrWriteChannelClosed, "closing the write channel closes the stream")
	if t.pause > 0 && pause > 0 {
		nd.Cover("both take their time")
	}
}
