//go:build go1.21

package c17

import (
	"context"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// Volume writes a great number of frames.
func Volume() {
	n := nd.Param("n", 1000)
	t := &st.Source{Length: 1, Every: 1000, Byte: nd.U8("byte")}
	ch := make(chan mavlink2.Frame, []int{0, 16}[nd.Choose("capacity", 2)])
	s := mavlink2.NewFrameStream(t, ch, mavlink2.Dialects{&st.Dialect{Min: 0, Max: 255}}, false)
	done := make(chan bool)
	go func() {
		s.WriteContext(context.Background())
		close(done)
	}()
	for i := 0; i < n; i++ {
		ch <- mavlink2.FrameV1(t.Short(i))
	}
	close(ch)
	<-done
	nd.Assert(t.Written == n, "every frame submitted is written")
	nd.Assert(s.GetCloseErr() == mavlink2.ErrWriteChannelClosed, "the stream ends because the channel was closed")
	nd.Assert(t.Closes == 1, "the transport is closed once")
	nd.Cover("a great number of frames")
}
