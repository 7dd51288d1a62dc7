//go:build go1.21

package c19

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// Many cancels a loop that has carried many frames.
func Many() {
	k := nd.Param("k", 300)
	l := st.NewLink(4)
	ch := make(chan mavlink2.Frame, 2)
	s := newStream(l, ch)
	ctx, cancel, want := newContext()
	done := make(chan bool)
	if nd.Choose("loop", 2) == 1 {
		go func() {
			s.WriteContext(ctx)
			close(done)
		}()
		for i := 0; i < k; i++ {
			ch <- mavlink2.FrameV1(st.Valid1(byte(i)))
		}
	} else {
		go func() {
			s.ReadContext(ctx)
			close(done)
		}()
		for i := 0; i < k; i++ {
			l.In <- st.Valid1(byte(i))
			<-s.Read()
		}
		l.In <- frame()
	}
	cancel()
	<-done
	ended(s, l, want)
	nd.Cover("ended")
}
