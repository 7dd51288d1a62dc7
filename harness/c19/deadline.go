//go:build go1.21

package c19

import (
	"context"
	"time"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// Deadline ends a loop by the deadline of its context.
func Deadline() {
	start := time.Now()
	l := st.NewLink(4)
	for i := nd.Choose("frames", 3); i > 0; i-- {
		l.In <- frame()
	}
	ch := make(chan mavlink2.Frame, 3)
	s := newStream(l, ch)
	d := []time.Duration{time.Millisecond, time.Minute}[nd.Choose("deadline", 2)]
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	if nd.Choose("loop", 2) == 1 {
		go func() {
			time.Sleep(2 * d)
			l.In <- frame() // a transport call in progress comes to its end
		}()
		s.ReadContext(ctx)
	} else {
		late := nd.Choose("late", 2) == 1 // the deadline has passed already
		if late {
			time.Sleep(d)
		}
		n := nd.Choose("submitted", 4)
		for i := 0; i < n; i++ {
			ch <- mavlink2.FrameV1(frame())
		}
		s.WriteContext(ctx)
		nd.Assert(time.Since(start) == d, "the deadline ends writing at once")
	}
	took := time.Since(start)
	nd.Assert(took >= d && took <= 2*d, "the deadline ends the loop")
	ended(s, l, context.DeadlineExceeded)
	nd.Cover("ended")
}
