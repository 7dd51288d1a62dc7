//go:build go1.21

package c18

import (
	"time"

	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// Idle leaves a stream alone for an hour, after which it is as open as before, and ends it in one of the ways.
func Idle() {
	frames := nd.Choose("frames", 2)
	w := newWorld(frames)
	kind := nd.Choose("kind", kinds)
	w.prepare(kind)
	w.start()
	if kind == 2 && frames > 0 || nd.Choose("consumer", 2) == 1 {
		go func() {
			for range w.s.Read() {
			}
		}()
	}
	time.Sleep(time.Hour)
	select {
	case <-w.s.Closed():
		nd.Assert(false, "a stream closes for a reason only")
	default:
	}
	nd.Assert(w.s.GetCloseErr() == nil && w.l.Closes == 0, "a stream closes for a reason only")
	w.end(kind)
	w.finish()
	nd.Cover("ended")
}
