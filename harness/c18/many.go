//go:build go1.21

package c18

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// Many ends a stream that has carried many frames both ways, with and without a second end.
func Many() {
	k := nd.Param("k", 300)
	w := newWorld(0)
	go func() {
		w.s.ReadContext(w.rctx)
		w.loops <- true
	}()
	for i := 0; i < k; i++ {
		w.l.In <- h.Clone(st.Valid1(byte(i)))
		f, ok := <-w.s.Read()
		nd.Assert(ok && f.GetVersion() == 1, "frames are delivered")
	}
	go func() {
		w.s.WriteContext(w.wctx)
		w.loops <- true
	}()
	for i := 0; i < k; i++ {
		w.ch <- mavlink2.FrameV1(st.Valid1(byte(i)))
	}
	kind := nd.Choose("kind", kinds)
	other := nd.Choose("other", kinds)
	if (kind == 5 || kind == 2) && (other == 5 || other == 2) || kind == other || (kind == 3 || kind == 4) && (other == 3 || other == 4) {
		other = kind
	}
	w.prepare(kind)
	if kind == 3 {
		w.l.FailAt = k + 1
	}
	if other != kind {
		w.prepare(other)
		if other == 3 {
			w.l.FailAt = k + 1
		}
		go func() {
			if other == 3 || other == 4 {
				<-w.s.Closed()
				if other == 4 {
					close(w.ch)
				}
				return
			}
			w.end(other)
		}()
	}
	if kind == 3 {
		select {
		case w.ch <- mavlink2.FrameV1(st.Valid1(9)):
		case <-w.s.Closed(): // there may be nobody to take it
		}
	} else {
		w.end(kind)
	}
	w.finish()
	if kind != 3 && other != 3 {
		nd.Assert(len(w.l.Wrote) >= k-1, "frames are written")
	}
	nd.Cover("ended")
}
