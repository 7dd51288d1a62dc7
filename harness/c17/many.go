//go:build go1.21

package c17

import (
	"context"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// Many writes a long run of frames, some of them several times.
func Many() {
	k := nd.Param("k", 600)
	ch := make(chan mavlink2.Frame, []int{0, 64, k}[nd.Choose("room", 3)])
	t := &sink{gone: make(chan struct{})}
	if nd.Choose("fail", 2) == 1 {
		t.failAt, t.err = k-1, st.ErrTransport
	}
	s := mavlink2.NewFrameStream(t, ch, nil, false)
	var want [][]byte
	var fs []mavlink2.Frame
	for i := 0; i < k; i++ {
		f := st.Nth(i, st.Length(i))
		if i%11 == 10 { // the same frame again
			f = fs[i-1-i/11%3]
		}
		fs = append(fs, f)
		want = append(want, h.Clone(f.Bytes()))
	}
	go func() {
		for _, f := range fs {
			select {
			case ch <- f:
			case <-s.Closed():
				return
			}
		}
		close(ch)
	}()
	s.WriteContext(context.Background())
	<-s.Closed()
	if t.failAt > 0 {
		compare(t, want[:k-2])
		nd.Assert(t.calls == k-1 && s.GetCloseErr() == st.ErrTransport, "the first error closes the stream")
		return
	}
	compare(t, want)
	nd.Assert(s.GetCloseErr() == mavlink2.ErrWriteChannelClosed, "closing the write channel closes the stream")
	nd.Cover("many frames")
}
