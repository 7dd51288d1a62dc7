//go:build go1.21

package c17

import (
	"context"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// Side writes to two streams in turns, one of which ends, fails or comes later.
func Side() {
	var links [2]*st.Link
	var chans [2]chan mavlink2.Frame
	var streams [2]*mavlink2.FrameStream
	var done [2]chan bool
	var want [2][][]byte
	var end [2]error
	capacity := nd.Choose("capacity", 2)
	start := func(i int) {
		links[i] = st.NewLink(4)
		chans[i] = make(chan mavlink2.Frame, capacity*4)
		streams[i] = mavlink2.NewFrameStream(links[i], chans[i], mavlink2.Dialects{st.Any{}}, false)
		done[i] = make(chan bool)
		go func() {
			streams[i].WriteContext(context.Background())
			close(done[i])
		}()
	}
	write := func(i, length int) {
		if end[i] != nil {
			return
		}
		b := h.Raw("frame", 1+len(want[i])%2, length, false)
		fails := links[i].FailAt == len(want[i])+1
		chans[i] <- h.Frame(b, 1+len(want[i])%2)
		if fails {
			end[i] = st.ErrTransport
			<-done[i]
			return
		}
		want[i] = append(want[i], h.Clone(b))
	}
	start(0)
	late := nd.Choose("late", 2) == 1
	if !late {
		start(1)
	}
	if nd.Choose("fails", 2) == 1 {
		links[0].FailAt = 1 + nd.Choose("which", 3)
	}
	closed := nd.Choose("closed", 4)
	for j := 0; j < 3; j++ {
		write(0, []int{1, 255, 0}[j])
		if j == 1 && late {
			start(1)
		}
		if closed == j && end[0] == nil {
			close(chans[0])
			<-done[0]
			end[0] = mavlink2.ErrWriteChannelClosed
		}
		if streams[1] != nil {
			write(1, []int{2, 254, 1}[j])
			nd.Yield()
		}
	}
	for i := range links {
		if end[i] == nil {
			close(chans[i])
			end[i] = mavlink2.ErrWriteChannelClosed
		}
		<-done[i]
		nd.Assert(streams[i].GetCloseErr() == end[i], "each stream ends for a reason of its own")
		nd.Assert(links[i].Closes == 1, "each transport is closed once")
		nd.Assert(len(links[i].Wrote) == len(want[i]), "every frame is written once, to the transport of its stream")
		for j, b := range links[i].Wrote {
			nd.Assert(nd.EqBytes(b, want[i][j]), "frames are written whole and in order")
		}
	}
	nd.Cover("both written")
}
