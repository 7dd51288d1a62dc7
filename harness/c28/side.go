//go:build go1.21

package c28

import (
	"context"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// Side has a frame arrive at one stream while another one waits for the rest of a frame, for a consumer, or has ended.
func Side() {
	d := &st.Dialect{Min: 0, Max: 255}
	b := &st.Build{D: d}
	invalid := nd.Choose("invalid", 2) == 1
	one := b.Frame(1+nd.Choose("version", 3), 2, true)
	two := b.Frame(1+nd.Choose("version", 3), []int{0, 255}[nd.Choose("n", 2)], true)
	var l [2]*st.Link
	var s [2]*mavlink2.FrameStream
	for i := range s {
		l[i] = st.NewLink(8)
		s[i] = mavlink2.NewFrameStream(l[i], nil, mavlink2.Dialects{d}, invalid)
		go s[i].ReadContext(context.Background())
	}
	take := func(i int, want []byte) {
		f, ok := <-s[i].Read()
		nd.Assert(ok && nd.EqBytes(f.Bytes(), want), "a frame that has arrived is delivered, whatever other streams wait for")
	}
	at := len(one)
	switch nd.Choose("state", 4) {
	case 0: // waits for data
		nd.Yield()
	case 1: // waits for the rest of a frame
		at = nd.Choose("at", len(one))
		l[0].In <- h.Clone(one[:at])
		nd.Yield()
	case 2: // waits for a consumer
		l[0].In <- h.Clone(one)
		nd.Yield()
	case 3:
		s[0].Close()
		nd.Yield()
		l[1].In <- h.Clone(two)
		take(1, two)
		nd.Cover("beside one that has ended")
		return
	}
	l[1].In <- h.Clone(two)
	take(1, two)
	l[1].In <- h.Clone(one)
	take(1, one)
	if at < len(one) {
		l[0].In <- h.Clone(one[at:])
		take(0, one)
	}
	nd.Cover("beside another")
}
