//go:build go1.21

package c24

import (
	"context"
	"io"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// Many logs a long run of frames in either direction.
func Many() {
	k := nd.Param("k", 300)
	l := &logger{fail: nd.Choose("fail", 3)}
	if nd.Choose("written", 2) == 1 {
		t := &tap{gone: make(chan struct{})}
		ch := make(chan mavlink2.Frame, k)
		var want [][]byte
		for i := 0; i < k; i++ {
			f := st.Nth(i, st.Length(i))
			want = append(want, h.Clone(f.Bytes()))
			ch <- f
		}
		close(ch)
		l.t = t
		s := mavlink2.NewFrameStreamWithLogger(t, ch, nil, false, l)
		s.WriteContext(context.Background())
		<-s.Closed()
		nd.Assert(len(l.written) == k && len(t.accepted) == k && !l.early, "exactly the frames the transport accepted are logged")
		for i := range want {
			nd.Assert(nd.EqBytes(l.written[i], want[i]), "with their exact bytes")
		}
		nd.Assert(len(l.read) == 0, "nothing is logged as read")
		nd.Cover("written")
		return
	}
	d := &st.Dialect{Min: 0, Max: 255}
	b := &st.Build{D: d}
	b.Many(k)
	invalid := nd.Choose("invalid", 2) == 1
	p := &st.Pipe{Chunks: [][]byte{b.Data}, Err: io.EOF}
	s := mavlink2.NewFrameStreamWithLogger(p, nil, mavlink2.Dialects{d}, invalid, l)
	got := st.Receive(s)
	want := d.Scan(b.Data, invalid)
	st.Same(got, want)
	nd.Assert(len(l.read) == len(want), "exactly the frames delivered are logged")
	for i := range want {
		nd.Assert(nd.EqBytes(l.read[i], want[i]), "with their exact bytes")
	}
	nd.Assert(len(l.written) == 0, "nothing is logged as written")
	nd.Cover("read")
}
