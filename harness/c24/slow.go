//go:build go1.21

package c24

import (
	"context"
	"io"
	"time"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

type slowLogger struct {
	logger
	pause time.Duration
}

func (l *slowLogger) LogRead(b []byte) error {
	time.Sleep(l.pause)
	return l.logger.LogRead(b)
}

func (l *slowLogger) LogWritten(b []byte) error {
	time.Sleep(l.pause)
	return l.logger.LogWritten(b)
}

// Slow logs although the logger, the transport and the consumer take their time.
func Slow() {
	l := &slowLogger{pause: st.Pauses[nd.Choose("logger", len(st.Pauses))]}
	l.fail = nd.Choose("fail", 3)
	if nd.Choose("direction", 2) == 1 {
		t := &tap{gone: make(chan struct{})}
		ch := make(chan mavlink2.Frame, 3)
		s := mavlink2.NewFrameStreamWithLogger(t, ch, nil, false, l)
		for i := byte(0); i < 3; i++ {
			ch <- mavlink2.FrameV1(st.Valid1(i))
		}
		close(ch)
		s.WriteContext(context.Background())
		<-s.Closed()
		nd.Assert(len(t.accepted) == 3 && len(l.written) == 3 && len(l.read) == 0, "exactly the frames the transport accepted are logged")
		for i := range t.accepted {
			nd.Assert(nd.EqBytes(t.accepted[i], st.Valid1(byte(i))) && nd.EqBytes(l.written[i], t.accepted[i]), "frames are logged in order")
		}
		return
	}
	d := &st.Dialect{Min: 1, Max: 255}
	b := &st.Build{D: d}
	b.Frame(1, 1, true)
	b.Any(nd.Choose("kind", 4), 2, 1)
	b.Frame(2, 2, true)
	invalid := nd.Choose("invalid", 2) == 1
	p := &st.Pipe{Err: io.EOF, Chunks: [][]byte{h.Clone(b.Data)}, Pause: st.Pauses[nd.Choose("transport", 2)*2]}
	s := mavlink2.NewFrameStreamWithLogger(p, nil, mavlink2.Dialects{d}, invalid, l)
	want := d.Scan(b.Data, invalid)
	got := st.ReceiveSlowly(s, st.Pauses[nd.Choose("consumer", len(st.Pauses))])
	st.Same(got, want)
	nd.Assert(len(l.read) == len(want) && len(l.written) == 0, "exactly the frames delivered are logged")
	for i := range want {
		nd.Assert(nd.EqBytes(l.read[i], want[i]), "frames are logged in order with their exact bytes")
	}
	nd.Cover("all of it slowly")
}
