//go:build go1.21

package c17

import (
	"context"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// note is a sink that tells when a write has been accepted.
type note struct {
	sink
	done chan bool
}

func (n *note) Write(b []byte) (int, error) {
	m, err := n.sink.Write(b)
	n.done <- true
	return m, err
}

// Repeat submits one frame object again and again: as it is, next to an equal frame, and with other contents once the
// transport has accepted it.
func Repeat() {
	v := nd.Choose("version", 3)
	version := 1 + min(v, 1)
	n := []int{3, 0, 255}[nd.Choose("n", 3)]
	b := h.Raw("frame", version, n, v == 2)
	f := h.Frame(b, version)
	before := h.Clone(b)
	equal := h.Frame(h.Clone(b), version)
	fs, raw := frames(1)
	t := &note{sink: sink{gone: make(chan struct{})}, done: make(chan bool)}
	ch := make(chan mavlink2.Frame, nd.Choose("room", 2))
	var ds mavlink2.Dialects
	s := mavlink2.NewFrameStream(t, ch, ds, false)
	go s.WriteContext(context.Background())
	var want [][]byte
	for step := 0; step < 7; step++ {
		switch step {
		case 3:
			ch <- equal
			want = append(want, before)
		case 4:
			ch <- fs[0]
			want = append(want, raw[0])
		case 2, 5, 6:
			b[2+nd.Choose("at", 2)*(len(b)-3)] = nd.U8("other")
			ch <- f
			want = append(want, h.Clone(b))
		default:
			ch <- f
			want = append(want, h.Clone(b))
		}
		<-t.done
	}
	close(ch)
	<-s.Closed()
	compare(&t.sink, want)
	nd.Assert(s.GetCloseErr() == mavlink2.ErrWriteChannelClosed, "closing the write channel closes the stream")
	nd.Cover("repeated")
}
