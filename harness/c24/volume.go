//go:build go1.21

package c24

import (
	"context"
	"errors"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

type counter struct {
	t             *st.Source
	read, written int
}

func (c *counter) LogRead(b []byte) error {
	nd.Assert(nd.EqBytes(b, c.t.Short(c.read)), "frames read are logged in order")
	c.read++
	return nil
}

func (c *counter) LogWritten(b []byte) error {
	nd.Assert(nd.EqBytes(b, c.t.Short(c.written)), "frames written are logged in order")
	c.written++
	nd.Assert(c.written == c.t.Written, "a frame is logged after the transport accepted it")
	return nil
}

// Volume logs a great number of frames.
func Volume() {
	n := nd.Param("n", 1000)
	t := &st.Source{Length: 1, Per: 20, Every: 1000, Byte: nd.U8("byte") & 0x7f, Done: errors.New("end")}
	l := &counter{t: t}
	ch := make(chan mavlink2.Frame)
	if nd.Choose("direction", 2) == 0 {
		t.N = n
		s := mavlink2.NewFrameStreamWithLogger(t, ch, mavlink2.Dialects{&st.Dialect{Min: 0, Max: 255}}, false, l)
		go s.ReadContext(context.Background())
		i := 0
		for range s.Read() {
			i++
			nd.Assert(l.read >= i, "a frame is logged before it is delivered")
		}
		nd.Assert(i == n && l.read == n && l.written == 0, "every frame read is logged once")
		nd.Cover("a great number of frames read")
		return
	}
	s := mavlink2.NewFrameStreamWithLogger(t, ch, mavlink2.Dialects{&st.Dialect{Min: 0, Max: 255}}, false, l)
	done := make(chan bool)
	go func() {
		s.WriteContext(context.Background())
		close(done)
	}()
	for i := 0; i < n; i++ {
		ch <- mavlink2.FrameV1(t.Short(i))
	}
	close(ch)
	<-done
	nd.Assert(t.Written == n && l.written == n && l.read == 0, "every frame written is logged once")
	nd.Cover("a great number of frames written")
}
