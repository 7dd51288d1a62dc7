//go:build go1.21

package c18

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// closer is a transport, a logger and a dialect that close the stream when used for one purpose.
type closer struct {
	*st.Link
	s  *mavlink2.FrameStream
	at int
}

func (c *closer) use(at int) {
	if at == c.at {
		c.s.Close()
		nd.Assert(c.s.GetCloseErr() != nil, "after closing there is a reason")
		<-c.s.Closed()
	}
}

func (c *closer) Read(b []byte) (int, error) {
	c.use(0)
	return c.Link.Read(b)
}

func (c *closer) Write(b []byte) (int, error) {
	c.use(1)
	return c.Link.Write(b)
}

func (c *closer) LogRead(b []byte) error {
	c.use(2)
	return nil
}

func (c *closer) LogWritten(b []byte) error {
	c.use(3)
	return nil
}

func (c *closer) GetMeta(id uint32) (mavlink2.MessageMeta, error) {
	c.use(4)
	return st.Any{}.GetMeta(id)
}

func (c *closer) GetMessage(f mavlink2.Frame) (mavlink2.Message, error) {
	return nil, mavlink2.ErrUnknownMessage
}

// Within closes the stream from within what the stream calls: the transport, the logger, a dialect.
func Within() {
	c := &closer{Link: st.NewLink(4), at: nd.Choose("at", 5)}
	w := &world{l: c.Link, ch: make(chan mavlink2.Frame, 1), loops: make(chan bool, 2)}
	w.rctx = st.NewContext(errCancelRead)
	w.wctx = st.NewContext(errCancel)
	w.s = mavlink2.NewFrameStreamWithLogger(c, w.ch, mavlink2.Dialects{c}, nd.Choose("invalid", 2) == 1, c)
	c.s = w.s
	w.prepare(0)
	c.In <- st.Valid1(nd.U8("payload"))
	w.ch <- mavlink2.FrameV1(st.Valid1(nd.U8("payload")))
	w.start()
	w.consume(nd.Choose("consumer", 2))
	if nd.Choose("other", 2) == 1 {
		go w.s.Close()
	}
	w.finish()
	nd.Cover("ended")
}
