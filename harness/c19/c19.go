//go:build go1.21

// Package c19: cancelling its context ends a loop even when no one consumes or produces.
package c19

import (
	"context"
	"errors"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

var errOwn = errors.New("cancelled")

// newContext makes a context of the standard library or one with an error of its own.
func newContext() (context.Context, func(), error) {
	if nd.Choose("context", 2) == 1 {
		c := st.NewContext(errOwn)
		return c, c.Cancel, errOwn
	}
	c, cancel := context.WithCancel(context.Background())
	return c, cancel, context.Canceled
}

func newStream(l *st.Link, ch chan mavlink2.Frame) *mavlink2.FrameStream {
	return mavlink2.NewFrameStream(l, ch, mavlink2.Dialects{st.Any{}}, nd.Choose("invalid", 2) == 1)
}

func ended(s *mavlink2.FrameStream, l *st.Link, want error) {
	<-s.Closed()
	nd.Assert(s.GetCloseErr() == want, "the stream is closed with the context's error")
	nd.Assert(l.Closes == 1, "the transport is closed")
	for range s.Read() {
	}
}

// frame is a valid frame, or an invalid one for the pass-through mode.
func frame() []byte {
	return st.Valid1(nd.U8("payload"))
}

// Reader cancels reading while received frames wait for a consumer that is absent or leaves.
func Reader() {
	n := 1 + nd.Choose("frames", 2)
	l := st.NewLink(4)
	for i := 0; i < n; i++ {
		l.In <- frame()
	}
	s := newStream(l, nil)
	ctx, cancel, want := newContext()
	taken := nd.Choose("taken", n)
	if nd.Choose("cancel", 2) == 1 {
		go cancel()
	} else {
		go func() {
			for i := 0; i < taken; i++ {
				<-s.Read()
			}
			cancel()
		}()
		taken = 0
	}
	go func() {
		for i := 0; i < taken; i++ {
			<-s.Read()
		}
	}()
	s.ReadContext(ctx)
	ended(s, l, want)
	nd.Cover("ended")
}

// Pending cancels reading while the transport is being read; the loop ends once that call does, whatever it
// returned, consumer or not.
func Pending() {
	l := st.NewLink(2)
	s := newStream(l, nil)
	ctx, cancel, want := newContext()
	consumer := nd.Choose("consumer", 2) == 1
	if consumer {
		go func() {
			for range s.Read() {
			}
		}()
	}
	b := frame()
	part := nd.Choose("part", 2) == 1
	go func() {
		cancel()
		if part {
			l.In <- b[:4]
			b = b[4:]
		}
		l.In <- b
	}()
	s.ReadContext(ctx)
	ended(s, l, want)
	nd.Cover("ended")
}

// Writer cancels writing while nothing, or something, is submitted.
func Writer() {
	l := st.NewLink(1)
	ch := make(chan mavlink2.Frame, nd.Choose("room", 2))
	s := newStream(l, ch)
	ctx, cancel, want := newContext()
	producer := nd.Choose("frames", 3)
	stop := make(chan bool)
	go func() {
		for i := 0; i < producer; i++ {
			select {
			case s.Write() <- mavlink2.FrameV1(frame()):
			case <-stop:
			}
		}
	}()
	go cancel()
	s.WriteContext(ctx)
	close(stop)
	ended(s, l, want)
	nd.Assert(len(l.Wrote) <= producer, "nothing but submitted frames is written")
	nd.Cover("ended")
}

// Queued cancels writing while submitted frames wait and the write channel stays open.
func Queued() {
	l := st.NewLink(1)
	n := nd.Choose("frames", 4)
	ch := make(chan mavlink2.Frame, 3)
	s := newStream(l, ch)
	ctx, cancel, want := newContext()
	b := frame()
	for i := 0; i < n; i++ {
		ch <- mavlink2.FrameV1(b)
	}
	if nd.Choose("cancel", 2) == 1 {
		cancel()
	} else {
		go cancel()
	}
	if nd.Choose("reader", 2) == 1 {
		go s.ReadContext(context.Background())
	}
	s.WriteContext(ctx)
	ended(s, l, want)
	nd.Assert(len(l.Wrote)+len(ch) >= n-1 && len(l.Wrote)+len(ch) <= n, "frames stay or are written")
	for _, w := range l.Wrote {
		nd.Assert(nd.EqBytes(w, b), "nothing but submitted frames is written")
	}
	if len(l.Wrote) == 0 && n > 0 {
		nd.Cover("cancelled first")
	}
}

// Before starts the loops with a context that is cancelled already.
func Before() {
	l := st.NewLink(2)
	l.In <- frame()
	l.In <- frame()
	if nd.Choose("end", 2) == 1 {
		close(l.In)
	}
	ch := make(chan mavlink2.Frame, 2)
	s := newStream(l, ch)
	ctx, cancel, want := newContext()
	cancel()
	got := 0
	if nd.Choose("consumer", 2) == 1 {
		go func() {
			for range s.Read() {
				got++
			}
		}()
	}
	if nd.Choose("loop", 2) == 1 {
		s.ReadContext(ctx)
		nd.Assert(l.Reads == 0, "the transport is not read under a cancelled context")
		nd.Cover("not read")
	} else {
		s.WriteContext(ctx)
	}
	ended(s, l, want)
	nd.Assert(got == 0, "nothing is delivered")
}

// Both cancels one context both loops run under.
func Both() {
	l := st.NewLink(2)
	for i := nd.Choose("frames", 3); i > 0; i-- {
		l.In <- frame()
	}
	s := newStream(l, make(chan mavlink2.Frame))
	ctx, cancel, want := newContext()
	done := make(chan bool)
	go func() {
		s.WriteContext(ctx)
		done <- true
	}()
	go func() {
		s.ReadContext(ctx)
		done <- true
	}()
	if nd.Choose("consumer", 2) == 1 {
		go func() { <-s.Read() }()
	}
	cancel()
	<-done
	<-done
	ended(s, l, want)
	nd.Cover("ended")
}

// Other cancels after the stream was closed for another reason.
func Other() {
	l := st.NewLink(2)
	l.In <- frame()
	ch := make(chan mavlink2.Frame, 1)
	s := newStream(l, ch)
	ctx, cancel, _ := newContext()
	s.Close()
	if nd.Choose("first", 2) == 1 {
		cancel()
	} else {
		go cancel()
	}
	if nd.Choose("loop", 2) == 1 {
		s.ReadContext(ctx)
	} else {
		s.WriteContext(ctx)
	}
	ended(s, l, mavlink2.ErrUserClosed)
	nd.Cover("ended")
}
