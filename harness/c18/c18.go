//go:build go1.21

// Package c18: closing is safe, happens once and keeps its first reason in any interleaving.
package c18

import (
	"errors"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

var errCancel = errors.New("cancelled")
var errCancelRead = errors.New("reading cancelled")

// world is a stream with both loops running and what happens to it.
type world struct {
	l       *st.Link
	s       *mavlink2.FrameStream
	ch      chan mavlink2.Frame
	rctx    *st.Context
	wctx    *st.Context
	loops   chan bool
	reasons []error
}

func newWorld(frames int) *world {
	w := &world{l: st.NewLink(4), ch: make(chan mavlink2.Frame, 1), loops: make(chan bool, 2)}
	w.rctx = st.NewContext(errCancelRead)
	w.wctx = st.NewContext(errCancel)
	for i := 0; i < frames; i++ {
		w.l.In <- st.Valid1(nd.U8("payload"))
	}
	w.s = mavlink2.NewFrameStream(w.l, w.ch, mavlink2.Dialects{st.Any{}}, false)
	return w
}

func (w *world) start() {
	go func() {
		w.s.ReadContext(w.rctx)
		w.loops <- true
	}()
	go func() {
		w.s.WriteContext(w.wctx)
		w.loops <- true
	}()
}

const kinds = 6

// prepare arranges what an ending of the kind needs beforehand.
func (w *world) prepare(kind int) {
	switch kind {
	case 0:
		w.reasons = append(w.reasons, mavlink2.ErrUserClosed)
	case 1:
		w.reasons = append(w.reasons, errCancel)
	case 2:
		w.reasons = append(w.reasons, w.l.Err)
	case 3:
		w.l.FailAt = 1
		w.reasons = append(w.reasons, st.ErrTransport)
	case 4:
		w.reasons = append(w.reasons, mavlink2.ErrWriteChannelClosed)
	case 5:
		w.reasons = append(w.reasons, errCancelRead, w.l.Err)
	}
}

// end brings the stream to its end in one of the ways.
func (w *world) end(kind int) {
	switch kind {
	case 0:
		w.s.Close()
	case 1:
		w.wctx.Cancel()
	case 2:
		close(w.l.In)
	case 3:
		w.ch <- mavlink2.FrameV1(st.Valid1(9))
	case 4:
		close(w.ch)
	case 5:
		// a transport call in progress comes to its end, too
		w.rctx.Cancel()
		close(w.l.In)
	}
}

// finish waits for everything to end.
func (w *world) finish() {
	<-w.s.Closed()
	e := w.s.GetCloseErr()
	nd.Assert(e != nil, "whoever has seen the closed signal gets the reason")
	ok := false
	for _, r := range w.reasons {
		ok = ok || e == r
	}
	nd.Assert(ok, "the reason is that of an event that happened")
	<-w.loops
	<-w.loops
	for range w.s.Read() {
	}
	nd.Assert(w.l.Closes == 1, "the transport is closed exactly once")
	nd.Assert(w.s.GetCloseErr() == e, "the reason never changes")
}

// consume takes delivered frames: 0 nobody, 1 everything, 2 one frame only.
func (w *world) consume(kind int) {
	switch kind {
	case 1:
		go func() {
			for range w.s.Read() {
			}
		}()
	case 2:
		go func() { <-w.s.Read() }()
	}
}

// One ends the stream in one way, with any consumer.
func One() {
	frames := nd.Choose("frames", 2)
	w := newWorld(frames)
	kind := nd.Choose("kind", kinds)
	w.prepare(kind)
	w.start()
	consumer := nd.Choose("consumer", 3)
	nd.Assume(kind != 2 || frames == 0 || consumer > 0) // the end of the transport must come within reach
	w.consume(consumer)
	go w.end(kind)
	w.finish()
	nd.Cover("ended")
}

// Two ends the stream in two ways at the same time.
func Two() {
	w := newWorld(nd.Choose("frames", 2))
	k1 := nd.Choose("kind", kinds)
	k2 := nd.Choose("kind", kinds)
	nd.Assume(k1 <= k2)
	nd.Assume(k1 == k2 && k1 == 0 || k1 != k2 && !(k1 == 2 && k2 == 5) && !(k1 == 3 && k2 == 4))
	w.prepare(k1)
	w.prepare(k2)
	w.start()
	w.consume(nd.Choose("consumer", 2))
	done := make(chan bool, 2)
	go func() {
		w.end(k1)
		done <- true
	}()
	w.end(k2)
	<-done
	w.finish()
	nd.Cover("ended")
}

// After ends the stream again once it has ended.
func After() {
	frames := nd.Choose("frames", 2)
	w := newWorld(frames)
	k1 := nd.Choose("kind", kinds)
	nd.Assume(k1 != 2 || frames == 0)
	k2 := nd.Choose("kind", kinds)
	nd.Assume(k1 != k2 && !(k1 == 2 && k2 == 5) && !(k1 == 5 && k2 == 2) && !(k1 == 3 && k2 == 4) && !(k1 == 4 && k2 == 3) || k1 == 0 && k2 == 0)
	w.prepare(k1)
	w.start()
	w.end(k1)
	<-w.s.Closed()
	e := w.s.GetCloseErr()
	w.end(k2)
	w.finish()
	nd.Assert(w.s.GetCloseErr() == e, "what happens later does not change the reason")
	nd.Cover("ended")
}

// Users has several users close the stream, before its loops start or while they run.
func Users() {
	w := newWorld(1)
	w.prepare(0)
	n := 1 + nd.Choose("users", 2)
	done := make(chan bool, 2)
	before := nd.Choose("before", 2) == 1
	if before {
		w.s.Close()
	} else {
		w.start()
	}
	for i := 0; i < n; i++ {
		go func() {
			w.s.Close()
			// closing waits for the close in progress
			nd.Assert(w.s.GetCloseErr() == mavlink2.ErrUserClosed, "the reason is there after closing")
			done <- true
		}()
	}
	if before {
		w.start()
	}
	for i := 0; i < n; i++ {
		<-done
	}
	w.finish()
	nd.Cover("ended")
}

// Alone runs one of the loops only.
func Alone() {
	w := newWorld(2)
	reader := nd.Choose("loop", 2) == 0
	kind := nd.Choose("kind", kinds)
	nd.Assume(kind == 0 || reader == (kind == 2 || kind == 5))
	w.prepare(kind)
	w.loops <- true
	go func() {
		if reader {
			w.s.ReadContext(w.rctx)
		} else {
			w.s.WriteContext(w.wctx)
		}
		w.loops <- true
	}()
	// without a consumer the end of the transport would never be reached
	if kind == 2 {
		w.consume(1)
	} else {
		w.consume(nd.Choose("consumer", 3))
	}
	go w.end(kind)
	w.finish()
	nd.Cover("ended")
}
