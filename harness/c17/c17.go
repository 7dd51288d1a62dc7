//go:build go1.21

// Package c17: frames submitted for writing reach the transport once, whole and in order.
package c17

import (
	"context"
	"io"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// sink records writes and fails the one it is told to; Read waits until it is closed.
type sink struct {
	wrote  [][]byte
	failAt int
	part   int
	err    error
	calls  int
	closes int
	gone   chan struct{}
}

func (s *sink) Read(b []byte) (int, error) {
	<-s.gone
	return 0, st.ErrGone
}

func (s *sink) Write(b []byte) (int, error) {
	s.calls++
	if s.calls == s.failAt {
		return min(s.part, len(b)), s.err
	}
	s.wrote = append(s.wrote, h.Clone(b))
	return len(b), nil
}

func (s *sink) Close() error {
	s.closes++
	if s.closes == 1 {
		close(s.gone)
	}
	return nil
}

// frames makes k frames with arbitrary bytes.
func frames(k int) (fs []mavlink2.Frame, raw [][]byte) {
	lens := []int{255, 0, 3}
	for i := 0; i < k; i++ {
		v := nd.Choose("version", 3)
		n := lens[nd.Choose("n", nd.Param("lens", 2))]
		version := 1 + min(v, 1)
		b := h.Raw("frame", version, n, v == 2)
		fs = append(fs, h.Frame(b, version))
		raw = append(raw, h.Clone(b))
	}
	return
}

func compare(s *sink, want [][]byte) {
	nd.Assert(len(s.wrote) == len(want), "each frame is written exactly once, in one write")
	for i, w := range s.wrote {
		nd.Assert(nd.EqBytes(w, want[i]), "frames are written in order with their exact bytes")
	}
}

// All writes every frame submitted, until the write channel is closed.
func All() {
	k := nd.Choose("k", nd.Param("k", 3)+1)
	fs, raw := frames(k)
	room := []int{0, 1, k}[nd.Choose("room", 3)]
	ch := make(chan mavlink2.Frame, room)
	t := &sink{gone: make(chan struct{})}
	var ds mavlink2.Dialects
	s := mavlink2.NewFrameStream(t, ch, ds, false)
	w := s.Write()
	done := make(chan bool)
	send := func() {
		for _, f := range fs {
			w <- f
		}
		close(ch)
	}
	if room == k && nd.Choose("before", 2) == 1 {
		send()
	} else {
		go send()
	}
	if nd.Choose("reader", 2) == 1 {
		go s.ReadContext(context.Background())
	}
	go func() {
		s.WriteContext(context.Background())
		close(done)
	}()
	<-done
	<-s.Closed()
	compare(t, raw)
	nd.Assert(s.GetCloseErr() == mavlink2.ErrWriteChannelClosed, "closing the write channel closes the stream")
	nd.Assert(t.closes == 1, "the transport is closed")
	for i, f := range fs {
		nd.Assert(nd.EqBytes(f.Bytes(), raw[i]), "frames are not changed by writing them")
	}
	if k > 1 {
		nd.Cover("several frames")
	}
}

// Fails has the transport fail at one of the writes.
func Fails() {
	k := 1 + nd.Choose("k", nd.Param("k", 3))
	fs, raw := frames(k)
	at := 1 + nd.Choose("at", k)
	t := &sink{gone: make(chan struct{}), failAt: at, part: nd.Choose("part", 3) * 9}
	t.err = []error{st.ErrTransport, io.ErrShortWrite, io.EOF, timeout{}}[nd.Choose("err", 4)]
	ch := make(chan mavlink2.Frame, k)
	s := mavlink2.NewFrameStream(t, ch, nil, false)
	for _, f := range fs {
		ch <- f
	}
	if nd.Choose("closed", 2) == 1 {
		close(ch)
	}
	if nd.Choose("reader", 2) == 1 {
		go s.ReadContext(context.Background())
	}
	s.WriteContext(context.Background())
	<-s.Closed()
	compare(t, raw[:at-1])
	nd.Assert(t.calls == at, "nothing is written after the first error")
	nd.Assert(s.GetCloseErr() == t.err, "the first error closes the stream")
	nd.Assert(t.closes == 1, "the transport is closed")
	if at > 1 && at < k {
		nd.Cover("an error in the middle")
	}
}

type timeout struct{}

func (timeout) Error() string   { return "timeout" }
func (timeout) Timeout() bool   { return true }
func (timeout) Temporary() bool { return true }

// Both writes while frames arrive.
func Both() {
	l := st.NewLink(2)
	l.In <- st.Valid1(1)
	l.In <- st.Valid1(2)
	ch := make(chan mavlink2.Frame, 1)
	s := mavlink2.NewFrameStream(l, ch, mavlink2.Dialects{st.Any{}}, nd.Choose("invalid", 2) == 1)
	fs, raw := frames(nd.Param("frames", 1))
	go s.ReadContext(context.Background())
	done := make(chan bool)
	go func() {
		s.WriteContext(context.Background())
		close(done)
	}()
	go func() {
		for _, f := range fs {
			s.Write() <- f
		}
		close(ch)
	}()
	n := 0
	for range s.Read() {
		n++
	}
	<-done
	nd.Assert(n <= 2, "frames are delivered once")
	nd.Assert(len(l.Wrote) == len(raw), "each frame is written exactly once, in one write")
	for i, w := range l.Wrote {
		nd.Assert(nd.EqBytes(w, raw[i]), "frames are written in order with their exact bytes")
	}
	nd.Assert(s.GetCloseErr() == mavlink2.ErrWriteChannelClosed, "closing the write channel closes the stream")
	if n == 2 {
		nd.Cover("reading and writing")
	}
}
