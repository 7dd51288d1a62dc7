//go:build go1.21

// Package c24: the traffic log records exactly the frames read and written, in order.
package c24

import (
	"context"
	"errors"
	"io"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

var errLogger = errors.New("logger failure")

type logger struct {
	read, written [][]byte
	fail          int // 0 never, 1 always, 2 first
	t             *tap
	early         bool
}

func (l *logger) err(n int) error {
	if l.fail == 1 || l.fail == 2 && n == 1 {
		return errLogger
	}
	return nil
}

func (l *logger) LogRead(b []byte) error {
	l.read = append(l.read, h.Clone(b))
	return l.err(len(l.read))
}

func (l *logger) LogWritten(b []byte) error {
	l.written = append(l.written, h.Clone(b))
	if l.t != nil && len(l.written) > len(l.t.accepted) {
		l.early = true
	}
	return l.err(len(l.written))
}

// tap is a transport for writing.
type tap struct {
	accepted [][]byte
	failAt   int
	calls    int
	how      int
	gone     chan struct{}
	closed   bool
}

func (t *tap) Read(b []byte) (int, error) {
	<-t.gone
	return 0, st.ErrGone
}

func (t *tap) Write(b []byte) (int, error) {
	t.calls++
	if t.calls == t.failAt {
		switch t.how {
		case 1:
			return len(b), st.ErrTransport
		case 2:
			return len(b) - 1, st.ErrTransport
		case 3:
			return len(b), io.EOF
		}
		return 0, st.ErrTransport
	}
	t.accepted = append(t.accepted, h.Clone(b))
	return len(b), nil
}

func (t *tap) Close() error {
	if !t.closed {
		t.closed = true
		close(t.gone)
	}
	return nil
}

func stream(rwc io.ReadWriteCloser, ch chan mavlink2.Frame, ds mavlink2.Dialects, invalid bool, l *logger) *mavlink2.FrameStream {
	if l == nil {
		if nd.Choose("constructor", 2) == 1 {
			return mavlink2.NewFrameStream(rwc, ch, ds, invalid)
		}
		return mavlink2.NewFrameStreamWithLogger(rwc, ch, ds, invalid, nil)
	}
	return mavlink2.NewFrameStreamWithLogger(rwc, ch, ds, invalid, l)
}

// Read logs what is read from streams of known, corrupted and unknown frames and junk.
func Read() {
	d := &st.Dialect{Min: 1, Max: 255}
	b := &st.Build{D: d}
	k := nd.Param("k", 2)
	for i := 0; i < k; i++ {
		kind := nd.Choose("kind", 4)
		version := 0
		if kind > 0 {
			version = 1 + nd.Choose("version", 3)
		}
		b.Any(kind, version, nd.Choose("n", 2)+1)
	}
	b.Frame(2, []int{1, 255}[nd.Choose("last", 2)], true)
	invalid := nd.Choose("invalid", 2) == 1
	l := &logger{fail: nd.Choose("fail", 4)}
	if l.fail == 3 {
		l = nil
	}
	p := &st.Pipe{Chunks: [][]byte{h.Clone(b.Data)}, Err: io.EOF}
	s := stream(p, make(chan mavlink2.Frame), mavlink2.Dialects{d}, invalid, l)
	want := d.Scan(b.Data, invalid)
	go s.ReadContext(context.Background())
	i := 0
	for f := range s.Read() {
		nd.Assert(i < len(want) && nd.EqBytes(f.Bytes(), want[i]), "a logger changes nothing in what is delivered")
		if l != nil {
			nd.Assert(len(l.read) > i && nd.EqBytes(l.read[i], want[i]), "a frame is logged with its exact bytes before it is delivered")
		}
		i++
	}
	<-s.Closed()
	nd.Assert(i == len(want), "a logger changes nothing in what is delivered")
	nd.Assert(st.EndedWith(s.GetCloseErr(), io.EOF), "a logger changes nothing in what is reported")
	if l != nil {
		nd.Assert(len(l.read) == len(want), "exactly the frames read are logged")
		nd.Assert(len(l.written) == 0, "nothing is logged as written")
		if i > 1 && l.fail == 1 {
			nd.Cover("a failing logger")
		}
	} else {
		nd.Cover("no logger")
	}
}

// Write logs what is written.
func Write() {
	k := 1 + nd.Choose("k", nd.Param("k", 3))
	var fs []mavlink2.Frame
	var raw [][]byte
	for i := 0; i < k; i++ {
		v := nd.Choose("version", 3)
		version := 1 + min(v, 1)
		b := h.Raw("frame", version, []int{2, 255}[nd.Choose("n", 2)], v == 2)
		fs = append(fs, h.Frame(b, version))
		raw = append(raw, h.Clone(b))
	}
	at := nd.Choose("at", k+1)
	t := &tap{gone: make(chan struct{}), failAt: at}
	if at > 0 {
		t.how = nd.Choose("how", 4)
	}
	l := &logger{fail: nd.Choose("fail", 4), t: t}
	if l.fail == 3 {
		l = nil
	}
	ch := make(chan mavlink2.Frame, k)
	for _, f := range fs {
		ch <- f
	}
	close(ch)
	s := stream(t, ch, nil, false, l)
	s.WriteContext(context.Background())
	n := k
	err := mavlink2.ErrWriteChannelClosed
	if at > 0 {
		n = at - 1
		err = st.ErrTransport
		if t.how == 3 {
			err = io.EOF
		}
	}
	nd.Assert(len(t.accepted) == n, "a logger changes nothing in what is written")
	for i, w := range t.accepted {
		nd.Assert(nd.EqBytes(w, raw[i]), "a logger changes nothing in what is written")
	}
	nd.Assert(s.GetCloseErr() == err, "a logger changes nothing in what is reported")
	if l != nil {
		nd.Assert(len(l.written) == n, "exactly the frames the transport accepted are logged")
		for i, w := range l.written {
			nd.Assert(nd.EqBytes(w, raw[i]), "written frames are logged in order with their exact bytes")
		}
		nd.Assert(!l.early, "a frame is logged after the transport accepted it")
		nd.Assert(len(l.read) == 0, "nothing is logged as read")
		if at > 1 {
			nd.Cover("a rejected frame")
		}
		if l.fail == 1 && k > 1 {
			nd.Cover("a failing logger")
		}
	}
}

// Order follows deliveries under every schedule: the log is never behind.
func Order() {
	l := st.NewLink(2)
	lg := &logger{fail: nd.Choose("fail", 2)}
	l.In <- st.Valid1(1)
	l.In <- st.Valid1(2)
	close(l.In)
	s := mavlink2.NewFrameStreamWithLogger(l, make(chan mavlink2.Frame), mavlink2.Dialects{st.Any{}}, nd.Choose("invalid", 2) == 1, lg)
	go s.ReadContext(context.Background())
	i := 0
	for f := range s.Read() {
		nd.Assert(len(lg.read) > i, "a frame is logged before it is delivered")
		nd.Assert(nd.EqBytes(lg.read[i], f.Bytes()), "logged in order with its exact bytes")
		i++
	}
	nd.Assert(i == 2 && len(lg.read) == 2, "each frame is logged once")
	nd.Cover("two frames")
}
