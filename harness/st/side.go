//go:build go1.21

package st

import (
	"context"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// Side is two streams with transports, dialects and contents of their own, at work at the same time or one after
// the other.
type Side struct {
	Invalid [2]bool
	Log     [2]mavlink2.FrameLogger
	Take    func(i int, f mavlink2.Frame) // called for every frame delivered
	Got     [2][]mavlink2.Frame
	Want    [2][][]byte
	done    [2]chan bool
	links   [2]*Link
	streams [2]*mavlink2.FrameStream
	d       [2]*Dialect
}

func (s *Side) start(i int) {
	s.done[i] = make(chan bool)
	s.links[i] = NewLink(400)
	t := mavlink2.NewFrameStreamWithLogger(s.links[i], nil, mavlink2.Dialects{s.d[i]}, s.Invalid[i], s.Log[i])
	s.streams[i] = t
	go t.ReadContext(context.Background())
	go func() {
		for f := range t.Read() {
			s.Got[i] = append(s.Got[i], f)
			if s.Take != nil {
				s.Take(i, f)
			}
		}
		close(s.done[i])
	}()
}

func (s *Side) feed(i int, data []byte) {
	if len(data) > 0 {
		s.links[i].In <- h.Clone(data)
	}
	nd.Yield()
}

func (s *Side) end(i int) {
	close(s.links[i].In)
	<-s.done[i]
	nd.Assert(EndedWith(s.streams[i].GetCloseErr(), s.links[i].Err), "a stream ends with the error of its own transport")
	nd.Assert(s.links[i].Closes == 1, "and closes that")
}

// Run has both streams receive what they are sent.
func (s *Side) Run() {
	s.d = [2]*Dialect{{Min: 0, Max: 9}, {Min: 0, Max: 1}}
	var b [2]*Build
	for i := range b {
		b[i] = &Build{D: s.d[i]}
	}
	kinds := nd.Param("kinds", 3)
	b[0].Any(1+nd.Choose("kind", kinds), 1+nd.Choose("version", 3), 1)
	b[0].Frame(2, 2, true)
	other := Valid1(7) // known to its dialect
	switch nd.Choose("kind", 4) {
	case 1: // longer than its dialect allows
		other = []byte{0xfe, 2, 8, 1, 1, 4, 5, 6, 0, 0}
		h.Seal(other, 1, Extra)
	case 2: // unknown
		other = []byte{0xfd, 1, 0, 0, 8, 1, 1, 3, 0, 0, 5, 0, 0}
		h.Seal(other, 2, Extra)
	case 3: // damaged
		other[3] ^= 4
	}
	b[1].Data = append(other, Valid1(9)...)
	x, y := b[0].Data, b[1].Data
	for i := range b {
		s.Want[i] = s.d[i].Scan(b[i].Data, s.Invalid[i])
	}
	how := nd.Choose("how", 4)
	s.start(0)
	if how != 0 {
		s.start(1)
	}
	switch how {
	case 0: // one after the other
		s.feed(0, x)
		s.end(0)
		s.start(1)
		s.feed(1, y)
		s.end(1)
		nd.Cover("one after the other")
		return
	case 1: // a frame is interrupted
		at := nd.Choose("at", len(x)+1)
		s.feed(0, x[:at])
		s.feed(1, y)
		s.feed(0, x[at:])
	case 2: // byte by byte in turns
		for i := 0; i < max(len(x), len(y)); i++ {
			if i < len(x) {
				s.feed(0, x[i:i+1])
			}
			if i < len(y) {
				s.feed(1, y[i:i+1])
			}
		}
	case 3: // the other one ends in between
		at := nd.Choose("at", len(x)+1)
		s.feed(0, x[:at])
		s.feed(1, y)
		s.end(1)
		s.feed(0, x[at:])
		s.end(0)
		nd.Cover("one ends before the other")
		return
	}
	s.end(0)
	s.end(1)
	nd.Cover("in turns")
}

// Delivered compares what both have delivered with what their streams of bytes have.
func (s *Side) Delivered() {
	for i := range s.Got {
		Same(s.Got[i], s.Want[i])
	}
}
