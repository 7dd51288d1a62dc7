//go:build go1.21

// Package st holds what the stream harnesses share: transports, a dialect and the reference scanner.
package st

import (
	"context"
	"errors"
	"io"
	"sync"
	"time"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// Extra is the CRC seed of every message the dialect knows.
const Extra = 0x5a

// Dialect knows the messages with even ids, with payloads of Min..Max bytes.
type Dialect struct{ Min, Max int }

// GetMeta is part of the dialect interface.
func (d *Dialect) GetMeta(id uint32) (mavlink2.MessageMeta, error) {
	if id&1 != 0 {
		return mavlink2.MessageMeta{}, mavlink2.ErrUnknownMessage
	}
	return mavlink2.MessageMeta{CRCExtra: Extra, MinimumLength: uint(d.Min), MaximumLength: uint(d.Max)}, nil
}

// GetMessage is part of the dialect interface.
func (d *Dialect) GetMessage(f mavlink2.Frame) (mavlink2.Message, error) {
	return nil, mavlink2.ErrUnknownMessage
}

// Known tells whether the dialect defines the id.
func (d *Dialect) Known(id uint32) bool { return id&1 == 0 }

// ErrTransport is a failure of the transport.
var ErrTransport = errors.New("transport failure")

// Pipe is a transport whose reads give the chunks one after the other, then Err.
type Pipe struct {
	mu     sync.Mutex
	Chunks [][]byte
	Err    error
	// WithLast gives the error together with the last chunk.
	WithLast bool
	// Datagrams loses what a read has no room for.
	Datagrams bool
	Reads     int
	Smallest  int
	Wrote     [][]byte
	Closes    int
	// Pause is how long a read takes.
	Pause time.Duration
}

// Pauses are the delays explored.
var Pauses = []time.Duration{0, time.Millisecond, time.Hour}

// Read gives the next piece.
func (p *Pipe) Read(b []byte) (int, error) {
	time.Sleep(p.Pause)
	p.mu.Lock()
	defer p.mu.Unlock()
	p.Reads++
	if len(p.Chunks) == 0 {
		return 0, p.Err
	}
	c := p.Chunks[0]
	n := copy(b, c)
	if n < len(c) && !p.Datagrams {
		p.Chunks[0] = c[n:]
	} else {
		p.Chunks = p.Chunks[1:]
	}
	if len(p.Chunks) == 0 && p.WithLast {
		return n, p.Err
	}
	return n, nil
}

// Write records.
func (p *Pipe) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.Wrote = append(p.Wrote, h.Clone(b))
	return len(b), nil
}

// Close counts.
func (p *Pipe) Close() error {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.Closes++
	return nil
}

// Scan is the reference: the frames of data in the two modes.
func (d *Dialect) Scan(data []byte, invalidToo bool) [][]byte {
	var out [][]byte
	pos := 0
	for len(data)-pos >= 3 {
		b := data[pos:]
		version := 0
		if b[0] == 0xfe {
			version = 1
		} else if b[0] == 0xfd {
			version = 2
		}
		if version == 0 {
			pos++
			continue
		}
		l := int(b[1]) + 8
		if version == 2 {
			l = int(b[1]) + 12
			if b[2]&1 != 0 {
				l += 13
			}
		}
		if len(b) < l {
			break
		}
		l = nd.Concrete(l)
		f := b[:l]
		ok := d.Valid(f, version)
		if ok || invalidToo {
			out = append(out, f)
		}
		if ok {
			pos += l
		} else {
			pos++
		}
	}
	return out
}

// Valid is the reference for validation.
func (d *Dialect) Valid(f []byte, version int) bool {
	n := int(f[1])
	hl := h.HeaderLen(version)
	if !d.Known(h.ID(f, version)) || n > d.Max || version == 1 && n < d.Min {
		return false
	}
	n = nd.Concrete(n)
	c := h.CRC(f[1:hl+n], Extra)
	return f[hl+n] == byte(c) && f[hl+n+1] == byte(c>>8)
}

// Build puts a stream together from pieces whose contents are arbitrary.
type Build struct {
	D    *Dialect
	Data []byte
	n    int
}

func (b *Build) name() string {
	b.n++
	return "seg" + string(rune('0'+b.n))
}

// Plain restricts bytes to those that do not start a frame.
func Plain(p []byte) {
	for _, x := range p {
		nd.Assume(nd.Or(x < 0xfd, x == 0xff))
	}
}

// Junk adds n bytes that do not start a frame.
func (b *Build) Junk(n int) {
	p := nd.Bytes(b.name(), n)
	Plain(p)
	b.Data = append(b.Data, p...)
}

// Frame adds a frame of the version (3: signed version 2) with n payload bytes. The id is known or not as told,
// the checksum is right.
func (b *Build) Frame(version, n int, known bool) []byte {
	v := version
	if v == 3 {
		v = 2
	}
	f := h.Raw(b.name(), v, n, version == 3)
	i := 5
	if v == 2 {
		i = 7
	}
	if known {
		f[i] &^= 1
	} else {
		f[i] |= 1
	}
	h.Seal(f, v, Extra)
	b.Data = append(b.Data, f...)
	return f
}

// Bad adds a frame whose checksum is wrong in any way; no byte after the first starts a frame.
func (b *Build) Bad(version, n int) []byte {
	v := version
	if v == 3 {
		v = 2
	}
	f := h.Raw(b.name(), v, n, version == 3)
	if v == 1 {
		f[5] &^= 1
	} else {
		f[7] &^= 1
	}
	hl := h.HeaderLen(v)
	c := h.CRC(f[1:hl+n], Extra)
	nd.Assume(nd.Or(f[hl+n] != byte(c), f[hl+n+1] != byte(c>>8)))
	Plain(f[1:])
	b.Data = append(b.Data, f...)
	return f
}

// Unknown adds a frame no dialect knows; no byte after the first starts a frame.
func (b *Build) Unknown(version, n int) []byte {
	v := version
	if v == 3 {
		v = 2
	}
	f := h.Raw(b.name(), v, n, version == 3)
	if v == 1 {
		f[5] |= 1
	} else {
		f[7] |= 1
	}
	Plain(f[1:])
	b.Data = append(b.Data, f...)
	return f
}

// False adds a start byte and a header announcing n payload bytes of an unknown message; what follows in the
// stream is taken for its payload.
func (b *Build) False(version, n int) {
	v := version
	if v == 3 {
		v = 2
	}
	f := nd.Bytes(b.name(), h.HeaderLen(v))
	f[1] = byte(n)
	if v == 1 {
		f[0] = 0xfe
		f[5] |= 1
	} else {
		f[0] = 0xfd
		f[2] &^= 1
		if version == 3 {
			f[2] |= 1
		}
		f[7] |= 1
	}
	Plain(f[1:])
	b.Data = append(b.Data, f...)
}

// Any adds a piece of the kind: junk, known, bad, unknown, false start.
func (b *Build) Any(kind, version, n int) {
	switch kind {
	case 0:
		b.Junk(1 + n%3)
	case 1:
		b.Frame(version, n, true)
	case 2:
		b.Bad(version, n)
	case 3:
		b.Unknown(version, n)
	case 4:
		b.False(version, n)
	}
}

// Cut cuts data into pieces of n bytes.
func Cut(data []byte, n int) [][]byte {
	var out [][]byte
	for i := 0; i < len(data); i += n {
		out = append(out, h.Clone(data[i:min(i+n, len(data))]))
	}
	return out
}

// Receive reads the stream to its end.
func Receive(s *mavlink2.FrameStream) []mavlink2.Frame {
	go s.ReadContext(context.Background())
	var out []mavlink2.Frame
	for f := range s.Read() {
		out = append(out, f)
	}
	return out
}

// EndedWith tells whether the stream ended with the transport's error; a frame cut off by the end of the
// transport makes io.EOF an io.ErrUnexpectedEOF.
func EndedWith(got, err error) bool {
	return got == err || err == io.EOF && got == io.ErrUnexpectedEOF
}

// Same compares the frames received with the expected bytes.
func Same(got []mavlink2.Frame, want [][]byte) {
	nd.Assert(len(got) == len(want), "as many frames are delivered as the stream has")
	for i, f := range got {
		nd.Assert(nd.EqBytes(f.Bytes(), want[i]), "frames are delivered in order with their exact bytes")
		v := 2
		if want[i][0] == 0xfe {
			v = 1
		}
		nd.Assert(f.GetVersion() == v, "frames are delivered as what their start byte says")
	}
}

// ErrGone is what calls on a closed link get.
var ErrGone = errors.New("use of closed link")

// Link is a transport whose reads wait for data; closing it ends pending reads.
type Link struct {
	In     chan []byte // nil or closed: the transport ends with Err
	Err    error
	gone   chan struct{}
	mu     sync.Mutex
	Reads  int
	Closes int
	Wrote  [][]byte
	// FailAt is the write that fails (from 1), 0 for none.
	FailAt int
}

// NewLink returns a link.
func NewLink(room int) *Link {
	return &Link{In: make(chan []byte, room), Err: io.EOF, gone: make(chan struct{})}
}

// Read waits for data.
func (l *Link) Read(b []byte) (int, error) {
	l.Reads++
	select {
	case p, ok := <-l.In:
		if !ok {
			return 0, l.Err
		}
		return copy(b, p), nil
	case <-l.gone:
		return 0, ErrGone
	}
}

// Write records.
func (l *Link) Write(b []byte) (int, error) {
	if l.FailAt == len(l.Wrote)+1 {
		l.FailAt = 0
		return 0, ErrTransport
	}
	l.Wrote = append(l.Wrote, h.Clone(b))
	return len(b), nil
}

// Close ends pending reads.
func (l *Link) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.Closes++
	if l.Closes == 1 {
		close(l.gone)
	}
	return nil
}

// Any is a dialect in which every message is known.
type Any struct{}

// GetMeta is part of the dialect interface.
func (Any) GetMeta(id uint32) (mavlink2.MessageMeta, error) {
	return mavlink2.MessageMeta{CRCExtra: Extra, MaximumLength: 255}, nil
}

// GetMessage is part of the dialect interface.
func (Any) GetMessage(f mavlink2.Frame) (mavlink2.Message, error) {
	return nil, mavlink2.ErrUnknownMessage
}

// Valid1 is a valid frame with the given tag in its payload.
func Valid1(tag byte) []byte {
	b := []byte{0xfe, 1, tag, 1, 1, 4, tag, 0, 0}
	h.Seal(b, 1, Extra)
	return b
}

// Context is a context cancelled by hand, with an error of its own.
type Context struct {
	context.Context
	done chan struct{}
	mu   sync.Mutex
	err  error
	why  error
}

// NewContext returns a context that will end with the error.
func NewContext(why error) *Context {
	return &Context{Context: context.Background(), done: make(chan struct{}), why: why}
}

// Done is part of the interface.
func (c *Context) Done() <-chan struct{} { return c.done }

// Err is part of the interface.
func (c *Context) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

// Cancel ends the context.
func (c *Context) Cancel() {
	c.mu.Lock()
	c.err = c.why
	c.mu.Unlock()
	close(c.done)
}

// None is a dialect that knows nothing.
type None struct{}

// GetMeta is part of the dialect interface.
func (None) GetMeta(id uint32) (mavlink2.MessageMeta, error) {
	return mavlink2.MessageMeta{}, mavlink2.ErrUnknownMessage
}

// GetMessage is part of the dialect interface.
func (None) GetMessage(f mavlink2.Frame) (mavlink2.Message, error) {
	return nil, mavlink2.ErrUnknownMessage
}

// ReceiveSlowly reads the stream to its end and takes its time.
func ReceiveSlowly(s *mavlink2.FrameStream, pause time.Duration) []mavlink2.Frame {
	go s.ReadContext(context.Background())
	var out []mavlink2.Frame
	time.Sleep(pause)
	for f := range s.Read() {
		out = append(out, f)
		time.Sleep(pause)
	}
	return out
}
