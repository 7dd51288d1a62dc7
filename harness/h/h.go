//go:build go1.21

// Package h holds what several harnesses share: the reference CRC and frame layout, dialects and messages
// with arbitrary answers.
package h

import (
	"errors"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// Step advances CRC-16/MCRF4XX by one byte, bit by bit from its polynomial definition.
func Step(crc uint16, b byte) uint16 {
	crc ^= uint16(b)
	for i := 0; i < 8; i++ {
		low := crc & 1 // the polynomial 0x8408 is added when the low bit drops out
		crc = crc>>1 ^ low<<15 ^ low<<10 ^ low<<3
	}
	return crc
}

// CRC is the checksum of p followed by the seed.
func CRC(p []byte, extra byte) uint16 {
	crc := uint16(0xffff)
	for _, b := range p {
		crc = Step(crc, b)
	}
	return Step(crc, extra)
}

// HeaderLen is the length of the header of a version.
func HeaderLen(version int) int {
	if version == 1 {
		return 6
	}
	return 10
}

// Raw returns a complete frame of the version with arbitrary header, payload of n bytes, arbitrary checksum;
// only the start and length bytes (and the signing flag) are fixed.
func Raw(name string, version, n int, signed bool) []byte {
	hl := HeaderLen(version)
	total := hl + n + 2
	if signed {
		total += 13
	}
	b := nd.Bytes(name, total)
	b[1] = byte(n)
	if version == 1 {
		b[0] = 0xfe
	} else {
		b[0] = 0xfd
		b[2] &^= 1
		if signed {
			b[2] |= 1
		}
	}
	return b
}

// Seal writes the checksum for the seed.
func Seal(b []byte, version int, extra byte) {
	hl := HeaderLen(version)
	n := int(b[1])
	c := CRC(b[1:hl+n], extra)
	b[hl+n] = byte(c)
	b[hl+n+1] = byte(c >> 8)
}

// Clone copies.
func Clone(b []byte) []byte { return append([]byte(nil), b...) }

// Frame makes a frame of the bytes without going through the code that recognises frames.
func Frame(b []byte, version int) mavlink2.Frame {
	if version == 1 {
		return mavlink2.FrameV1(b)
	}
	return mavlink2.FrameV2(b)
}

// ID is the message id at its position in the header.
func ID(b []byte, version int) uint32 {
	if version == 1 {
		return uint32(b[5])
	}
	return uint32(b[7]) | uint32(b[8])<<8 | uint32(b[9])<<16
}

// ErrOwn is a failure of a dialect of its own.
var ErrOwn = errors.New("dialect failure")

// ErrOwn2 is another one.
var ErrOwn2 = errors.New("another dialect failure")

// Dialect answers as told: 0 unknown, 1 known, 2 a failure of its own, 3 another.
type Dialect struct {
	Answer int
	For    uint32 // the message asked about; others are unknown
	Any    bool
	Meta   mavlink2.MessageMeta
	Msg    mavlink2.Message
	Asked  int
	Parsed int
}

func (d *Dialect) err() error {
	switch d.Answer {
	case 0:
		return mavlink2.ErrUnknownMessage
	case 2:
		return ErrOwn
	case 3:
		return ErrOwn2
	}
	return nil
}

// GetMeta is part of the dialect interface.
func (d *Dialect) GetMeta(id uint32) (mavlink2.MessageMeta, error) {
	d.Asked++
	if !d.Any && id != d.For {
		return mavlink2.MessageMeta{}, mavlink2.ErrUnknownMessage
	}
	if e := d.err(); e != nil {
		return mavlink2.MessageMeta{}, e
	}
	return d.Meta, nil
}

// GetMessage is part of the dialect interface.
func (d *Dialect) GetMessage(f mavlink2.Frame) (mavlink2.Message, error) {
	d.Parsed++
	if !d.Any && f.GetMessageID() != d.For {
		return nil, mavlink2.ErrUnknownMessage
	}
	if e := d.err(); e != nil {
		return d.Msg, e
	}
	return d.Msg, nil
}

// Message is a message with an arbitrary payload.
type Message struct {
	ID      uint32
	Payload []byte
	Err     error
	Wrote   int
	Version int
	Tag     int
}

// GetVersion and the methods below are the message interface.
func (m *Message) GetVersion() int        { return 2 }
func (m *Message) GetDialect() string     { return "test" }
func (m *Message) GetMessageName() string { return "Test" }
func (m *Message) GetID() uint32          { return m.ID }
func (m *Message) Read(f mavlink2.Frame) error {
	return nil
}
func (m *Message) Write(version int) ([]byte, error) {
	m.Wrote++
	m.Version = version
	if m.Err != nil {
		return nil, m.Err
	}
	return m.Payload, nil
}

// Lens picks one of the payload lengths of the tier: every length up to dense, and some up to 255.
func Lens(name string, dense int) int {
	dense = min(dense, 255)
	more := []int{63, 64, 100, 127, 128, 200, 253, 254, 255}
	k := nd.Choose(name, dense+1+len(more))
	if k <= dense {
		return k
	}
	n := more[k-dense-1]
	nd.Assume(n > dense)
	return n
}

// Nothing is a dialect that knows nothing.
type Nothing struct{}

// GetMeta is part of the dialect interface.
func (Nothing) GetMeta(id uint32) (mavlink2.MessageMeta, error) {
	return mavlink2.MessageMeta{}, mavlink2.ErrUnknownMessage
}

// GetMessage is part of the dialect interface.
func (Nothing) GetMessage(f mavlink2.Frame) (mavlink2.Message, error) {
	return nil, mavlink2.ErrUnknownMessage
}

// Wide is a collection of k dialects, of which only the one at a position answers for a message.
func Wide(k, at int, d *Dialect) mavlink2.Dialects {
	var ds mavlink2.Dialects
	for i := 0; i < k; i++ {
		if i == at {
			ds = append(ds, d)
		} else {
			ds = append(ds, &Dialect{For: ^d.For})
		}
	}
	return ds
}

// Position picks one of some positions, possibly none, in a collection of k.
func Position(k int) int {
	p := []int{0, 7, 8, 9, 15, 16, 17, 31, 32, 33, k - 1, k}
	return p[nd.Choose("position", len(p))]
}
