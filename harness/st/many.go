//go:build go1.21

package st

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// Nth is the n-th valid frame of a long history: versions, sequence numbers, senders and ids take turns, the first
// bytes of its payload are arbitrary.
func Nth(n, length int) mavlink2.Frame {
	version := 1 + n%3
	v := min(version, 2)
	f := make([]byte, h.HeaderLen(v)+length+2)
	f[0] = 0xfe
	s := 2
	if v == 2 {
		f[0] = 0xfd
		s = 4
		if version == 3 {
			f = append(f, make([]byte, 13)...)
			f[2] = 1
		}
		f[8] = byte(n >> 3)
		f[9] = byte(n >> 5)
	}
	f[1] = byte(length)
	f[s] = byte(n % 253)
	f[s+1] = byte(1 + n%7)
	f[s+2] = byte(n / 7)
	f[s+3] = byte(n % 126 * 2)
	p := f[h.HeaderLen(v):]
	for i := range p {
		p[i] = byte(i*5+n) & 0x7f
	}
	copy(p[:min(length, nd.Param("arbitrary", 2))], nd.Bytes("payload", nd.Param("arbitrary", 2)))
	h.Seal(f, v, Extra)
	return h.Frame(f, v)
}

// Length is the payload length of the n-th frame of a long history.
func Length(n int) int {
	if n%20 == 9 {
		return 255
	}
	return n % 6
}

// Many adds n pieces to the stream: valid frames, and among them unknown and corrupted ones and noise.
func (b *Build) Many(n int) {
	for i := 0; i < n; i++ {
		f := Nth(i, Length(i)).Bytes()
		switch i % 10 {
		case 2: // unknown
			v := 2
			id := 7
			if f[0] == 0xfe {
				v, id = 1, 5
			}
			f[id] |= 1
			Plain(f[h.HeaderLen(v) : h.HeaderLen(v)+int(f[1])])
			for j := h.HeaderLen(v) + int(f[1]); j < len(f); j++ {
				f[j] = byte(j) & 0x7f
			}
		case 5: // a wrong checksum
			v := 2
			if f[0] == 0xfe {
				v = 1
			}
			e := h.HeaderLen(v) + int(f[1])
			for j := range f[h.HeaderLen(v):e] {
				f[h.HeaderLen(v)+j] = byte(j) & 0x7f
			}
			h.Seal(f, v, Extra)
			f[e] = f[e]&0x7f ^ 0x10
			f[e+1] = f[e+1]&0x7f ^ byte(i&1)
		case 7: // noise
			f = nd.Bytes("noise", 1+i%3)
			Plain(f)
		}
		b.Data = append(b.Data, f...)
	}
}

// Flood adds n invalid frames, each of a message and from a sender of its own: their checksums are wrong, or no dialect
// knows them. If mixed, a valid one follows each.
func (b *Build) Flood(n int, mixed bool) {
	for i := 0; i < n; i++ {
		v := 1 + i%2
		f := make([]byte, h.HeaderLen(v)+i%3+2)
		f[0], f[1] = 0xfe, byte(i%3)
		s := 2
		if v == 2 {
			f[0] = 0xfd
			s = 4
			f[8] = byte(i >> 1 % 5)
			f[9] = byte(i >> 3)
		}
		f[s] = byte(i % 251)
		f[s+1] = byte(i % 241)
		f[s+2] = byte(i / 2 % 239)
		f[s+3] = byte(i % 233)
		for j := h.HeaderLen(v); j < len(f); j++ {
			f[j] = byte(i+j) & 0x7f
		}
		if i%4 < 2 {
			f[s+3] &^= 1
			h.Seal(f, v, Extra)
			p := f[len(f)-2:]
			p[0] = p[0]&0x7f ^ 0x10
			p[1] = p[1]&0x7f ^ byte(1+i%2)
			if i%100 == 0 {
				copy(p, nd.Bytes("checksum", 2))
				Plain(p)
				c := h.CRC(f[1:len(f)-2], Extra)
				nd.Assume(nd.Or(p[0] != byte(c), p[1] != byte(c>>8)))
			}
		} else {
			f[s+3] |= 1
		}
		b.Data = append(b.Data, f...)
		if mixed {
			b.Data = append(b.Data, Nth(i, i%3).Bytes()...)
		}
	}
}

// Noise adds n bytes that start no frame, the last of them arbitrary.
func (b *Build) Noise(n int) {
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i*7) & 0x7f
	}
	p := nd.Bytes("noise", min(n, 3))
	Plain(p)
	copy(d[n-len(p):], p)
	b.Data = append(b.Data, d...)
}

// Hostile is a long stream in which hardly anything is valid, or only every other frame.
func (b *Build) Hostile(n int, mixed bool) {
	b.Frame(1, 2, true)
	b.Flood(n, mixed)
	b.Frame(2, 2, true)
	b.Noise(n * 15)
	b.Frame(1, 3, true)
}

// Source is a transport that has n short frames arrive, one packet of several at a time, and knows what is written.
type Source struct {
	N       int // frames still to come
	Per     int // frames a read returns at most
	Length  int // payload length
	Every   int // a frame out of so many has an arbitrary byte
	Byte    byte
	next    int
	Written int
	Done    error
	Closes  int
}

// Short fills in the n-th frame of a source.
func (s *Source) Short(n int) []byte {
	f := make([]byte, 8+s.Length)
	f[0] = 0xfe
	f[1] = byte(s.Length)
	f[2] = byte(n % 250)
	f[3] = byte(n >> 7 & 0x7f)
	f[4] = byte(n >> 14 & 0x7f)
	f[5] = byte(n & 0x7e)
	for i := 6; i < len(f)-2; i++ {
		f[i] = byte(n+i) & 0x7f
	}
	if s.Every > 0 && s.Length > 0 && n%s.Every == 0 {
		f[6] = s.Byte
	}
	h.Seal(f, 1, Extra)
	return f
}

// Read reads.
func (s *Source) Read(b []byte) (int, error) {
	n := 0
	for i := 0; i < s.Per && s.N > 0 && len(b)-n >= 8+s.Length; i++ {
		n += copy(b[n:], s.Short(s.next))
		s.next++
		s.N--
	}
	if n == 0 {
		return 0, s.Done
	}
	return n, nil
}

// Write checks.
func (s *Source) Write(b []byte) (int, error) {
	nd.Assert(nd.EqBytes(b, s.Short(s.Written)), "frames are written unaltered and in order")
	s.Written++
	return len(b), nil
}

// Close counts.
func (s *Source) Close() error {
	s.Closes++
	return nil
}
