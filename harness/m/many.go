//go:build go1.21

package m

import (
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/spec"
)

// Nth is the n-th case of a long history: types of all dialects take turns, and come again.
func Nth(n int) *Case {
	k := n * 37 % Total()
	if n%5 == 4 {
		k = (n - 3) * 37 % Total() // one that came a moment ago
	}
	for i := range spec.All {
		d := &spec.All[i]
		if k < len(d.Msgs) {
			return Get(d, &d.Msgs[k])
		}
		k -= len(d.Msgs)
	}
	return nil
}

// NthFrame is a valid frame of the case's message with one arbitrary payload byte; nil when the version cannot carry
// the message.
func (c *Case) NthFrame(n, version int) []byte {
	if version == 1 && c.Spec.ID > 255 {
		return nil
	}
	size := c.Spec.Max
	switch {
	case version == 1 && c.Spec.Variable:
		size = 5 + n%249
	case version == 1:
		size = c.Spec.Min
	case n%3 == 1:
		size = c.Spec.Min
	}
	hl := h.HeaderLen(version)
	b := make([]byte, hl+size+2)
	b[0], b[1] = 0xfe, byte(size)
	s := 2
	if version == 2 {
		b[0] = 0xfd
		s = 4
	}
	b[s], b[s+1], b[s+2] = byte(n), byte(n*7+1), byte(n*3+2)
	c.Header(b, version)
	for i := range b[hl : hl+size] {
		b[hl+i] = byte(i*3+n) & 0x3f // no NaNs
	}
	b[hl+size-1] |= 1
	if size > 0 {
		b[hl+n%size] = nd.U8("payload")&0x3f | 1
	}
	h.Seal(b, version, c.Spec.CRC)
	return b
}
