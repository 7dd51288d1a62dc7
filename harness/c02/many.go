//go:build go1.21

package c02

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// seeds defines every message whose id is not a multiple of 5, with a seed and lengths that depend on the id.
type seeds struct{ base byte }

func (s seeds) meta(id uint32) mavlink2.MessageMeta {
	return mavlink2.MessageMeta{CRCExtra: s.base + byte(id*7) ^ byte(id>>8), MinimumLength: uint(id % 3), MaximumLength: uint(2 + id%4)}
}

// GetMeta is part of the dialect interface.
func (s seeds) GetMeta(id uint32) (mavlink2.MessageMeta, error) {
	if id%5 == 0 {
		return mavlink2.MessageMeta{}, mavlink2.ErrUnknownMessage
	}
	return s.meta(id), nil
}

// GetMessage is part of the dialect interface.
func (s seeds) GetMessage(f mavlink2.Frame) (mavlink2.Message, error) {
	return nil, mavlink2.ErrUnknownMessage
}

// Many validates a long run of frames of many messages by two collections in turns.
func Many() {
	k := nd.Param("k", 600)
	ds := []mavlink2.Dialects{{seeds{3}}, {h.Nothing{}, seeds{90}}}
	bases := []byte{3, 90}
	ok := 0
	for i := 0; i < k; i++ {
		version := 1 + i%2
		id := uint32(i*37) % 1201
		if version == 1 {
			id &= 0xff
		}
		n := i % 7
		b := make([]byte, h.HeaderLen(version)+n+2)
		b[0], b[1] = 0xfe, byte(n)
		if version == 1 {
			b[2], b[5] = byte(i), byte(id)
		} else {
			b[0] = 0xfd
			b[4], b[7], b[8], b[9] = byte(i), byte(id), byte(id>>8), byte(id>>16)
		}
		p := b[h.HeaderLen(version) : h.HeaderLen(version)+n]
		copy(p, nd.Bytes("payload", min(n, nd.Param("arbitrary", 2))))
		which := i / 3 % 2
		m := seeds{bases[which]}.meta(id)
		h.Seal(b, version, m.CRCExtra)
		if i%4 == 3 {
			b[len(b)-1-i/4%2] ^= 1 << (i / 8 % 8)
		}
		err := ds[which].Validate(h.Frame(b, version))
		if id%5 == 0 {
			nd.Assert(err == mavlink2.ErrUnknownMessage, "a message nobody defines is refused, however many were validated before")
			continue
		}
		want := expected(b, version, m)
		nd.Assert((err == nil) == (want == nil), "the definition of its message decides about every frame of a long run")
		if err == nil {
			ok++
		}
	}
	if ok > k/5 {
		nd.Cover("many frames")
	}
}
