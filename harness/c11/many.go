//go:build go1.21

package c11

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// class knows the messages whose id leaves the rest when divided by three.
type class struct{ rest uint32 }

type classMessage struct {
	h.Message
	from  uint32
	frame mavlink2.Frame
}

// GetMeta is part of the dialect interface.
func (c class) GetMeta(id uint32) (mavlink2.MessageMeta, error) {
	if id%3 == c.rest {
		return mavlink2.MessageMeta{MaximumLength: 255}, nil
	}
	return mavlink2.MessageMeta{}, mavlink2.ErrUnknownMessage
}

// GetMessage is part of the dialect interface.
func (c class) GetMessage(f mavlink2.Frame) (mavlink2.Message, error) {
	if f.GetMessageID()%3 == c.rest {
		return &classMessage{from: c.rest, frame: f}, nil
	}
	return nil, mavlink2.ErrUnknownMessage
}

// Many decodes a long run of frames of many messages, by collections that differ.
func Many() {
	k := nd.Param("k", 400)
	all := []mavlink2.Dialects{{class{0}, class{1}}, {class{1}}, {class{2}, h.Nothing{}, class{0}}, {}}
	var kept []*mavlink2.UnknownMessage
	var raw [][]byte
	for i := 0; i < k; i++ {
		version := 1 + i%2
		n := i % 5
		b := make([]byte, h.HeaderLen(version)+n+2)
		b[0], b[1] = 0xfe, byte(n)
		id := uint32(i*31) % 256
		if version == 2 {
			b[0] = 0xfd
			id = uint32(i*4099) & 0xffffff
			b[7], b[8], b[9] = byte(id), byte(id>>8), byte(id>>16)
		} else {
			b[5] = byte(id)
		}
		copy(b[h.HeaderLen(version):], nd.Bytes("payload", n))
		f := h.Frame(b, version)
		which := i / 2 % 4
		m, err := all[which].GetMessage(f)
		rest := id % 3
		if which == 0 && rest == 2 || which == 1 && rest != 1 || which == 2 && rest == 1 || which == 3 {
			nd.Assert(err == mavlink2.ErrUnknownMessage, "a message no dialect of the collection knows is unknown")
			u, ok := m.(*mavlink2.UnknownMessage)
			nd.Assert(ok && u.GetID() == id && u.Version == version, "an unknown message is kept as a generic one")
			kept = append(kept, u)
			raw = append(raw, h.Clone(b[h.HeaderLen(version):h.HeaderLen(version)+n]))
			continue
		}
		nd.Assert(err == nil, "a message of the collection is decoded")
		c, ok := m.(*classMessage)
		nd.Assert(ok && c.from == rest, "the dialect that knows the message decodes it")
		nd.Assert(nd.EqBytes(c.frame.Bytes(), b), "from the frame given")
	}
	for i, u := range kept {
		nd.Assert(nd.EqBytes(u.Raw, raw[i]), "an unknown message keeps its payload, however many follow")
	}
	if len(kept) > k/4 {
		nd.Cover("many messages")
	}
}
