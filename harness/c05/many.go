//go:build go1.21

package c05

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// Many builds a long run of frames; all of them are what they were when they were built.
func Many() {
	k := nd.Param("k", 300)
	d := &h.Dialect{Answer: 1, Any: true}
	ds := mavlink2.Dialects{d}
	var fs []mavlink2.Frame
	var ms []*h.Message
	for i := 0; i < k; i++ {
		n := i % 6
		if i%20 == 9 {
			n = 255
		}
		m := &h.Message{ID: uint32(i*3) % 256, Payload: make([]byte, n)}
		if i%2 == 1 {
			m.ID = uint32(i*97) & 0xffffff
		}
		copy(m.Payload, nd.Bytes("payload", min(n, 2)))
		d.Meta = mavlink2.MessageMeta{CRCExtra: byte(i * 5), MaximumLength: 255}
		f, err := ds.GetFrame(1+i%2, byte(i/2), byte(i/3), byte(i), m)
		nd.Assert(err == nil && f != nil, "every message of a long run is built")
		fs, ms = append(fs, f), append(ms, m)
	}
	for i, f := range fs {
		layout(f, 1+i%2, byte(i), byte(i/2), byte(i/3), ms[i].ID, ms[i].Payload, byte(i*5))
	}
	nd.Cover("many frames")
}
