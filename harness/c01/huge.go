//go:build go1.21

package c01

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// Huge is one write of very many bytes, arbitrary ones at its ends and around the middle, from any state.
func Huge() {
	sizes := []int{4097, 32770, 65540}
	n := sizes[nd.Choose("size", nd.Param("sizes", 3))]
	p := make([]byte, n)
	for i := range p {
		p[i] = byte(i * 11)
	}
	copy(p[n/2:], nd.Bytes("middle", 1))
	copy(p[n-2:], nd.Bytes("end", 2))
	crc := new(mavlink2.X25CRC)
	crc.Reset()
	crc.Write(nd.Bytes("pre", 2))
	want := state(crc)
	for _, b := range p {
		want = h.Step(want, b)
	}
	k, err := crc.Write(p)
	nd.Assert(nd.And(k == n, err == nil), "a write reports having consumed all its input without error")
	nd.Assert(state(crc) == want, "a write advances the checksum by exactly its bytes")
	nd.Cover("checked")
}
