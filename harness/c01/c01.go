//go:build go1.21

// Package c01: the checksum is the MAVLink CRC for every byte sequence, however it is fed.
package c01

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// step is CRC-16/MCRF4XX by its polynomial definition, bit by bit.
func step(crc uint16, b byte) uint16 {
	crc ^= uint16(b)
	for i := 0; i < 8; i++ {
		low := crc & 1 // the polynomial 0x8408 is added when the low bit drops out
		crc = crc>>1 ^ low<<15 ^ low<<10 ^ low<<3
	}
	return crc
}

func ref(crc uint16, p []byte) uint16 {
	for _, b := range p {
		crc = step(crc, b)
	}
	return crc
}

func state(crc *mavlink2.X25CRC) uint16 {
	s := crc.Sum(nil)
	nd.Assert(len(s) == 2, "the sum has two bytes")
	return uint16(s[0]) | uint16(s[1])<<8
}

// Split feeds an arbitrary sequence in three writes of arbitrary lengths after a reset.
func Split() {
	n := nd.Param("n", 6)
	p := nd.Bytes("data", n)
	orig := append([]byte(nil), p...)
	a := nd.Choose("a", n+1)
	b := a + nd.Choose("b", n+1-a)
	crc := new(mavlink2.X25CRC)
	if nd.Choose("dirty", 2) == 1 {
		crc.Write(nd.Bytes("junk", 2))
	}
	crc.Reset()
	for _, part := range [][]byte{p[:a], p[a:b], p[b:]} {
		k, err := crc.Write(part)
		nd.Assert(k == len(part), "a write reports having consumed all its input")
		nd.Assert(err == nil, "a write reports no error")
	}
	nd.Assert(nd.EqBytes(p, orig), "a write leaves its input unchanged")
	nd.Assert(state(crc) == ref(0xffff, orig), "the checksum is the CRC-16/MCRF4XX of everything written")
	nd.Cover("checked")
}

// Step is the inductive step: from every reachable state, one write of every length up to the bound.
func Step() {
	n := nd.Param("n", 8)
	crc := new(mavlink2.X25CRC)
	crc.Reset()
	crc.Write(nd.Bytes("pre", 2)) // two bytes reach every one of the 65536 states
	before := state(crc)
	k := nd.Choose("len", n+1)
	p := nd.Bytes("data", k)
	orig := append([]byte(nil), p...)
	m, err := crc.Write(p)
	nd.Assert(nd.And(m == k, err == nil), "a write reports having consumed all its input without error")
	nd.Assert(nd.EqBytes(p, orig), "a write leaves its input unchanged")
	nd.Assert(state(crc) == ref(before, orig), "a write advances the checksum by exactly its bytes")
	nd.Cover("checked")
}

// Sum checks Sum against every prefix, and Reset.
func Sum() {
	crc := new(mavlink2.X25CRC)
	crc.Reset()
	data := nd.Bytes("data", 2)
	crc.Write(data)
	want := ref(0xffff, data)
	k := nd.Choose("prefix", nd.Param("n", 5))
	extra := nd.Choose("room", 5)
	buf := nd.Bytes("buf", k+extra)
	orig := append([]byte(nil), buf...)
	out := crc.Sum(buf[:k])
	nd.Assert(len(out) == k+2, "the sum is appended to the prefix")
	nd.Assert(nd.EqBytes(out[:k], orig[:k]), "the prefix is kept")
	nd.Assert(nd.And(out[k] == byte(want), out[k+1] == byte(want>>8)), "the sum is appended low byte first")
	nd.Assert(state(crc) == want, "asking for the sum leaves the running state as it was")
	more := nd.Bytes("more", 2)
	crc.Write(more)
	nd.Assert(state(crc) == ref(want, more), "writing goes on from the state before the sum")
	crc.Reset()
	nd.Assert(state(crc) == 0xffff, "a reset starts afresh")
	nd.Assert(crc.Size() == 2, "the size is two bytes")
	nd.Cover("checked")
}

// Long feeds one long write of every length from every state, and goes on from there.
func Long() {
	n := nd.Param("n", 300)
	crc := new(mavlink2.X25CRC)
	crc.Reset()
	pre := nd.Bytes("pre", 2) // two bytes reach every one of the 65536 states
	crc.Write(pre)
	l := nd.Choose("len", n+1) * nd.Param("step", 1)
	for _, part := range [][]byte{nd.Bytes("data", l), nd.Bytes("more", 3)} {
		before := state(crc)
		orig := append([]byte(nil), part...)
		k, err := crc.Write(part)
		nd.Assert(nd.And(k == len(part), err == nil), "a write reports having consumed all its input without error")
		nd.Assert(nd.EqBytes(part, orig), "a write leaves its input unchanged")
		nd.Assert(state(crc) == ref(before, orig), "the checksum is the CRC-16/MCRF4XX of everything written")
	}
	nd.Cover("checked")
}

// Two feeds two checksum objects in turns; neither knows of the other.
func Two() {
	n := nd.Param("n", 3)
	a, b := new(mavlink2.X25CRC), new(mavlink2.X25CRC)
	a.Reset()
	p, q, r := nd.Bytes("p", n), nd.Bytes("q", nd.Choose("len", n+1)), nd.Bytes("r", n)
	a.Write(p)
	b.Reset()
	b.Write(q)
	sum := b.Sum(nil)
	a.Write(r)
	nd.Assert(state(a) == ref(ref(0xffff, p), r), "an object is not affected by another one")
	nd.Assert(state(b) == ref(0xffff, q), "an object is not affected by another one")
	want := ref(0xffff, q)
	nd.Assert(nd.And(sum[0] == byte(want), sum[1] == byte(want>>8)), "a sum once given does not change")
	sum[0] ^= 0xff
	nd.Assert(state(b) == want, "changing a sum does not change the state")
	b.Reset()
	nd.Assert(state(a) == ref(ref(0xffff, p), r), "resetting one object leaves another alone")
	nd.Cover("checked")
}
