//go:build go1.21

// Package c28: a frame is delivered as soon as it has arrived.
package c28

import (
	"context"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// Pieces feeds a stream piece by piece and takes the frames of each piece before the next one is sent; a reader that
// waits for more than it needs never gets it.
func Pieces() {
	d := &st.Dialect{Min: 1, Max: 255}
	invalid := nd.Choose("invalid", 2) == 1
	l := st.NewLink(400)
	s := mavlink2.NewFrameStream(l, nil, mavlink2.Dialects{d}, invalid)
	go s.ReadContext(context.Background())
	how := nd.Choose("how", nd.Param("hows", 2))
	k := nd.Param("k", 2)
	for i := 0; i < k; i++ {
		b := &st.Build{D: d}
		kind := nd.Choose("kind", 4)
		version := 0
		if kind > 0 {
			version = 1 + nd.Choose("version", 3)
		}
		n := []int{1, 30}[nd.Choose("n", nd.Param("lens", 2))]
		if i > 0 && kind == 0 {
			n = 1
		}
		b.Any(kind, version, n)
		if nd.Choose("and", 2) == 1 {
			b.Frame(1+nd.Choose("version", 3), 1, true)
		}
		switch how {
		case 0:
			l.In <- h.Clone(b.Data)
		case 1:
			for _, c := range st.Cut(b.Data, 1) {
				l.In <- c
			}
		case 2:
			for _, c := range st.Cut(b.Data, 9) {
				l.In <- c
			}
		}
		for _, w := range d.Scan(b.Data, invalid) {
			f, ok := <-s.Read()
			nd.Assert(ok, "a frame that has arrived is delivered")
			nd.Assert(nd.EqBytes(f.Bytes(), w), "the frame that has arrived is delivered")
			nd.Cover("delivered")
		}
	}
	s.Close()
}

// Partial sends a frame together with the beginning of the next one; it is delivered before the rest comes.
func Partial() {
	d := &st.Dialect{Min: 0, Max: 255}
	b := &st.Build{D: d}
	invalid := nd.Choose("invalid", 2) == 1
	first := b.Frame(1+nd.Choose("version", 3), []int{0, 2, 255}[nd.Choose("n", 3)], true)
	one := len(b.Data)
	second := b.Frame(1+nd.Choose("version", 3), 3, true)
	cut := one + nd.Choose("cut", len(b.Data)-one)
	l := st.NewLink(4)
	s := mavlink2.NewFrameStream(l, nil, mavlink2.Dialects{d}, invalid)
	go s.ReadContext(context.Background())
	l.In <- h.Clone(b.Data[:cut])
	f, ok := <-s.Read()
	nd.Assert(ok && nd.EqBytes(f.Bytes(), first), "a frame does not wait for the rest of the next one")
	l.In <- h.Clone(b.Data[cut:])
	f, ok = <-s.Read()
	nd.Assert(ok && nd.EqBytes(f.Bytes(), second), "the next one is delivered when the rest has come")
	s.Close()
	nd.Cover("both")
}

// Burst sends many frames at once, which all are delivered without anything coming after them.
func Burst() {
	d := &st.Dialect{Min: 0, Max: 255}
	b := &st.Build{D: d}
	k := nd.Param("k", 20)
	n := []int{0, 200}[nd.Choose("n", 2)]
	version := 1 + nd.Choose("version", 2)
	var all [][]byte
	for i := 0; i < k && len(b.Data) < 3500; i++ {
		f := make([]byte, h.HeaderLen(version)+n+2)
		f[0], f[1] = 0xfe, byte(n)
		id := 5
		if version == 2 {
			f[0], id = 0xfd, 7
		}
		f[id] = 2
		copy(f[h.HeaderLen(version):], nd.Bytes("payload", min(n, 3)))
		h.Seal(f, version, st.Extra)
		all = append(all, f)
		b.Data = append(b.Data, f...)
	}
	l := st.NewLink(4)
	s := mavlink2.NewFrameStream(l, nil, mavlink2.Dialects{d}, false)
	go s.ReadContext(context.Background())
	if nd.Choose("halves", 2) == 1 {
		l.In <- h.Clone(b.Data[:len(b.Data)/2+1])
		l.In <- h.Clone(b.Data[len(b.Data)/2+1:])
	} else {
		l.In <- h.Clone(b.Data)
	}
	for i := range all {
		f, ok := <-s.Read()
		nd.Assert(ok && nd.EqBytes(f.Bytes(), all[i]), "every frame of a burst is delivered")
	}
	s.Close()
	nd.Cover("all")
}
