//go:build go1.21

package c16

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// Side runs two streams next to each other; the frames of one are overwritten with arbitrary bytes on receipt.
func Side() {
	s := &st.Side{}
	which := nd.Choose("overwritten", 2)
	s.Invalid[0] = nd.Choose("invalid", 2) == 1
	s.Invalid[1] = s.Invalid[0]
	var now [2][][]byte
	s.Take = func(i int, f mavlink2.Frame) {
		if i == which {
			b := f.Bytes()
			copy(b, nd.Bytes("new", len(b)))
		}
		now[i] = append(now[i], h.Clone(f.Bytes()))
	}
	s.Run()
	for i := range now {
		nd.Assert(len(now[i]) == len(s.Want[i]), "every frame is delivered, whatever became of others")
		for j, f := range s.Got[i] {
			nd.Assert(nd.EqBytes(f.Bytes(), now[i][j]), "a frame does not change after its delivery")
			if i != which {
				nd.Assert(nd.EqBytes(f.Bytes(), s.Want[i][j]), "changing a frame of one stream changes none of another")
			}
		}
	}
}
