//go:build go1.21

package c24

import (
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

type notes struct{ read, written [][]byte }

func (n *notes) LogRead(b []byte) error {
	n.read = append(n.read, h.Clone(b))
	return nil
}

func (n *notes) LogWritten(b []byte) error {
	n.written = append(n.written, h.Clone(b))
	return nil
}

// Side runs two streams next to each other, each with a logger of its own, or one of them with none.
func Side() {
	s := &st.Side{}
	var l [2]*notes
	without := nd.Choose("without", 3)
	for i := range l {
		l[i] = &notes{}
		if i != without {
			s.Log[i] = l[i]
		}
	}
	s.Run()
	s.Delivered()
	for i := range l {
		if i == without {
			nd.Assert(len(l[i].read) == 0, "a logger is told nothing of another stream")
			continue
		}
		nd.Assert(len(l[i].read) == len(s.Want[i]), "every frame read is logged by the logger of its stream")
		for j := range l[i].read {
			nd.Assert(nd.EqBytes(l[i].read[j], s.Want[i][j]), "with its bytes")
		}
		nd.Assert(len(l[i].written) == 0, "nothing was written")
	}
}
