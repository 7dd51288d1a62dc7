//go:build go1.21

package c24

import (
	"context"
	"io"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// Repeat reads and writes the same frame several times, another one in between.
func Repeat() {
	d := &st.Dialect{Min: 1, Max: 255}
	build := &st.Build{D: d}
	v := 1 + nd.Choose("version", 3)
	n := []int{3, 255}[nd.Choose("n", 2)]
	one := h.Clone(build.Frame(v, n, true))
	two := h.Clone(build.Frame(1+nd.Choose("other", 2), 2, true))
	order := [][]byte{one, one, two, one, one}
	if nd.Choose("out", 2) == 1 {
		t := &tap{gone: make(chan struct{})}
		l := &logger{fail: nd.Choose("fail", 3), t: t}
		ch := make(chan mavlink2.Frame, len(order)+1)
		same := h.Frame(h.Clone(one), min(v, 2))
		for i, b := range order {
			switch {
			case i == 2:
				ch <- h.Frame(h.Clone(b), kind(b))
			case i == 3:
				ch <- h.Frame(h.Clone(b), kind(b)) // equal, another object
			default:
				ch <- same
			}
		}
		close(ch)
		s := stream(t, ch, nil, false, l)
		s.WriteContext(context.Background())
		check(t.accepted, order, "every submission is written")
		check(l.written, order, "every write is logged")
		nd.Cover("written repeatedly")
		return
	}
	var data []byte
	for _, b := range order {
		data = append(data, b...)
	}
	p := &st.Pipe{Chunks: [][]byte{data}, Err: io.EOF}
	if nd.Choose("pieces", 2) == 1 {
		p.Chunks = order
	}
	l := &logger{fail: nd.Choose("fail", 3), t: &tap{}}
	s := stream(p, make(chan mavlink2.Frame), mavlink2.Dialects{d}, nd.Choose("invalid", 2) == 1, l)
	want := d.Scan(data, false)
	got := st.Receive(s)
	st.Same(got, want)
	check(l.read, want, "every delivery is logged")
	nd.Cover("read repeatedly")
}

func kind(b []byte) int {
	if b[0] == 0xfd {
		return 2
	}
	return 1
}

func check(got, want [][]byte, what string) {
	nd.Assert(len(got) == len(want), what)
	for i := range got {
		nd.Assert(nd.EqBytes(got[i], want[i]), what)
	}
}
