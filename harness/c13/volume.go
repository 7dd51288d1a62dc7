//go:build go1.21

package c13

import (
	"context"
	"errors"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// Volume receives a very long stream.
func Volume() {
	end := errors.New("end")
	n := nd.Param("n", 1000)
	t := &st.Source{N: n, Per: 20, Length: nd.Param("length", 1), Every: 1000, Byte: nd.U8("byte") & 0x7f, Done: end}
	d := &st.Dialect{Min: 0, Max: 255}
	s := mavlink2.NewFrameStream(t, nil, mavlink2.Dialects{d}, nd.Choose("invalid", 2) == 1)
	go s.ReadContext(context.Background())
	i := 0
	for f := range s.Read() {
		nd.Assert(nd.EqBytes(f.Bytes(), t.Short(i)), "frames are delivered unaltered and in order")
		i++
	}
	nd.Assert(i == n, "as many frames are delivered as the stream has")
	nd.Assert(st.EndedWith(s.GetCloseErr(), end), "the stream ends with the transport's error")
	nd.Cover("a very long stream")
}
