//go:build go1.21

package c16

import (
	"context"
	"errors"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// Volume keeps every frame of a very long stream and overwrites some.
func Volume() {
	n := nd.Param("n", 1000)
	t := &st.Source{N: n, Per: 20, Length: 1, Every: 1000, Byte: nd.U8("byte") & 0x7f, Done: errors.New("end")}
	s := mavlink2.NewFrameStream(t, nil, mavlink2.Dialects{&st.Dialect{Min: 0, Max: 255}}, nd.Choose("invalid", 2) == 1)
	go s.ReadContext(context.Background())
	var kept []mavlink2.Frame
	for f := range s.Read() {
		if len(kept)%64 == 5 {
			b := f.Bytes()
			for i := range b {
				b[i] = 0x55
			}
		}
		kept = append(kept, f)
	}
	nd.Assert(len(kept) == n, "every frame is delivered, whatever became of earlier ones")
	for i, f := range kept {
		want := t.Short(i)
		if i%64 == 5 {
			for i := range want {
				want[i] = 0x55
			}
		}
		nd.Assert(nd.EqBytes(f.Bytes(), want), "a delivered frame does not change")
	}
	nd.Cover("a very long stream")
}
