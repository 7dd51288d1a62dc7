//go:build go1.21

package c14

import (
	"io"
	"time"

	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// Slow lets time pass between the pieces of a stream.
func Slow() {
	d := &st.Dialect{Min: 0, Max: 255}
	b := &st.Build{D: d}
	kind := nd.Choose("kind", 5)
	b.Any(kind, 1+nd.Choose("version", 3), 2)
	b.Frame(1+nd.Choose("version", 3), 1, true)
	a := nd.Choose("cut", len(b.Data)+1)
	cuts := []int{a}
	if c := a + nd.Param("second", 5); c < len(b.Data) {
		cuts = append(cuts, c)
	}
	p := &st.Pipe{Chunks: split(b.Data, cuts), Err: io.EOF, Pause: st.Pauses[nd.Choose("pause", len(st.Pauses))]}
	run(d, p, b.Data, nd.Choose("invalid", 2) == 1)
	if p.Pause == time.Hour {
		nd.Cover("an hour in between")
	}
}
