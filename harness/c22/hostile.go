//go:build go1.21

package c22

import (
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// Hostile reads long streams, in which hardly anything or only every other frame is valid, or of frames of every kind.
func Hostile() {
	d := &st.Dialect{Min: 0, Max: 255}
	b := &st.Build{D: d}
	n := nd.Param("n", 300)
	switch nd.Choose("stream", 3) {
	case 0:
		b.Many(n)
	case 1:
		b.Hostile(n, false)
	default:
		b.Hostile(n, true)
	}
	if receive(b.Data, d, nd.Choose("invalid", 2) == 1) >= 3 {
		nd.Cover("received")
	}
}
