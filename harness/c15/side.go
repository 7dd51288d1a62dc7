//go:build go1.21

package c15

import (
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// Side runs two streams next to each other, of which one or both hand over invalid frames.
func Side() {
	s := &st.Side{}
	switch nd.Choose("invalid", 3) {
	case 0:
		s.Invalid = [2]bool{true, false}
	case 1:
		s.Invalid = [2]bool{false, true}
	case 2:
		s.Invalid = [2]bool{true, true}
	}
	s.Run()
	s.Delivered()
}
