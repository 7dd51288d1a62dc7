//go:build go1.21

package c13

import "github.com/botlink/go-mavlink2/zzverif/st"

// Side runs two streams next to each other.
func Side() {
	s := &st.Side{}
	s.Run()
	s.Delivered()
}
