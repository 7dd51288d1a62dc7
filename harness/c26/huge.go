//go:build go1.21

package c26

import (
	"github.com/botlink/go-mavlink2/util"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// Huge tries very long slices of zeros or of ones with arbitrary bytes in three places.
func Huge() {
	sizes := []int{4097, 32770, 65540}
	n := sizes[nd.Choose("size", len(sizes))]
	p := make([]byte, n)
	fill := byte(nd.Choose("fill", 2))
	for i := range p {
		p[i] = fill
	}
	var at [3]int
	copy(at[:], [][]int{{0, 1, 2}, {n / 2, n/2 + 1, n - 1}, {n - 3, n - 2, n - 1}, {0, 255, 256}}[nd.Choose("places", 4)])
	b := nd.Bytes("data", 3)
	for i, x := range b {
		p[at[i]] = x
	}
	// where the first zero and the last other byte are
	first, last := n, 0
	for i := n - 1; i > 0 && last == 0; i-- {
		if p[i] != 0 {
			last = i
		}
	}
	for i := 0; i < n && first == n; i++ {
		if p[i] == 0 {
			first = i
		}
	}
	nd.Assert(util.CStrLen(p) == first, "the length is that of the bytes before the first NUL")
	nd.Assert(len(util.TruncateV2(p)) == last+1, "the zeros at the end are cut off, but not the first byte")
	nd.Cover("checked")
}
