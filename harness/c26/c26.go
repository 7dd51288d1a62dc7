//go:build go1.21

// Package c26: the byte helpers trim and measure exactly.
package c26

import (
	"github.com/botlink/go-mavlink2/util"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
)

// Truncate tries every slice up to n bytes.
func Truncate() {
	n := nd.Choose("n", nd.Param("n", 40)+1)
	truncate(n, 2)
}

// TruncateLong tries long slices.
func TruncateLong() {
	lens := []int{63, 64, 65, 255, 256, 257}
	truncate(lens[nd.Choose("n", len(lens))], 1)
}

func truncate(n, slack int) {
	back := nd.Bytes("data", n+slack)
	orig := h.Clone(back)
	in := back[:n]
	out := util.TruncateV2(in)
	nd.Assert(nd.EqBytes(back, orig), "the input is not modified")
	k := len(out)
	nd.Assert(k <= n, "the result is no longer than the input")
	nd.Assert(nd.EqBytes(out, orig[:k]), "the result is a prefix of the input")
	if n == 0 {
		nd.Assert(k == 0, "nothing comes of nothing")
		nd.Cover("empty")
		return
	}
	nd.Assert(k >= 1, "the first byte stays")
	nd.Assert(nd.SameMem(out, back), "the result is not a copy")
	if k > 1 {
		nd.Assert(orig[k-1] != 0, "the last byte kept is not zero")
		nd.Cover("trimmed")
	}
	for i := k; i < n; i++ {
		nd.Assert(orig[i] == 0, "only zeros are cut off")
	}
	nd.Cover("checked")
}

// CStr tries every slice up to n bytes.
func CStr() {
	n := nd.Choose("n", nd.Param("n", 40)+1)
	cstr(n)
}

// CStrLong tries long slices.
func CStrLong() {
	lens := []int{63, 64, 65, 255, 256, 257}
	cstr(lens[nd.Choose("n", len(lens))])
}

func cstr(n int) {
	back := nd.Bytes("data", n+2)
	orig := h.Clone(back)
	k := util.CStrLen(back[:n])
	nd.Assert(nd.EqBytes(back, orig), "the input is not modified")
	nd.Assert(k >= 0 && k <= n, "the length is within the slice")
	for i := 0; i < k; i++ {
		nd.Assert(orig[i] != 0, "no NUL comes before the end")
	}
	if k < n {
		nd.Assert(orig[k] == 0, "the string ends at a NUL")
		nd.Cover("terminated")
	} else {
		nd.Cover("whole")
	}
}
