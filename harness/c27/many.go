//go:build go1.21

package c27

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/h"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// Many relays a long run of frames.
func Many() {
	k := nd.Param("k", 300)
	ds := mavlink2.Dialects{&st.Dialect{Min: 0, Max: 255}}
	var fs []mavlink2.Frame
	var raw [][]byte
	for i := 0; i < k; i++ {
		f := st.Nth(i, st.Length(i))
		fs = append(fs, f)
		raw = append(raw, h.Clone(f.Bytes()))
	}
	how := nd.Choose("how", 4)
	for hop := 0; hop < 2; hop++ {
		fs = receive(ds, carry(send(ds, fs), how), hop == 1)
		nd.Assert(len(fs) == k, "exactly the frames sent arrive")
		for i := range fs {
			nd.Assert(nd.EqBytes(fs[i].Bytes(), raw[i]), "frames arrive as they were sent, in order, over every hop")
		}
	}
	nd.Cover("many frames")
}
