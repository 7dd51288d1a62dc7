//go:build go1.21

package c22

import (
	"context"
	"io"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// receive reads a stream to its end and uses everything it delivers.
func receive(data []byte, d mavlink2.Dialect, invalid bool) int {
	p := &st.Pipe{Chunks: [][]byte{data}, Err: io.EOF}
	ds := mavlink2.Dialects{d}
	s := mavlink2.NewFrameStream(p, make(chan mavlink2.Frame), ds, invalid)
	go s.ReadContext(context.Background())
	n := 0
	for f := range s.Read() {
		use(f)
		_ = ds.Validate(f)
		msg, err := ds.GetMessage(f)
		nd.Assert(err != nil || msg != nil, "decoding succeeds or returns an error")
		if msg != nil {
			read(msg)
		}
		n++
	}
	return n
}

// Header reads streams that begin with any header, announcing any length, and go on for any number of bytes.
func Header() {
	total := []int{3, 9, 21, 140, 280, 300, 559, 700}[nd.Choose("total", 8)]
	data := nd.Bytes("data", total)
	nd.Assume(nd.Or(data[0] == 0xfe, data[0] == 0xfd))
	st.Plain(data[1:])
	step := nd.Param("step", 17)
	l := nd.Choose("length", 256/step+2) * step
	if l > 255 {
		l = 255
	}
	nd.Assume(l != 253 && l != 254 || step > 1)
	data[1] = byte(l)
	if n := receive(data, unknowing{}, nd.Choose("invalid", 2) == 1); n > 0 {
		nd.Cover("a frame")
	}
}

// Starts reads streams that consist of start bytes and arbitrary small bytes only, so that headers overlap.
func Starts() {
	n := nd.Param("n", 4)
	data := make([]byte, n+nd.Param("rest", 12))
	for i := 0; i < n; i++ {
		switch nd.Choose("byte", 3) {
		case 0:
			data[i] = 0xfe
		case 1:
			data[i] = 0xfd
		case 2:
			data[i] = nd.U8("other")
			st.Plain(data[i : i+1])
		}
	}
	for i := n; i < len(data); i++ {
		data[i] = nd.U8("rest")
		st.Plain(data[i : i+1])
	}
	// ids that no dialect knows, so that the contents of the checksums do not matter
	if receive(data, unknowing{}, nd.Choose("invalid", 2) == 1) > 1 {
		nd.Cover("frames")
	}
}

type unknowing struct{}

func (unknowing) GetMeta(id uint32) (mavlink2.MessageMeta, error) {
	return mavlink2.MessageMeta{}, mavlink2.ErrUnknownMessage
}

func (unknowing) GetMessage(f mavlink2.Frame) (mavlink2.Message, error) {
	return nil, mavlink2.ErrUnknownMessage
}
