//go:build go1.21

package c29

import (
	"context"
	"time"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

// Slow measures how long either direction takes while the other one is held up for an hour.
func Slow() {
	g := newGate()
	ch := make(chan mavlink2.Frame, nd.Choose("room", 2))
	s := stream(g, ch)
	done := make(chan bool, 2)
	go func() { s.ReadContext(context.Background()); done <- true }()
	go func() { s.WriteContext(context.Background()); done <- true }()
	time.Sleep(st.Pauses[nd.Choose("before", len(st.Pauses))])
	if nd.Choose("direction", 2) == 1 {
		// nobody takes what is received for an hour
		for i := 0; i < 8; i++ {
			g.let <- struct{}{}
		}
		var in []byte
		n := byte([]int{2, 90}[nd.Choose("waiting", 2)])
		for i := byte(1); i <= n; i++ {
			in = append(in, st.Valid1(i)...)
		}
		if nd.Choose("pieces", 2) == 1 {
			g.in <- in[:9]
			in = in[9:]
		}
		g.in <- in
		for i := byte(0); i < 3; i++ {
			start := time.Now()
			ch <- mavlink2.FrameV1(st.Valid1(10 + i))
			nd.Assert(nd.EqBytes(<-g.wrote, st.Valid1(10+i)), "a frame is written although received ones wait")
			nd.Assert(time.Since(start) == 0, "writing is not held up")
			time.Sleep(30 * time.Minute)
		}
		for i := byte(1); i <= n; i++ {
			start := time.Now()
			f, ok := <-s.Read()
			nd.Assert(ok && nd.EqBytes(f.Bytes(), st.Valid1(i)), "what was received waits for its consumer")
			nd.Assert(time.Since(start) == 0, "it waits at the channel")
		}
		nd.Cover("slow consumer")
	} else {
		// a write takes an hour
		ch <- mavlink2.FrameV1(st.Valid1(10))
		<-g.began
		for i := byte(0); i < 3; i++ {
			start := time.Now()
			g.in <- st.Valid1(i)
			f, ok := <-s.Read()
			nd.Assert(ok && nd.EqBytes(f.Bytes(), st.Valid1(i)), "a frame is read although a write takes its time")
			nd.Assert(time.Since(start) == 0, "reading is not held up")
			time.Sleep(30 * time.Minute)
		}
		g.let <- struct{}{}
		nd.Assert(nd.EqBytes(<-g.wrote, st.Valid1(10)), "a write takes the time it takes")
		nd.Cover("slow write")
	}
	ask(s)
	s.Close()
	<-done
	<-done
}
