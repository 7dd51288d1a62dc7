//go:build go1.21

package c19

import (
	"context"
	"errors"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/zzverif/nd"
	"github.com/botlink/go-mavlink2/zzverif/st"
)

type wrapped struct{ context.Context }

// Derived cancels either loop by way of contexts of every kind the standard library has.
func Derived() {
	why := errors.New("a cause")
	ctx, cancel := context.Background(), func() {}
	want := context.Canceled
	switch nd.Choose("kind", 5) {
	case 0:
		c, f := context.WithCancelCause(context.Background())
		ctx, cancel = c, func() { f(why) }
	case 1:
		c, f := context.WithCancelCause(context.Background())
		ctx, cancel = c, func() { f(nil) }
	case 2: // the parent is cancelled
		c, f := context.WithCancelCause(context.Background())
		d, g := context.WithCancel(c)
		_ = g
		ctx, cancel = wrapped{d}, func() { f(why) }
	case 3: // the child of a context of another kind is cancelled
		c, f := context.WithCancel(st.NewContext(errOwn))
		ctx, cancel = wrapped{c}, f
	case 4: // the parent has an error of its own
		p := st.NewContext(errOwn)
		c, f := context.WithCancel(p)
		_ = f
		ctx, cancel, want = c, p.Cancel, errOwn
	}
	l := st.NewLink(4)
	ch := make(chan mavlink2.Frame, 1)
	s := newStream(l, ch)
	go cancel()
	if nd.Choose("writer", 2) == 1 {
		if nd.Choose("frames", 2) == 1 {
			ch <- mavlink2.FrameV1(frame())
		}
		s.WriteContext(ctx)
	} else {
		l.In <- frame() // nobody consumes it
		s.ReadContext(ctx)
	}
	ended(s, l, want)
	nd.Cover("ended")
}
