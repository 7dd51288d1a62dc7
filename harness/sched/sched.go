//go:build go1.21

// Package sched delays goroutines at chosen points when a counterexample is replayed natively.
package sched

import (
	"os"
	"strconv"
	"sync"
	"time"
)

var (
	mu    sync.Mutex
	seed  uint64
	set   bool
	wants = map[string]int{}
	seen  = map[string]int{}
)

// Delay asks for a long delay at the n-th passage of a point.
func Delay(point string) {
	mu.Lock()
	wants[point]++
	mu.Unlock()
}

func rnd() uint64 {
	if !set {
		set = true
		n, _ := strconv.ParseUint(os.Getenv("ND_SEED"), 10, 64)
		seed = n*0x9e3779b97f4a7c15 + 88172645463325252
	}
	seed ^= seed << 13
	seed ^= seed >> 7
	seed ^= seed << 17
	return seed
}

// P is a point in the code under test.
func P(point string) {
	mu.Lock()
	d := time.Duration(0)
	n := seen[point]
	seen[point] = n + 1
	r := rnd()
	if k := wants[point]; k > 0 {
		// the recorded preemption points are delayed most of the time
		if r%4 != 0 {
			d = time.Duration(5+r>>8%3*10) * time.Millisecond
		}
	} else if n < 200 {
		switch r >> 8 % 10 {
		case 0:
			d = time.Duration(r>>16%4000) * time.Microsecond
		case 1:
			d = time.Duration(r>>16%400) * time.Microsecond
		}
	}
	mu.Unlock()
	if d > 0 {
		time.Sleep(d)
	}
}
