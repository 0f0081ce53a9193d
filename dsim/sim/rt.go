package main

import (
	"context"
	"errors"
	"time"
	_ "unsafe"
)

//go:linkname dsimStart runtime.dsimStart
func dsimStart(seed uint64, policy int32, mean uint64, stallPer uint64, stallMax int64, change uint64)

//go:linkname dsimStats runtime.dsimStats
func dsimStats() (hash, picks, choices, yields, stalls, maxq, dropped uint64)

//go:linkname dsimQuiet runtime.dsimQuiet
func dsimQuiet()

//go:linkname dsimTune runtime.dsimTune
func dsimTune(mean uint64, stallPer uint64, stallMax int64)

//go:linkname dsimSetNode runtime.dsimSetNode
func dsimSetNode(n uint32)

//go:linkname dsimNode runtime.dsimNode
func dsimNode() uint32

//go:linkname dsimKill runtime.dsimKill
func dsimKill(n uint32)

//go:linkname dsimKillAfter runtime.dsimKillAfter
func dsimKillAfter(n uint32, k int64)

//go:linkname dsimKilled runtime.dsimKilled
func dsimKilled(n uint32) bool

//go:linkname dsimClock runtime.dsimClock
func dsimClock(n uint32, off int64)

// rng is the harness's own generator; it never touches the global one.
type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *rng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.next() % uint64(n))
}
func (r *rng) p(num, den int) bool { return r.n(den) < num }
func (r *rng) i64(n int64) int64 {
	if n <= 0 {
		return 0
	}
	return int64(r.next() % uint64(n))
}
func pick[T any](r *rng, xs []T) T { return xs[r.n(len(xs))] }

func newRng(seed uint64, tag string) *rng {
	h := uint64(0xcbf29ce484222325)
	for i := 0; i < len(tag); i++ {
		h ^= uint64(tag[i])
		h *= 0x100000001b3
	}
	r := &rng{s: seed ^ h}
	r.next()
	return r
}

var errReset = errors.New("read tcp 10.0.0.1:443: connection reset by peer")

// sleepCtx sleeps for d or until the context ends.
func sleepCtx(ctx context.Context, d time.Duration) error {
	if d <= 0 {
		return ctx.Err()
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
		return nil
	case <-ctx.Done():
		return ctx.Err()
	}
}

var t0 = time.Now()

// now is the simulated time since the start of the run.
func now() time.Duration { return time.Since(t0) }
