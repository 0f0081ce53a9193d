// Package dsimhook gives the simulated program its preemption points. It
// exists only in the simulator build.
package dsimhook

import (
	"time"
	_ "unsafe"
)

//go:linkname dsimYield runtime.dsimYield
func dsimYield() int64

// Y is a preemption point: the simulator may switch to another goroutine or
// stall this one here.
func Y() {
	if d := dsimYield(); d > 0 {
		time.Sleep(time.Duration(d))
	}
}
