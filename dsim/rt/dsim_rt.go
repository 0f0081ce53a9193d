// Simulator extension of the Go runtime. This file is added to package
// runtime by the build overlay (see dsim/gen); it is not part of any shipped
// binary. It owns every source of scheduling and randomness nondeterminism.

package runtime

import (
	_ "unsafe"
)

// Scheduling policies.
const (
	dsimFIFO   = 0 // plain FIFO
	dsimRandom = 1 // uniform choice among the runnable goroutines
	dsimPrio   = 2 // random priorities with random change points (PCT like)
)

const dsimMaxNodes = 64

// No run of a sound system needs anywhere near this many scheduling steps.
const dsimMaxPicks = 3000000

var dsim struct {
	on       bool
	policy   int32
	schedRng uint64 // scheduling decisions
	userRng  uint64 // runtime.rand: map seeds, map iteration, math/rand
	cheapRng uint64 // runtime.cheaprand: select order and friends
	yieldRng uint64 // preemption points
	mean     uint64 // mean number of preemption points between preemptions (0: never)
	budget   int64
	stallPer uint64 // 1 in stallPer preemptions becomes a stall
	stallMax int64  // longest stall in ns
	change   uint64 // priority change: 1 in change decisions

	spins    uint32 // select statements since the last scheduling step

	hash     uint64 // running hash over the scheduling decisions
	picks    uint64 // scheduling steps
	choices  uint64 // scheduling steps with more than one candidate
	yields   uint64 // preemptions taken
	stalls   uint64 // stalls injected
	maxq     uint64
	dropped  uint64 // goroutines of crashed nodes never run again
	killed   [dsimMaxNodes]bool
	clock    [dsimMaxNodes]int64 // what the wall clock of a node is ahead by, in ns
	killNode uint32 // node that dies after killIn more preemption points
	killIn   int64
}

//go:nosplit
func dsimNext(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func dsimMix(x uint64) {
	h := dsim.hash ^ x
	h *= 0x100000001b3
	h ^= h >> 29
	dsim.hash = h
}

// dsimStart switches the process into simulation mode.
//
//go:linkname dsimStart
func dsimStart(seed uint64, policy int32, mean uint64, stallPer uint64, stallMax int64, change uint64) {
	s := seed
	dsim.schedRng = dsimNext(&s)
	dsim.userRng = dsimNext(&s)
	dsim.cheapRng = dsimNext(&s)
	dsim.yieldRng = dsimNext(&s)
	dsim.policy = policy
	dsim.mean = mean
	dsim.stallPer = stallPer
	dsim.stallMax = stallMax
	dsim.change = change
	dsim.hash = 0xcbf29ce484222325
	dsim.picks, dsim.choices, dsim.yields, dsim.stalls, dsim.maxq, dsim.dropped = 0, 0, 0, 0, 0, 0
	dsimBudget()
	dsim.on = true
}

// dsimQuiet turns preemptions and stalls off (the fault-free tail of a run).
//
//go:linkname dsimQuiet
func dsimQuiet() {
	dsim.mean = 0
}

//go:linkname dsimTune
func dsimTune(mean uint64, stallPer uint64, stallMax int64) {
	dsim.mean, dsim.stallPer, dsim.stallMax = mean, stallPer, stallMax
	dsimBudget()
}

//go:linkname dsimStats
func dsimStats() (hash, picks, choices, yields, stalls, maxq, dropped uint64) {
	return dsim.hash, dsim.picks, dsim.choices, dsim.yields, dsim.stalls, dsim.maxq, dsim.dropped
}

//go:linkname dsimSetNode
func dsimSetNode(n uint32) {
	getg().dsimNode = n
}

//go:linkname dsimNode
func dsimNode() uint32 {
	return getg().dsimNode
}

// dsimKill makes the scheduler never run a goroutine of node n again.
//
//go:linkname dsimKill
func dsimKill(n uint32) {
	if n > 0 && n < dsimMaxNodes {
		dsim.killed[n] = true
	}
}

// dsimKillAfter makes node n die at its k-th preemption point from now.
//
//go:linkname dsimKillAfter
func dsimKillAfter(n uint32, k int64) {
	dsim.killNode, dsim.killIn = n, k
}

//go:linkname dsimKilled
func dsimKilled(n uint32) bool {
	return n > 0 && n < dsimMaxNodes && dsim.killed[n]
}

// dsimClock sets the wall clock of node n ahead of the others by off ns.
//
//go:linkname dsimClock
func dsimClock(n uint32, off int64) {
	if n > 0 && n < dsimMaxNodes {
		dsim.clock[n] = off
	}
}

//go:nosplit
func dsimWall() int64 {
	n := getg().dsimNode
	if n >= dsimMaxNodes {
		n = 0
	}
	return faketime + dsim.clock[n]
}

//go:linkname dsimRand
func dsimRand() uint64 {
	return dsimNext(&dsim.userRng)
}

func dsimBudget() {
	if dsim.mean == 0 {
		dsim.budget = 1 << 62
		return
	}
	// uniform in [1, 2*mean]
	dsim.budget = int64(dsimNext(&dsim.yieldRng)%(2*dsim.mean)) + 1
}

// dsimYield is a preemption point. It returns the number of nanoseconds the
// caller must stall for (0: none).
//
//go:linkname dsimYield
func dsimYield() int64 {
	if dsim.killNode != 0 && getg().dsimNode == dsim.killNode {
		dsim.killIn--
		if dsim.killIn <= 0 {
			dsimKill(dsim.killNode)
			dsim.killNode = 0
			mcall(gosched_m)
		}
	}
	dsim.budget--
	if dsim.budget > 0 || !dsim.on {
		return 0
	}
	dsimBudget()
	if dsim.mean == 0 {
		return 0
	}
	dsim.yields++
	if dsim.stallPer != 0 && dsim.stallMax > 0 && dsimNext(&dsim.yieldRng)%dsim.stallPer == 0 {
		dsim.stalls++
		// log-uniform-ish: pick a magnitude first
		max := uint64(dsim.stallMax)
		sh := dsimNext(&dsim.yieldRng) % 12
		max >>= sh
		if max == 0 {
			max = 1
		}
		return int64(dsimNext(&dsim.yieldRng)%max) + 1
	}
	mcall(gosched_m)
	return 0
}

// dsimSpin is called by every select statement: a goroutine that spins on ready
// channels must not keep the only processor for itself.
func dsimSpin() {
	dsim.spins++
	if dsim.spins > 5000 {
		gp := getg()
		if gp == gp.m.g0 || gp.m.locks != 0 {
			return
		}
		dsim.spins = 0
		gp.dsimPrio = ^uint32(0)
		if dsim.on {
			// let time pass: what it waits for may be a sleeper
			timeSleep(100000)
			return
		}
		mcall(gosched_m)
	}
}

// dsimPick selects the next goroutine. Runs on g0 with the P held.
func dsimPick(pp *p) *g {
	if sched.runqsize != 0 {
		lock(&sched.lock)
		for sched.runqsize > 0 && pp.runqtail-pp.runqhead < uint32(len(pp.runq)) {
			gp := sched.runq.pop()
			sched.runqsize--
			pp.runq[pp.runqtail%uint32(len(pp.runq))].set(gp)
			pp.runqtail++
		}
		unlock(&sched.lock)
	}
again:
	h, t := pp.runqhead, pp.runqtail
	n := t - h
	if n == 0 {
		return nil
	}
	if uint64(n) > dsim.maxq {
		dsim.maxq = uint64(n)
	}
	L := uint32(len(pp.runq))
	pick := uint32(0)
	if n > 1 {
		switch dsim.policy {
		case dsimRandom:
			pick = uint32(dsimNext(&dsim.schedRng) % uint64(n))
		case dsimPrio:
			if dsim.change != 0 && dsimNext(&dsim.schedRng)%dsim.change == 0 {
				i := uint32(dsimNext(&dsim.schedRng) % uint64(n))
				pp.runq[(h+i)%L].ptr().dsimPrio = uint32(dsimNext(&dsim.schedRng))
			}
			best := ^uint32(0)
			for i := uint32(0); i < n; i++ {
				pr := pp.runq[(h+i)%L].ptr().dsimPrio
				if pr < best {
					best, pick = pr, i
				}
			}
		}
	}
	gp := pp.runq[(h+pick)%L].ptr()
	// close the gap, keeping the order of the others
	for i := pick; i > 0; i-- {
		pp.runq[(h+i)%L] = pp.runq[(h+i-1)%L]
	}
	pp.runqhead = h + 1
	if gp.dsimNode != 0 && gp.dsimNode < dsimMaxNodes && dsim.killed[gp.dsimNode] {
		dsim.dropped++
		gp.waitreason = waitReasonZero
		casgstatus(gp, _Grunnable, _Gwaiting)
		goto again
	}
	dsim.spins = 0
	dsim.picks++
	if dsim.picks > dsimMaxPicks {
		throw("dsim: livelock: no end to the scheduling steps")
	}
	if n > 1 {
		dsim.choices++
		dsimMix(uint64(pick)<<32 | uint64(n))
	}
	dsimMix(uint64(gp.goid))
	return gp
}
