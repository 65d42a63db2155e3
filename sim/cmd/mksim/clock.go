package main

import (
	"mksim/simrand"
	"mksim/simruntime"
	"mksim/simtime"
	"time"
)

// The present code asks neither the clock nor package math/rand nor the number of processors. Should a change do so, it
// gets these: a clock that may be coarse and jumps forward, draws from the run's seed, and a machine of any size.
var machine struct {
	r, draws *R
	now, res int64
	procs    int
}

func resetMachine(seed uint64) {
	m := &machine
	m.r, m.draws = NewR(mixs(seed, 0xc10c)), NewR(mixs(seed, 0xd1ce))
	m.now = int64(1_700_000_000+m.r.N(1<<28))*1e9 + int64(m.r.N(1e9))
	m.res = pick(m.r, []int64{1, 100, 1e3, 1e6, 1e7, 1e9})
	m.procs = pick(m.r, []int{1, 2, 3, 4, 6, 8, 16, 64})
}

func init() {
	simtime.Clock = func() int64 {
		m := &machine
		if m.r == nil {
			resetMachine(1)
		}
		stats.check("clock-read")
		m.now += int64(m.r.LogU(5, 22))
		if m.r.P(0.02) {
			m.now += int64(m.r.LogU(20, 43))
			stats.fault("clock-jump")
		}
		return m.now / m.res * m.res
	}
	simtime.Wait = func(d time.Duration) {
		if d > 0 {
			machine.now += int64(d)
		}
	}
	simrand.Uint64Of = func() uint64 {
		if machine.draws == nil {
			resetMachine(1)
		}
		stats.check("math-rand-draw")
		return machine.draws.U64()
	}
	simruntime.Procs = func() int {
		if machine.procs == 0 {
			resetMachine(1)
		}
		return machine.procs
	}
}
