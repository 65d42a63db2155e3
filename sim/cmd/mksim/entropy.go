package main

import (
	crand "crypto/rand"
	"mksim/simhook"
	"sync"
)

// Entropy stands behind crypto/rand.Reader, the only source of randomness of the library.
type Entropy struct {
	r     *R
	short int // fault: deliver at most this many bytes per read (0: off)
	reads int
	bytes int
}

var (
	entMu  sync.Mutex
	curEnt = &Entropy{r: NewR(1)}
)

type entReader struct{}

func (entReader) Read(b []byte) (int, error) {
	simhook.Off()
	defer simhook.On()
	entMu.Lock()
	defer entMu.Unlock()
	e := curEnt
	n := len(b)
	if e.short > 0 && n > e.short {
		n = e.short
		if e.reads == 0 {
			stats.fault("entropy-short-reads")
		}
	}
	for i := 0; i < n; i++ {
		b[i] = byte(e.r.U64() >> 24)
	}
	e.reads++
	e.bytes += n
	return n, nil
}

func init() { crand.Reader = entReader{} }

// withEntropy runs f with a fresh entropy stream.
func withEntropy(seed uint64, f func()) {
	old := curEnt
	curEnt = &Entropy{r: NewR(mixs(seed, 0xe17)), short: old.short}
	defer func() { curEnt = old }()
	f()
}
