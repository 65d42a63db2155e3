package main

// Stats counts what a worker did.
type Stats struct {
	Ops     map[string]int
	Faults  map[string]int
	Checks  map[string]int
	MaxRat  map[string]float64 // largest observed error / predicted bound
	Skipped map[string]int
	Sites   map[string]int // where simulated crashes and preemptions hit the code under test
	Kinds   map[string]int // kinds of runs
	Other   map[string]int // runs that met a breach of another property and went no further
	SimMs   float64        // simulated time
	Yields  int64
	Switch  int64
}

var stats = newStats()

func newStats() *Stats {
	return &Stats{Ops: map[string]int{}, Faults: map[string]int{}, Checks: map[string]int{}, MaxRat: map[string]float64{}, Skipped: map[string]int{},
		Sites: map[string]int{}, Kinds: map[string]int{}, Other: map[string]int{}}
}

func (s *Stats) op(k string)    { s.Ops[k]++ }
func (s *Stats) fault(k string) { s.Faults[k]++ }
func (s *Stats) check(k string) { s.Checks[k]++ }
func (s *Stats) skip(k string)  { s.Skipped[k]++ }
func (s *Stats) rat(k string, v float64) {
	if v > s.MaxRat[k] {
		s.MaxRat[k] = v
	}
}

func (s *Stats) merge(o *Stats) {
	add := func(a, b map[string]int) {
		for k, v := range b {
			a[k] += v
		}
	}
	add(s.Ops, o.Ops)
	add(s.Faults, o.Faults)
	add(s.Checks, o.Checks)
	add(s.Skipped, o.Skipped)
	add(s.Sites, o.Sites)
	add(s.Kinds, o.Kinds)
	add(s.Other, o.Other)
	s.SimMs += o.SimMs
	s.Yields += o.Yields
	s.Switch += o.Switch
	for k, v := range o.MaxRat {
		s.rat(k, v)
	}
}

func total(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}
