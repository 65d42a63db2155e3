package main

import "math"

// R is the simulator's seeded generator (splitmix64). Every choice of a run comes from it.
type R struct{ s uint64 }

func NewR(seed uint64) *R { return &R{seed} }

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func mixs(xs ...uint64) uint64 {
	h := uint64(0x51ed270b)
	for _, x := range xs {
		h = mix(h ^ x)
	}
	return h
}

func strh(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return mix(h)
}

func (r *R) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Seed returns a 53-bit seed (exact in JSON numbers).
func (r *R) Seed() uint64 { return r.U64() >> 11 }

func (r *R) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *R) Range(a, b int) int      { return a + r.N(b-a+1) }
func (r *R) F() float64              { return float64(r.U64()>>11) / (1 << 53) }
func (r *R) P(p float64) bool        { return r.F() < p }
func (r *R) Sym() float64            { return 2*r.F() - 1 }
func (r *R) Fork(label uint64) *R    { return NewR(mixs(r.s, label)) }
func (r *R) LogU(lo, hi float64) int { return int(math.Exp2(lo + (hi-lo)*r.F())) }

func (r *R) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.N(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

func pick[T any](r *R, xs []T) T { return xs[r.N(len(xs))] }

// W is a weighted choice.
type W struct {
	n string
	w int
}

func wpick(r *R, ws []W) string {
	t := 0
	for _, w := range ws {
		t += w.w
	}
	k := r.N(t)
	for _, w := range ws {
		if k < w.w {
			return w.n
		}
		k -= w.w
	}
	return ws[0].n
}
