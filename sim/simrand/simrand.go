// Package simrand stands in for package math/rand in instrumented copies of the code under test: what the top-level
// functions draw comes from the run's seed.
package simrand

import (
	"math/rand"
	"mksim/simhook"
)

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

// Uint64Of, when set, is the simulated source of the top-level functions.
var Uint64Of func() uint64

type src struct{}

func (src) Uint64() uint64 {
	if Uint64Of == nil {
		return rand.Uint64()
	}
	simhook.Off()
	defer simhook.On()
	return Uint64Of()
}
func (s src) Int63() int64 { return int64(s.Uint64() >> 1) }
func (src) Seed(int64)     {}

func g() *rand.Rand { return rand.New(src{}) }

func New(s Source) *Rand          { return rand.New(s) }
func NewSource(seed int64) Source { return rand.NewSource(seed) }
func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf {
	return rand.NewZipf(r, s, v, imax)
}
func Int() int                           { return g().Int() }
func Intn(n int) int                     { return g().Intn(n) }
func Int31() int32                       { return g().Int31() }
func Int31n(n int32) int32               { return g().Int31n(n) }
func Int63() int64                       { return g().Int63() }
func Int63n(n int64) int64               { return g().Int63n(n) }
func Uint32() uint32                     { return g().Uint32() }
func Uint64() uint64                     { return g().Uint64() }
func Float64() float64                   { return g().Float64() }
func Float32() float32                   { return g().Float32() }
func NormFloat64() float64               { return g().NormFloat64() }
func ExpFloat64() float64                { return g().ExpFloat64() }
func Perm(n int) []int                   { return g().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g().Shuffle(n, swap) }
func Read(p []byte) (int, error)         { return g().Read(p) }
func Seed(int64)                         {}
