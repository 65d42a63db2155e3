// Package simrand2 stands in for package math/rand/v2, as simrand does for math/rand.
package simrand2

import (
	"math/rand/v2"
	"mksim/simrand"
)

type (
	Rand    = rand.Rand
	Source  = rand.Source
	PCG     = rand.PCG
	ChaCha8 = rand.ChaCha8
	Zipf    = rand.Zipf
)

type src struct{}

func (src) Uint64() uint64 { return simrand.Uint64() }

func g() *rand.Rand { return rand.New(src{}) }

func New(s Source) *Rand                 { return rand.New(s) }
func NewPCG(a, b uint64) *PCG            { return rand.NewPCG(a, b) }
func NewChaCha8(seed [32]byte) *ChaCha8  { return rand.NewChaCha8(seed) }
func Int() int                           { return g().Int() }
func IntN(n int) int                     { return g().IntN(n) }
func Int32() int32                       { return g().Int32() }
func Int32N(n int32) int32               { return g().Int32N(n) }
func Int64() int64                       { return g().Int64() }
func Int64N(n int64) int64               { return g().Int64N(n) }
func Uint() uint                         { return g().Uint() }
func UintN(n uint) uint                  { return g().UintN(n) }
func Uint32() uint32                     { return g().Uint32() }
func Uint32N(n uint32) uint32            { return g().Uint32N(n) }
func Uint64() uint64                     { return g().Uint64() }
func Uint64N(n uint64) uint64            { return g().Uint64N(n) }
func Float64() float64                   { return g().Float64() }
func Float32() float32                   { return g().Float32() }
func NormFloat64() float64               { return g().NormFloat64() }
func ExpFloat64() float64                { return g().ExpFloat64() }
func Perm(n int) []int                   { return g().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g().Shuffle(n, swap) }
