// Package smrand2 replaces math/rand/v2 in instrumented code: the top-level functions draw from the simulator.
package smrand2

import (
	mrand "math/rand/v2"

	"verifsim/simrt"
)

type (
	Rand    = mrand.Rand
	Source  = mrand.Source
	Zipf    = mrand.Zipf
	PCG     = mrand.PCG
	ChaCha8 = mrand.ChaCha8
)

func New(s Source) *Rand                               { return mrand.New(s) }
func NewPCG(a, b uint64) *PCG                          { return mrand.NewPCG(a, b) }
func NewChaCha8(seed [32]byte) *ChaCha8                { return mrand.NewChaCha8(seed) }
func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return mrand.NewZipf(r, s, v, imax) }
func g() *Rand {
	v := uint64(7)
	if simrt.OrderRand != nil {
		v = simrt.OrderRand()
	}
	return mrand.New(mrand.NewPCG(v, 1))
}

type intType interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

func N[Int intType](n Int) Int {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return Int(g().Uint64N(uint64(n)))
}
func Int() int                           { return g().Int() }
func Int32() int32                       { return g().Int32() }
func Int32N(n int32) int32               { return g().Int32N(n) }
func Int64() int64                       { return g().Int64() }
func Int64N(n int64) int64               { return g().Int64N(n) }
func IntN(n int) int                     { return g().IntN(n) }
func Uint() uint                         { return g().Uint() }
func Uint32() uint32                     { return g().Uint32() }
func Uint32N(n uint32) uint32            { return g().Uint32N(n) }
func Uint64() uint64                     { return g().Uint64() }
func Uint64N(n uint64) uint64            { return g().Uint64N(n) }
func UintN(n uint) uint                  { return g().UintN(n) }
func Float64() float64                   { return g().Float64() }
func Float32() float32                   { return g().Float32() }
func NormFloat64() float64               { return g().NormFloat64() }
func ExpFloat64() float64                { return g().ExpFloat64() }
func Perm(n int) []int                   { return g().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g().Shuffle(n, swap) }
