// Package smrand replaces math/rand in instrumented code: the top-level functions draw from the simulator.
package smrand

import (
	mrand "math/rand"

	"verifsim/simrt"
)

type (
	Rand     = mrand.Rand
	Source   = mrand.Source
	Source64 = mrand.Source64
	Zipf     = mrand.Zipf
)

func New(s Source) *Rand          { return mrand.New(s) }
func NewSource(seed int64) Source { return mrand.NewSource(seed) }

func g() *Rand {
	v := int64(7)
	if simrt.OrderRand != nil {
		v = int64(simrt.OrderRand() >> 1)
	}
	return mrand.New(mrand.NewSource(v))
}

func Seed(int64)                         {}
func Int63() int64                       { return g().Int63() }
func Uint32() uint32                     { return g().Uint32() }
func Uint64() uint64                     { return g().Uint64() }
func Int31() int32                       { return g().Int31() }
func Int() int                           { return g().Int() }
func Int63n(n int64) int64               { return g().Int63n(n) }
func Int31n(n int32) int32               { return g().Int31n(n) }
func Intn(n int) int                     { return g().Intn(n) }
func Float64() float64                   { return g().Float64() }
func Float32() float32                   { return g().Float32() }
func Perm(n int) []int                   { return g().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g().Shuffle(n, swap) }
func Read(p []byte) (int, error)         { return g().Read(p) }
func NormFloat64() float64               { return g().NormFloat64() }
func ExpFloat64() float64                { return g().ExpFloat64() }
