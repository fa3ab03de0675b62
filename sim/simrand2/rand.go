// Package simrand2 seeds math/rand/v2's global functions from the run.
package simrand2

import (
	"math/rand/v2"

	"recengine/internal/zzsim/rt"
)

func Int() int                        { return int(rt.Random() >> 1) }
func IntN(n int) int                  { return int(rt.Random()>>1) % n }
func Int64() int64                    { return int64(rt.Random() >> 1) }
func Int64N(n int64) int64            { return int64(rt.Random()>>1) % n }
func Int32() int32                    { return int32(rt.Random() >> 33) }
func Int32N(n int32) int32            { return int32(rt.Random()>>33) % n }
func Uint32() uint32                  { return uint32(rt.Random() >> 32) }
func Uint32N(n uint32) uint32         { return uint32(rt.Random()>>32) % n }
func Uint64() uint64                  { return rt.Random() }
func Uint64N(n uint64) uint64         { return rt.Random() % n }
func UintN(n uint) uint               { return uint(rt.Random()) % n }
func Float64() float64                { return float64(rt.Random()>>11) / (1 << 53) }
func Float32() float32                { return float32(rt.Random()>>40) / (1 << 24) }
func src() *rand.Rand                 { return rand.New(rand.NewPCG(rt.Random(), rt.Random())) }
func Perm(n int) []int                { return src().Perm(n) }
func Shuffle(n int, f func(i, j int)) { src().Shuffle(n, f) }
func NormFloat64() float64            { return src().NormFloat64() }
func ExpFloat64() float64             { return src().ExpFloat64() }
func N[T interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n T) T {
	return T(rt.Random() % uint64(n))
}
