// Package simrand seeds math/rand's global functions from the run.
package simrand

import (
	"math/rand"

	"recengine/internal/zzsim/rt"
)

func Int() int                        { return int(rt.Random() >> 1) }
func Intn(n int) int                  { return int(rt.Random()>>1) % n }
func Int63() int64                    { return int64(rt.Random() >> 1) }
func Int63n(n int64) int64            { return int64(rt.Random()>>1) % n }
func Int31() int32                    { return int32(rt.Random() >> 33) }
func Int31n(n int32) int32            { return int32(rt.Random()>>33) % n }
func Uint32() uint32                  { return uint32(rt.Random() >> 32) }
func Uint64() uint64                  { return rt.Random() }
func Float64() float64                { return float64(rt.Random()>>11) / (1 << 53) }
func Float32() float32                { return float32(rt.Random()>>40) / (1 << 24) }
func Seed(int64)                      {}
func src() *rand.Rand                 { return rand.New(rand.NewSource(int64(rt.Random()))) }
func Perm(n int) []int                { return src().Perm(n) }
func Shuffle(n int, f func(i, j int)) { src().Shuffle(n, f) }
func NormFloat64() float64            { return src().NormFloat64() }
func ExpFloat64() float64             { return src().ExpFloat64() }
func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(rt.Random() >> 17)
	}
	return len(p), nil
}
