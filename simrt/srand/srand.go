// Package srand stands in for math/rand: every draw comes from the run's seed.
package srand

import (
	"math/rand"

	"simrt/sim"
)

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

func New(s Source) *Rand                            { return rand.New(s) }
func NewSource(seed int64) Source                   { return rand.NewSource(seed) }
func Seed(int64)                                    {}
func Int() int                                      { return sim.Rand().Int() }
func Intn(n int) int                                { return sim.Rand().Intn(n) }
func Int31() int32                                  { return sim.Rand().Int31() }
func Int31n(n int32) int32                          { return sim.Rand().Int31n(n) }
func Int63() int64                                  { return sim.Rand().Int63() }
func Int63n(n int64) int64                          { return sim.Rand().Int63n(n) }
func Uint32() uint32                                { return sim.Rand().Uint32() }
func Uint64() uint64                                { return sim.Rand().Uint64() }
func Float64() float64                              { return sim.Rand().Float64() }
func Float32() float32                              { return sim.Rand().Float32() }
func ExpFloat64() float64                           { return sim.Rand().ExpFloat64() }
func NormFloat64() float64                          { return sim.Rand().NormFloat64() }
func Perm(n int) []int                              { return sim.Rand().Perm(n) }
func Shuffle(n int, f func(i, j int))               { sim.Rand().Shuffle(n, f) }
func Read(p []byte) (int, error)                    { return sim.Rand().Read(p) }
func NewZipf(r *Rand, s, v float64, m uint64) *Zipf { return rand.NewZipf(r, s, v, m) }
