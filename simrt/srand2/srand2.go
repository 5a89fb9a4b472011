// Package srand2 stands in for math/rand/v2.
package srand2

import (
	"math/rand/v2"

	"simrt/sim"
)

type (
	Rand   = rand.Rand
	Source = rand.Source
	PCG    = rand.PCG
)

func New(s Source) *Rand              { return rand.New(s) }
func NewPCG(a, b uint64) *PCG         { return rand.NewPCG(a, b) }
func Int() int                        { return sim.Rand().Int() }
func IntN(n int) int                  { return sim.Rand().Intn(n) }
func Int32N(n int32) int32            { return sim.Rand().Int31n(n) }
func Int64N(n int64) int64            { return sim.Rand().Int63n(n) }
func Int64() int64                    { return sim.Rand().Int63() }
func Int32() int32                    { return sim.Rand().Int31() }
func Uint32() uint32                  { return sim.Rand().Uint32() }
func Uint64() uint64                  { return sim.Rand().Uint64() }
func Uint32N(n uint32) uint32         { return uint32(sim.Rand().Int63n(int64(n))) }
func Uint64N(n uint64) uint64         { return sim.Rand().Uint64() % n }
func Float64() float64                { return sim.Rand().Float64() }
func Float32() float32                { return sim.Rand().Float32() }
func Perm(n int) []int                { return sim.Rand().Perm(n) }
func Shuffle(n int, f func(i, j int)) { sim.Rand().Shuffle(n, f) }
