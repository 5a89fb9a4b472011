// Package scrand stands in for crypto/rand.
package scrand

import (
	"io"
	"math/big"

	"simrt/sim"
)

type reader struct{}

func (reader) Read(p []byte) (int, error) { return sim.Rand().Read(p) }

var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return sim.Rand().Read(b) }

func Int(_ io.Reader, max *big.Int) (*big.Int, error) {
	return new(big.Int).Rand(sim.Rand(), max), nil
}
