package main

import "math"

func mathPow(b, x float64) float64 { return math.Pow(b, x) }
