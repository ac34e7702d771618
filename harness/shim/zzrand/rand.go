// Package zzrand replaces math/rand for the code under check: every draw is a free value.
package zzrand

import "github.com/CAU-CPSS/logument/internal/zzvf"

// Draw decides how an integer draw below n is made; nil makes it any integer in range.
var Draw func(n int) int

// DrawFloat decides how a float draw is made; nil makes it any float in [0,1).
var DrawFloat func() float64

func init() {
	zzvf.OnReset(func() { Draw, DrawFloat = nil, nil })
}

func Float64() float64 {
	if DrawFloat != nil {
		return DrawFloat()
	}
	// the values math/rand gives: multiples of 2^-53 below 1
	return float64(zzvf.Int("rand", 0, 1<<53-1)) / (1 << 53)
}

func Float32() float32 {
	f := float32(Float64())
	zzvf.Assume(f < 1)
	return f
}

func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	if n == 1 {
		return 0
	}
	if Draw != nil {
		return Draw(n)
	}
	return zzvf.Int("randn", 0, n-1)
}

func Int63n(n int64) int64 { return int64(Intn(int(n))) }
func Int31n(n int32) int32 { return int32(Intn(int(n))) }
func Int() int             { return zzvf.Int("randi", 0, 1<<63-1) }
func Int63() int64         { return int64(Int()) }
func Int31() int32         { return int32(Intn(1 << 31)) }
func Uint32() uint32       { return uint32(Intn(1 << 32)) }
func Uint64() uint64       { return zzvf.Uint64("randu") }
func Seed(int64)           {}

func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}

func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, zzvf.Choose("shuffle", i+1))
	}
}
