// Package srand stands in for package math/rand: the top-level functions draw
// from the run's tape.
package srand

import "github.com/childe/healer/zz_sim/sim"

func draw(n int) int { return sim.Draw(sim.StreamApp, n) }

func Seed(int64) {}
func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return draw(n)
}
func Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return int32(draw(int(n)))
}
func Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return int64(draw(int(n)))
}
func Int() int         { return draw(1<<62 - 1) }
func Int31() int32     { return int32(draw(1<<31 - 1)) }
func Int63() int64     { return int64(draw(1<<62 - 1)) }
func Uint32() uint32   { return uint32(draw(1 << 32)) }
func Uint64() uint64   { return uint64(draw(1<<32))<<32 | uint64(draw(1<<32)) }
func Float64() float64 { return float64(draw(1<<53)) / (1 << 53) }
func Float32() float32 { return float32(draw(1<<24)) / (1 << 24) }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, i-draw(i+1))
	}
}
func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(draw(256))
	}
	return len(p), nil
}
