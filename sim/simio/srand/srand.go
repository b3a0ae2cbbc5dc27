// Package srand replaces math/rand's global generator by a seeded one.
package srand

var s uint64

// Seed restarts the generator.
func SimSeed(x uint64) { s = x }

func Uint64() uint64 {
	s += 0x9e3779b97f4a7c15
	z := s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}
func Uint32() uint32       { return uint32(Uint64()) }
func Int63() int64         { return int64(Uint64() >> 1) }
func Int() int             { return int(Uint64() >> 1) }
func Intn(n int) int       { return int(Uint64() % uint64(n)) }
func Int63n(n int64) int64 { return int64(Uint64() % uint64(n)) }
func Float64() float64     { return float64(Uint64()>>11) / (1 << 53) }
