package sess

import "math/bits"

// Rng is a small deterministic generator (xoshiro256** seeded by splitmix64).
type Rng struct{ s [4]uint64 }

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// NewRng derives a generator from a list of integers.
func NewRng(seed ...uint64) *Rng {
	var x uint64 = 0x243f6a8885a308d3
	for _, s := range seed {
		x ^= s
		x = splitmix(&x)
	}
	r := &Rng{}
	for i := range r.s {
		r.s[i] = splitmix(&x)
	}
	return r
}

// Hash64 hashes a string into a seed.
func Hash64(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func (r *Rng) U64() uint64 {
	s := &r.s
	res := bits.RotateLeft64(s[1]*5, 7) * 9
	t := s[1] << 17
	s[2] ^= s[0]
	s[3] ^= s[1]
	s[1] ^= s[2]
	s[0] ^= s[3]
	s[2] ^= t
	s[3] = bits.RotateLeft64(s[3], 45)
	return res
}

func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }
func (r *Rng) Bool() bool           { return r.U64()&1 == 1 }
func (r *Rng) Pct(p int) bool       { return r.Intn(100) < p }
func (r *Rng) F() float64           { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rng) Bits(n uint) uint64 {
	if n == 0 {
		return 0
	}
	return r.U64() >> (64 - n)
}
