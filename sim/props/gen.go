// Package props contains the simulated workloads and oracles, one per property.
package props

import (
	"math/big"
	"math/bits"
	"zkverif/ref"
	. "zkverif/sess"
)

func sparseMan(r *Rng, f ref.Fmt) uint64 {
	m := uint64(0)
	switch r.Intn(6) {
	case 0:
		m = 0
	case 1:
		m = f.ManMask()
	case 2:
		for i := r.Range(1, 3); i > 0; i-- {
			m |= 1 << uint(r.Intn(int(f.M)))
		}
	case 3: // run of ones at the top
		k := uint(r.Range(1, int(f.M)))
		m = f.ManMask() &^ (1<<k - 1)
	case 4: // run of ones at the bottom
		k := uint(r.Range(1, int(f.M)))
		m = 1<<k - 1
	case 5:
		m = r.Bits(f.M)
	}
	return m & f.ManMask()
}

func mk(f ref.Fmt, sign uint64, biased int64, man uint64) uint64 {
	if biased < 0 {
		biased = 0
	}
	if biased > int64(f.ExpMask()) {
		biased = int64(f.ExpMask())
	}
	return sign<<(f.E+f.M) | uint64(biased)<<f.M | man&f.ManMask()
}

// GenBits draws one encoded float.
func GenBits(r *Rng, f ref.Fmt) uint64 {
	s := r.U64() & 1
	switch r.Intn(14) {
	case 0, 1:
		sp := []uint64{0, f.Inf(), f.NaN(), f.Inf() | 1, f.Inf() | f.ManMask(), 1, 2, 3, f.ManMask(), f.ManMask() - 1, 1 << f.M, 1<<f.M | 1,
			f.Inf() - 1, f.Inf() - 2, f.FromVal(1), f.FromVal(2), f.FromVal(0.5), f.FromVal(1.5), f.FromVal(3), f.FromVal(1) - 1, f.FromVal(1) + 1, f.FromVal(2) - 1, 1 << (f.M - 1), 1<<(f.M-1) | 1}
		return sp[r.Intn(len(sp))] | s<<(f.E+f.M)
	case 2, 3: // subnormals of random length
		k := uint(r.Range(1, int(f.M)))
		return s<<(f.E+f.M) | r.Bits(k)
	case 4: // near the top
		return mk(f, s, int64(f.ExpMask())-1-int64(r.Intn(3)), sparseMan(r, f))
	case 5: // near the bottom
		return mk(f, s, int64(r.Intn(int(f.M)+4)), sparseMan(r, f))
	case 6, 7: // small integers and halves
		v := float64(r.Intn(1<<uint(r.Range(1, 20)))) / float64(int(1)<<uint(r.Intn(4)))
		return f.FromVal(v) | s<<(f.E+f.M)
	case 8, 9, 10: // around one, sparse mantissa
		return mk(f, s, f.Bias()+int64(r.Range(-int(f.M)-3, int(f.M)+3)), sparseMan(r, f))
	default:
		return r.Bits(f.Width())
	}
}

// GenPair draws two operands that are related in ways that matter for op.
func GenPair(r *Rng, f ref.Fmt, op string) (uint64, uint64) {
	x := GenBits(r, f)
	s := r.U64() & 1
	ex := int64(x >> f.M & f.ExpMask())
	if (op == "div" || op == "mul") && r.Intn(10) == 0 {
		return tiePair(r, f, op)
	}
	if (op == "div" || op == "mul") && r.Intn(10) == 0 {
		return hardPair(r, f, op)
	}
	switch r.Intn(9) {
	case 0, 1:
		return x, GenBits(r, f)
	case 2:
		return x, x ^ s<<(f.E+f.M)
	case 3: // a few ulps apart
		d := uint64(r.Intn(5))
		y := f.Abs(x)
		if r.Bool() {
			y += d
		} else if y >= d {
			y -= d
		}
		if y > f.Inf() {
			y = f.Inf()
		}
		return x, y | s<<(f.E+f.M)
	case 4, 5: // close exponents
		d := int64(r.Range(-int(f.M)-5, int(f.M)+5))
		if r.Bool() {
			d = int64(r.Range(-2, 2))
		}
		return x, mk(f, s, ex+d, sparseMan(r, f))
	case 6: // results around the subnormal/overflow boundary
		var t int64
		if r.Bool() {
			t = 1 - f.Bias() + int64(r.Range(-int(f.M)-4, 3))
		} else {
			t = f.Bias() + int64(r.Range(-2, 3))
		}
		xe := ex - f.Bias()
		ye := t - xe
		if op == "div" {
			ye = xe - t
		}
		if op == "add" || op == "sub" {
			ye = t
		}
		man := sparseMan(r, f)
		if r.Bool() {
			x = mk(f, x>>(f.E+f.M), ex, sparseMan(r, f))
		}
		return x, mk(f, s, ye+f.Bias(), man)
	case 7: // exact ties for multiplication: short odd significands
		a := r.Bits(uint(r.Range(1, int(f.M)/2+2)))
		b := r.Bits(uint(r.Range(1, int(f.M)/2+3)))
		xx := f.FromVal(float64(a | 1))
		yy := f.FromVal(float64(b | 1))
		return xx | s<<(f.E+f.M), yy
	default:
		return mk(f, x>>(f.E+f.M), f.Bias()+int64(r.Range(-3, 3)), sparseMan(r, f)), mk(f, s, f.Bias()+int64(r.Range(-3, 3)), sparseMan(r, f))
	}
}

// tiePair draws operands whose exact product or quotient lies on, or right
// next to, the midpoint of two adjacent numbers; mostly subnormal ones, as a
// quotient can only be a midpoint there.
func tiePair(r *Rng, f ref.Fmt, op string) (uint64, uint64) {
	s := r.U64()
	ka := uint(r.Range(1, int(f.M)-1))
	a := r.Bits(ka) | 1                              // the other operand's significand
	q := r.Bits(uint(r.Range(1, int(f.M-ka)+1))) | 1 // result in half units
	unit := 1 - f.Bias() - int64(f.M) - 1            // exponent of half the smallest subnormal
	if r.Pct(25) {
		unit += int64(r.Range(0, 3))
	}
	ye := int64(r.Range(-8, 8)) - int64(f.M)
	if r.Bool() {
		ye = int64(r.Range(int(2-f.Bias()), int(f.Bias())-int(f.M)-2))
	}
	enc := func(sig uint64, exp int64) uint64 { // sig * 2^exp
		n := int64(bits.Len64(sig)) - 1
		if sub := 1 - f.Bias() - int64(f.M); exp+n+f.Bias() < 1 && exp >= sub {
			return sig << uint(exp-sub)
		}
		return mk(f, 0, exp+n+f.Bias(), sig<<(f.M-uint(n))&f.ManMask())
	}
	var x, y uint64
	if op == "div" {
		// x / y = q * 2^unit
		xe := unit + ye
		for xe < unit+2 {
			xe++
			ye++
		}
		x, y = enc(q*a, xe), enc(a, ye)
	} else {
		x, y = enc(q, unit-ye), enc(a, ye)
		if unit-ye < 3-f.Bias() || unit-ye > f.Bias()-int64(f.M) {
			x, y = enc(q, unit/2), enc(a, unit-unit/2)
		}
	}
	if r.Pct(20) {
		x++
	}
	x |= s & 1 << (f.E + f.M)
	y |= s >> 1 & 1 << (f.E + f.M)
	return x, y
}

// hardPair draws normal operands whose exact product is a few units away from
// a number or midpoint, or whose division leaves a remainder next to zero, to
// half the divisor or to the divisor.
func hardPair(r *Rng, f ref.Fmt, op string) (uint64, uint64) {
	lo, hi := uint64(1)<<f.M, uint64(2)<<f.M
	small := func() int64 { return int64(r.Intn(9)) - 4 }
	man := func(m uint64) uint64 {
		e := f.Bias() + int64(r.Range(-4, 4))
		switch r.Intn(4) {
		case 0:
			e = f.Bias() + int64(r.Range(-int(f.Bias())/3, int(f.Bias())/3))
		case 1:
			e = f.Bias()/2 - int64(r.Intn(int(f.M)+4))
		}
		return mk(f, r.U64()&1, e, m&f.ManMask())
	}
	for try := 0; try < 20; try++ {
		y := lo | sparseMan(r, f) | 1
		if r.Bool() {
			y = lo | r.Bits(f.M) | 1
		}
		if op == "mul" {
			// x * y = c modulo 2^(M+1)
			c := uint64(small()) + uint64(r.Intn(2))<<f.M
			inv := y
			for i := 0; i < 6; i++ {
				inv *= 2 - y*inv
			}
			if x := c * inv & (hi - 1); x >= lo {
				return man(x), man(y)
			}
			continue
		}
		// x * 2^k = rem modulo y
		k := f.M + uint(r.Intn(4))
		rem := []int64{0, int64(y / 2), int64(y)}[r.Intn(3)] + small()
		Y := new(big.Int).SetUint64(y)
		v := new(big.Int).ModInverse(new(big.Int).Lsh(big.NewInt(1), k), Y)
		v.Mul(v, big.NewInt(rem))
		x := v.Mod(v, Y).Uint64()
		if x < lo {
			x += y
		}
		if x < hi {
			return man(x), man(y)
		}
	}
	return man(lo), man(lo)
}

// hardSqrt draws a number whose root is next to a number or midpoint.
func hardSqrt(r *Rng, f ref.Fmt) uint64 {
	lo, hi := uint64(1)<<f.M, uint64(2)<<f.M
	for try := 0; try < 40; try++ {
		// s^2 = c modulo 2^n, one bit more at a time
		n := f.M + uint(r.Intn(6)) - 1
		c := uint64(int64(r.Intn(9))-4)*8 + 1
		s := uint64(2*r.Intn(4) + 1)
		for i := uint(3); i < n; i++ {
			if (s*s-c)>>i&1 != 0 {
				s += 1 << (i - 1)
			}
		}
		s &= 1<<n - 1
		switch r.Intn(4) {
		case 0:
			s = 1<<n - s
		case 1:
			s ^= 1 << (n - 1)
		}
		S := new(big.Int).SetUint64(s)
		S.Mul(S, S).Sub(S, big.NewInt(int64(c)))
		if S.Sign() <= 0 {
			continue
		}
		S.Rsh(S, n)
		for S.BitLen() > int(f.M)+1 && S.Bit(0) == 0 {
			S.Rsh(S, 1)
		}
		if x := S.Uint64(); S.BitLen() <= int(f.M)+1 && x != 0 {
			for x < lo {
				x <<= 1
			}
			if x < hi {
				return mk(f, 0, f.Bias()+int64(r.Range(-20, 20)), x&f.ManMask())
			}
		}
	}
	return f.FromVal(2)
}
