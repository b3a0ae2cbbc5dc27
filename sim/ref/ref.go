// Package ref holds the reference models the simulator checks against: IEEE-754
// arithmetic on encoded values and the canonical circuit representation of an
// encoded float. Nothing here uses code of the repository under test.
package ref

import (
	"math"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// Fmt is a binary floating-point format.
type Fmt struct {
	E, M uint
}

var F32 = Fmt{8, 23}
var F64 = Fmt{11, 52}

// ByBits is the format named 32, 64 or, for other formats, 100*E+M. The others
// have E <= 9 and M <= 24, so that float64 arithmetic followed by one rounding
// is exact for them.
func ByBits(n int) Fmt {
	switch n {
	case 32:
		return F32
	case 64:
		return F64
	}
	return Fmt{uint(n / 100), uint(n % 100)}
}

func (f Fmt) Width() uint     { return 1 + f.E + f.M }
func (f Fmt) Bias() int64     { return 1<<(f.E-1) - 1 }
func (f Fmt) ExpMask() uint64 { return 1<<f.E - 1 }
func (f Fmt) ManMask() uint64 { return 1<<f.M - 1 }
func (f Fmt) Inf() uint64     { return f.ExpMask() << f.M }
func (f Fmt) NaN() uint64     { return f.Inf() | 1<<(f.M-1) }
func (f Fmt) SignBit() uint64 { return 1 << (f.E + f.M) }
func (f Fmt) IsNaN(b uint64) bool {
	return b>>f.M&f.ExpMask() == f.ExpMask() && b&f.ManMask() != 0
}
func (f Fmt) IsInf(b uint64) bool  { return b&^f.SignBit() == f.Inf() }
func (f Fmt) IsZero(b uint64) bool { return b&^f.SignBit() == 0 }
func (f Fmt) Neg(b uint64) uint64  { return b ^ f.SignBit() }
func (f Fmt) Abs(b uint64) uint64  { return b &^ f.SignBit() }
func (f Fmt) IsNeg(b uint64) bool  { return b&f.SignBit() != 0 }

// Parts is the documented circuit representation: sign, exponent, significand
// with explicit leading one (subnormals normalised), abnormal flag.
type Parts struct {
	Sign uint64
	Exp  int64
	Man  uint64
	Abn  uint64
}

func (f Fmt) Parts(b uint64) Parts {
	p := Parts{Sign: b >> (f.E + f.M) & 1}
	e := int64(b >> f.M & f.ExpMask())
	m := b & f.ManMask()
	switch {
	case e == int64(f.ExpMask()):
		p.Abn = 1
		p.Exp = e - f.Bias()
		if m == 0 {
			p.Man = 1 << f.M
		}
	case e == 0 && m == 0:
		p.Exp = 1 - f.Bias() - int64(f.M) - 1
	case e == 0:
		p.Exp = 1 - f.Bias()
		p.Man = m
		for p.Man>>f.M == 0 {
			p.Man <<= 1
			p.Exp--
		}
	default:
		p.Exp = e - f.Bias()
		p.Man = 1<<f.M | m
	}
	return p
}

// Elems encodes p as field elements in the order sign, exponent, mantissa,
// abnormal.
func (p Parts) Elems() [4]fr.Element {
	var r [4]fr.Element
	r[0].SetUint64(p.Sign)
	r[1].SetInt64(p.Exp)
	r[2].SetUint64(p.Man)
	r[3].SetUint64(p.Abn)
	return r
}

func (f Fmt) Elems(b uint64) [4]fr.Element { return f.Parts(b).Elems() }

// SameValue compares accepted result components with the expected encoding;
// the sign of a NaN is unspecified but must still be a bit.
func (f Fmt) SameValue(got []fr.Element, want uint64) bool {
	w := f.Elems(want)
	if got[1] != w[1] || got[2] != w[2] || got[3] != w[3] {
		return false
	}
	if f.IsNaN(want) {
		return got[0].IsZero() || got[0].IsOne()
	}
	return got[0] == w[0]
}

func (f Fmt) f64(b uint64) float64 {
	if f == F32 {
		return float64(math.Float32frombits(uint32(b)))
	}
	if f == F64 {
		return math.Float64frombits(b)
	}
	e, m := int64(b>>f.M&f.ExpMask()), b&f.ManMask()
	var v float64
	switch {
	case e == int64(f.ExpMask()) && m != 0:
		v = math.NaN()
	case e == int64(f.ExpMask()):
		v = math.Inf(1)
	case e == 0:
		v = math.Ldexp(float64(m), int(1-f.Bias()-int64(f.M)))
	default:
		v = math.Ldexp(float64(m|1<<f.M), int(e-f.Bias()-int64(f.M)))
	}
	if f.IsNeg(b) {
		v = -v
	}
	return v
}

// Val is the value of b as a float64 (exact for both formats).
func (f Fmt) Val(b uint64) float64 { return f.f64(b) }

// FromVal rounds v to the format.
func (f Fmt) FromVal(v float64) uint64 {
	if f == F32 {
		return uint64(math.Float32bits(float32(v)))
	}
	if f == F64 {
		return math.Float64bits(v)
	}
	s := uint64(0)
	if math.Signbit(v) {
		s = f.SignBit()
	}
	v = math.Abs(v)
	switch {
	case math.IsNaN(v):
		return s | f.NaN()
	case math.IsInf(v, 0):
		return s | f.Inf()
	case v == 0:
		return s
	}
	_, e := math.Frexp(v)
	exp := int64(e) - 1
	low := 1 - f.Bias()
	if exp < low {
		exp = low
	}
	n := uint64(math.RoundToEven(math.Ldexp(v, int(int64(f.M)-exp))))
	if n>>f.M != 0 {
		n += uint64(exp+f.Bias()-1) << f.M
	}
	if n > f.Inf() {
		n = f.Inf()
	}
	return s | n
}

func (f Fmt) Add(a, b uint64) uint64 {
	if f == F32 {
		x, y := math.Float32frombits(uint32(a)), math.Float32frombits(uint32(b))
		return uint64(math.Float32bits(x + y))
	}
	return f.FromVal(f.f64(a) + f.f64(b))
}
func (f Fmt) Sub(a, b uint64) uint64 {
	if f == F32 {
		x, y := math.Float32frombits(uint32(a)), math.Float32frombits(uint32(b))
		return uint64(math.Float32bits(x - y))
	}
	return f.FromVal(f.f64(a) - f.f64(b))
}
func (f Fmt) Mul(a, b uint64) uint64 {
	if f == F32 {
		x, y := math.Float32frombits(uint32(a)), math.Float32frombits(uint32(b))
		return uint64(math.Float32bits(x * y))
	}
	return f.FromVal(f.f64(a) * f.f64(b))
}
func (f Fmt) Div(a, b uint64) uint64 {
	if f == F32 {
		x, y := math.Float32frombits(uint32(a)), math.Float32frombits(uint32(b))
		return uint64(math.Float32bits(x / y))
	}
	return f.FromVal(f.f64(a) / f.f64(b))
}
func (f Fmt) Sqrt(a uint64) uint64 {
	if f == F32 {
		return uint64(math.Float32bits(float32(math.Sqrt(f.f64(a)))))
	}
	return f.FromVal(math.Sqrt(f.f64(a)))
}
func (f Fmt) Trunc(a uint64) uint64 { return f.FromVal(math.Trunc(f.f64(a))) }
func (f Fmt) Floor(a uint64) uint64 { return f.FromVal(math.Floor(f.f64(a))) }
func (f Fmt) Ceil(a uint64) uint64  { return f.FromVal(math.Ceil(f.f64(a))) }

func (f Fmt) Lt(a, b uint64) bool { return f.f64(a) < f.f64(b) }
func (f Fmt) Le(a, b uint64) bool { return f.f64(a) <= f.f64(b) }

// Int is the integer value of an integral float.
func (f Fmt) Int(a uint64) (*big.Int, bool) {
	v := f.f64(a)
	if math.IsNaN(v) || math.IsInf(v, 0) || v != math.Trunc(v) {
		return nil, false
	}
	r, _ := new(big.Float).SetFloat64(v).Int(nil)
	return r, true
}

// Ord maps finite floats and infinities to consecutive integers (both zeros
// to 0) so that |Ord(a)-Ord(b)| is the distance in units of adjacent floats.
func (f Fmt) Ord(b uint64) int64 {
	if f.IsNeg(b) {
		return -int64(f.Abs(b))
	}
	return int64(b)
}

// Fits tells whether bits is an encoding of the format.
func (f Fmt) Fits(x *fr.Element) (uint64, bool) {
	if !x.IsUint64() {
		return 0, false
	}
	v := x.Uint64()
	if f.Width() < 64 && v>>f.Width() != 0 {
		return 0, false
	}
	return v, true
}
