package props

import (
	"fmt"
	"math"
	"math/big"
	"strconv"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/float"
	"zkverif/ref"
	. "zkverif/sess"
)

// operand sources
const (
	srcWire  = 0 // canonical components as witness wires
	srcAlloc = 1 // NewFloat of the encoding
	srcConst = 2 // constant at definition time
)

func hexU(v uint64) string { return strconv.FormatUint(v, 16) }
func unhex(s string) uint64 {
	v, err := strconv.ParseUint(s, 16, 64)
	if err != nil {
		panic(err)
	}
	return v
}

func newCtx(api frontend.API, s Spec) float.Context {
	f := ref.ByBits(s.Fmt)
	return float.NewContext(api, s.RS, f.E, f.M)
}

// operand builds one operand from its source and returns it with the number of
// inputs used.
func operand(ctx *float.Context, src int64, bits uint64, in []frontend.Variable) (float.FloatVar, int) {
	switch src {
	case srcWire:
		return float.FloatVar{Sign: in[0], Exponent: in[1], Mantissa: in[2], IsAbnormal: in[3]}, 4
	case srcAlloc:
		return ctx.NewFloat(in[0]), 1
	default:
		// through the typed constructor for half of the values where there is one
		if h := bits * 0x9E3779B97F4A7C15; h>>63 == 1 {
			switch {
			case ctx.E == ref.F32.E && ctx.M == ref.F32.M:
				return ctx.NewF32Constant(math.Float32frombits(uint32(bits))), 0
			case ctx.E == ref.F64.E && ctx.M == ref.F64.M:
				return ctx.NewF64Constant(math.Float64frombits(bits)), 0
			}
		}
		return ctx.NewConstant(bits), 0
	}
}

func srcN(src int64) int {
	switch src {
	case srcWire:
		return 4
	case srcAlloc:
		return 1
	}
	return 0
}

func operandInputs(f ref.Fmt, src int64, bits uint64) []fr.Element {
	switch src {
	case srcWire:
		e := f.Elems(bits)
		return e[:]
	case srcAlloc:
		var x fr.Element
		x.SetUint64(bits)
		return []fr.Element{x}
	}
	return nil
}

func flat(v float.FloatVar) []frontend.Variable {
	return []frontend.Variable{v.Sign, v.Exponent, v.Mantissa, v.IsAbnormal}
}

var fopArity = map[string]int{"add": 2, "sub": 2, "mul": 2, "div": 2, "sqrt": 1, "trunc": 1, "floor": 1, "ceil": 1,
	"lt": 2, "le": 2, "gt": 2, "ge": 2, "alloc": 1, "const": 1, "toint": 1, "floortoint": 1, "trunctoint": 1, "ceiltoint": 1, "neg": 1, "abs": 1,
	"eq": 2, "ulp": 2, "tol": 2, "select": 2}

func showBits(f ref.Fmt, b uint64) string {
	return fmt.Sprintf("%0*x(%v)", int(f.Width()+3)/4, b, f.Val(b))
}

func fvCheck(f ref.Fmt, want uint64) func([]fr.Element) string {
	return func(o []fr.Element) string {
		if f.SameValue(o, want) {
			return ""
		}
		w := f.Parts(want)
		return fmt.Sprintf("result (sign,exp,mant,abnormal)=(%s,%s,%s,%s), IEEE result is %s = (%d,%d,%d,%d)", Pretty(o[0]), Pretty(o[1]), Pretty(o[2]), Pretty(o[3]), showBits(f, want), w.Sign, w.Exp, w.Man, w.Abn)
	}
}

func boolCheck(want bool) func([]fr.Element) string {
	return func(o []fr.Element) string {
		var w fr.Element
		if want {
			w.SetOne()
		}
		if o[0] == w {
			return ""
		}
		return fmt.Sprintf("predicate is %s, expected %v", Pretty(o[0]), want)
	}
}

// eval is the IEEE model of the value-returning operations.
func eval(f ref.Fmt, op string, a, b uint64) uint64 {
	switch op {
	case "add":
		return f.Add(a, b)
	case "sub":
		return f.Sub(a, b)
	case "mul":
		return f.Mul(a, b)
	case "div":
		return f.Div(a, b)
	case "sqrt":
		return f.Sqrt(a)
	case "trunc":
		return f.Trunc(a)
	case "floor":
		return f.Floor(a)
	case "ceil":
		return f.Ceil(a)
	case "neg":
		return f.Neg(a)
	case "abs":
		return f.Abs(a)
	case "alloc", "const":
		return a
	}
	panic("eval " + op)
}

func cmpModel(f ref.Fmt, op string, a, b uint64) bool {
	switch op {
	case "lt":
		return f.Lt(a, b)
	case "le":
		return f.Le(a, b)
	case "gt":
		return f.Lt(b, a)
	case "ge":
		return f.Le(b, a)
	}
	panic(op)
}

func applyOp(ctx *float.Context, op string, x, y float.FloatVar) float.FloatVar {
	switch op {
	case "add":
		return ctx.Add(x, y)
	case "sub":
		return ctx.Sub(x, y)
	case "mul":
		return ctx.Mul(x, y)
	case "div":
		return ctx.Div(x, y)
	case "sqrt":
		return ctx.Sqrt(x)
	case "trunc":
		return ctx.Trunc(x)
	case "floor":
		return ctx.Floor(x)
	case "ceil":
		return ctx.Ceil(x)
	case "neg":
		return ctx.Neg(x)
	case "abs":
		return ctx.Abs(x)
	case "alloc", "const":
		return x
	}
	panic(op)
}

func applyCmp(ctx *float.Context, op string, x, y float.FloatVar) frontend.Variable {
	switch op {
	case "lt":
		return ctx.IsLt(x, y)
	case "le":
		return ctx.IsLe(x, y)
	case "gt":
		return ctx.IsGt(x, y)
	default:
		return ctx.IsGe(x, y)
	}
}

// intLimit is the magnitude below which integer conversion is promised.
func intLimit(f ref.Fmt) uint {
	return f.E + f.M
}

func signedElem(b *big.Int) fr.Element {
	var x fr.Element
	x.SetBigInt(b)
	return x
}

func init() {
	Register("fop", func(s Spec) *Scn {
		f := ref.ByBits(s.Fmt)
		n := fopArity[s.Op]
		sc := &Scn{}
		for i := 0; i < n; i++ {
			sc.NIn += srcN(s.A[i])
		}
		op := s.Op
		bits := make([]uint64, n)
		for i := range bits {
			bits[i] = unhex(s.S[i])
		}
		get := func(ctx *float.Context, in []frontend.Variable) (xs [2]float.FloatVar) {
			p := 0
			for i := 0; i < n; i++ {
				v, k := operand(ctx, s.A[i], bits[i], in[p:])
				xs[i] = v
				p += k
			}
			return
		}
		switch op {
		case "lt", "le", "gt", "ge":
			sc.NOut = 1
			sc.Define = func(api frontend.API, in []frontend.Variable) []frontend.Variable {
				ctx := newCtx(api, s)
				xs := get(&ctx, in)
				return []frontend.Variable{applyCmp(&ctx, op, xs[0], xs[1])}
			}
			sc.Judge = func(in []fr.Element) Expect {
				return Expect{Honest: MustAccept, Check: boolCheck(cmpModel(f, op, bits[0], bits[1]))}
			}
		case "eq", "ulp", "tol":
			sc.NOut = 0
			tol := uint64(0)
			if op == "tol" {
				tol = unhex(s.S[2])
			}
			sc.Define = func(api frontend.API, in []frontend.Variable) []frontend.Variable {
				ctx := newCtx(api, s)
				xs := get(&ctx, in)
				switch op {
				case "eq":
					ctx.AssertIsEqual(xs[0], xs[1])
				case "ulp":
					ctx.AssertIsEqualOrULP(xs[0], xs[1])
				case "tol":
					if f == ref.F32 {
						ctx.AssertIsEqualOrCustomULP32(xs[0], xs[1], float32(f.Val(tol)))
					} else {
						ctx.AssertIsEqualOrCustomULP64(xs[0], xs[1], f.Val(tol))
					}
				}
				return nil
			}
			sc.Judge = func(in []fr.Element) Expect { return eqExpect(f, op, bits[0], bits[1], tol) }
		case "toint", "floortoint", "trunctoint", "ceiltoint":
			sc.NOut = 1
			sc.Define = func(api frontend.API, in []frontend.Variable) []frontend.Variable {
				ctx := newCtx(api, s)
				xs := get(&ctx, in)
				x := xs[0]
				switch op {
				case "floortoint":
					x = ctx.Floor(x)
				case "trunctoint":
					x = ctx.Trunc(x)
				case "ceiltoint":
					x = ctx.Ceil(x)
				}
				return []frontend.Variable{ctx.ToInt(x)}
			}
			sc.Judge = func(in []fr.Element) Expect {
				v := bits[0]
				switch op {
				case "floortoint":
					v = f.Floor(v)
				case "trunctoint":
					v = f.Trunc(v)
				case "ceiltoint":
					v = f.Ceil(v)
				}
				n, ok := f.Int(v)
				if !ok || uint(n.BitLen()) > intLimit(f) {
					return Expect{Vacuous: true}
				}
				w := signedElem(n)
				return Expect{Honest: MustAccept, Check: func(o []fr.Element) string {
					if o[0] == w {
						return ""
					}
					return fmt.Sprintf("integer is %s, expected %s", Pretty(o[0]), n)
				}}
			}
		default:
			sc.NOut = 4
			sc.Define = func(api frontend.API, in []frontend.Variable) []frontend.Variable {
				ctx := newCtx(api, s)
				xs := get(&ctx, in)
				return flat(applyOp(&ctx, op, xs[0], xs[1]))
			}
			sc.Judge = func(in []fr.Element) Expect {
				var b uint64
				if n > 1 {
					b = bits[1]
				}
				if op == "alloc" {
					v, ok := f.Fits(&in[0])
					if !ok {
						return Expect{Honest: MustReject, AnyReject: true}
					}
					return Expect{Honest: MustAccept, Check: fvCheck(f, v)}
				}
				return Expect{Honest: MustAccept, Check: fvCheck(f, eval(f, op, bits[0], b))}
			}
		}
		return sc
	})
}

// eqExpect is the model of the equality assertions.
func eqExpect(f ref.Fmt, op string, a, b, tol uint64) Expect {
	an, bn := f.IsNaN(a), f.IsNaN(b)
	acc := Expect{Honest: MustAccept}
	rej := Expect{Honest: MustReject, AnyReject: true}
	same := a == b || an && bn
	switch op {
	case "eq":
		if same {
			return acc
		}
		return rej
	case "ulp":
		if same {
			return acc
		}
		if an || bn {
			// NaN against a number: never promised to be accepted; the sign is
			// ignored by contract only when both are NaN
			return rej
		}
		if f.IsNeg(a) != f.IsNeg(b) {
			return rej
		}
		d := f.Ord(a) - f.Ord(b)
		if d < 0 {
			d = -d
		}
		if d > 1 {
			return rej
		}
		if f.IsInf(a) || f.IsInf(b) {
			// infinity and the largest number
			return Expect{Vacuous: true}
		}
		// adjacent: promised when both are normal
		if f.Abs(a)>>f.M != 0 && f.Abs(b)>>f.M != 0 {
			return acc
		}
		return Expect{}
	case "tol":
		if same {
			return acc
		}
		if an || bn {
			return rej // a NaN is at no distance from a number
		}
		if f.IsInf(tol) || f.IsNaN(tol) {
			return Expect{Vacuous: true}
		}
		if f.IsNeg(a) != f.IsNeg(b) {
			return rej
		}
		if f.IsInf(a) || f.IsInf(b) {
			return rej // infinitely far apart
		}
		if f.Le(f.Abs(f.Sub(a, b)), tol) {
			return acc
		}
		return rej
	}
	panic(op)
}

// fopInputs are the inputs of a fop spec for the given operand bits.
func fopInputs(s Spec, bits []uint64) []fr.Element {
	f := ref.ByBits(s.Fmt)
	var in []fr.Element
	for i := range bits {
		if s.A[i] == srcConst {
			continue
		}
		in = append(in, operandInputs(f, s.A[i], bits[i])...)
	}
	return in
}

var commonSizes = []uint{8, 8, 8, 8, 8, 6, 6, 5, 5, 4, 4, 7, 7, 3, 0, 2}
var wideSizes = []uint{9, 9, 9, 9, 10, 10, 10, 11, 11, 12}

// genConfig draws the frontend and the limb width. Wide tables cost time in
// proportion to 2^width, so they are drawn rarely.
func genConfig(r *Rng, s *Spec) {
	switch k := r.Intn(200); {
	case k < 1:
		s.RS = uint(r.Range(13, 16))
	case k < 16:
		s.RS = wideSizes[r.Intn(len(wideSizes))]
	default:
		s.RS = commonSizes[r.Intn(len(commonSizes))]
	}
	if r.Bool() {
		s.FT = "r1cs"
	} else {
		s.FT = "scs"
	}
}

// otherFormats are formats next to the two standard ones: bfloat16
// and a few whose numbers are so few that every special case of an
// operation turns up all the time.
var otherFormats = []int{807, 807, 810, 403, 403, 504, 506, 507, 609, 615, 716, 824, 920}

// genFmt draws a format.
func genFmt(r *Rng, other bool) int {
	if other && r.Pct(15) {
		return otherFormats[r.Intn(len(otherFormats))]
	}
	return []int{32, 64}[r.Intn(2)]
}

// fopSession draws and runs one session of one of ops.
func fopSession(w *Worker, r *Rng, ops []string, kn Knobs) *Found {
	s := Spec{Kind: "fop"}
	s.Op = ops[r.Intn(len(ops))]
	s.Fmt = genFmt(r, s.Op != "tol")
	f := ref.ByBits(s.Fmt)
	genConfig(r, &s)
	n := fopArity[s.Op]
	gen := func() []uint64 {
		if n == 1 {
			return []uint64{GenUnary(r, f, s.Op)}
		}
		a, b := GenPair(r, f, s.Op)
		return []uint64{a, b}
	}
	bits := gen()
	nconst := 0
	for i := 0; i < n; i++ {
		src := int64(srcWire)
		switch k := r.Intn(20); {
		case k < 4:
			src = srcAlloc
		case k < 6:
			src = srcConst
		}
		if s.Op == "alloc" {
			src = srcAlloc
		}
		if s.Op == "const" {
			src = srcConst
		}
		s.A = append(s.A, src)
		if src == srcConst {
			nconst++
		}
		s.S = append(s.S, hexU(bits[i]))
	}
	if s.Op == "tol" {
		s.S = append(s.S, hexU(genTol(r, f, bits[0], bits[1])))
	}
	sc := Build(s)
	in := fopInputs(s, bits)
	var near []fr.Element
	if s.Op == "alloc" && r.Pct(30) {
		in[0], near = genNoPattern(r, f, bits[0])
	}
	foreign := func(r *Rng) []fr.Element {
		if near != nil && r.Pct(70) {
			return near
		}
		b2 := append([]uint64(nil), bits...)
		switch r.Intn(4) {
		case 0:
			b2 = gen()
		case 1:
			i := r.Intn(n)
			b2[i] = f.Neg(b2[i])
		case 2:
			i := r.Intn(n)
			b2[i] ^= 1 << uint(r.Intn(int(f.Width())))
		default:
			i := r.Intn(n)
			if f.Abs(b2[i]) < f.Inf() {
				b2[i]++
			}
		}
		return fopInputs(s, b2)
	}
	if f := w.Session(r, sc, in, kn, foreign); f != nil {
		return f
	}
	if realDue(r, &s, nconst > 0) {
		return w.RealSample(r, sc, in)
	}
	return nil
}

// genNoPattern draws a field element that is (almost always) no bit pattern of
// the format, and the input whose honest advice comes closest to it.
func genNoPattern(r *Rng, f ref.Fmt, bits uint64) (x fr.Element, near []fr.Element) {
	if r.Pct(50) {
		bits = bits & (f.SignBit() - 1) >> uint(r.Intn(int(f.Width())))
	}
	n := elem(bits)
	x = n
	var t fr.Element
	switch r.Intn(8) {
	case 0, 1: // a fraction of a pattern
		d := uint(r.Range(1, 16))
		x.Mul(&x, powInv(d))
		n = elem(bits >> d)
	case 2, 3: // a pattern and a fraction
		t = elem(uint64(1 + r.Intn(300)))
		t.Mul(&t, powInv(uint(r.Range(1, 16))))
		if r.Bool() {
			t.Neg(&t)
		}
		x.Add(&x, &t)
	case 4: // too many bits
		t.SetBigInt(new(big.Int).Lsh(big.NewInt(int64(1+r.Intn(5))), f.Width()+uint(r.Intn(3))*uint(r.Intn(40))))
		x.Add(&x, &t)
	case 5: // negative
		x.Neg(&x)
	case 6: // aliases in the low 64 bits
		t.SetBigInt(new(big.Int).Lsh(big.NewInt(int64(1+r.Intn(5))), 64))
		x.Add(&x, &t)
	default:
		var b [32]byte
		for i := range b {
			b[i] = byte(r.U64())
		}
		x.SetBytes(b[:])
	}
	return x, []fr.Element{n}
}

func powInv(d uint) *fr.Element {
	var x fr.Element
	x.SetUint64(1 << d)
	x.Inverse(&x)
	return &x
}

const realEvery = 400

// realDue decides whether a session also runs on gnark itself. The builders
// fold constants, each in its own way, so programs with constants are compared
// more often.
func realDue(r *Rng, s *Spec, consts bool) bool {
	n := realEvery
	if s.RS > 9 {
		n = 4000
	} else if consts {
		n = 30
	}
	return r.Intn(n) == 0
}

func genTol(r *Rng, f ref.Fmt, a, b uint64) uint64 {
	d := f.Abs(f.Sub(a, b))
	switch r.Intn(5) {
	case 0:
		return d &^ f.SignBit()
	case 1:
		if d > 0 && d <= f.Inf() {
			return d - 1
		}
	case 2:
		if d < f.Inf() {
			return d + 1
		}
	case 3:
		return f.FromVal([]float64{0, 1, 2, 1e-6, 0.5}[r.Intn(5)])
	}
	t := f.Abs(GenBits(r, f))
	if f.IsNaN(t) {
		return 0
	}
	return t
}

// GenUnary draws an operand for a one-operand operation.
func GenUnary(r *Rng, f ref.Fmt, op string) uint64 {
	s := r.U64() & 1
	switch op {
	case "sqrt":
		if r.Pct(10) {
			return hardSqrt(r, f)
		}
		if r.Pct(40) {
			// perfect squares and neighbours
			k := r.Bits(uint(r.Range(1, int(f.M)/2)))
			b := f.FromVal(float64(k) * float64(k))
			switch r.Intn(3) {
			case 0:
				b++
			case 1:
				if b > 0 {
					b--
				}
			}
			e := int64(b>>f.M&f.ExpMask()) + int64(r.Range(-40, 40))
			if b != 0 && e > 0 && e < int64(f.ExpMask()) {
				b = mk(f, 0, e, b)
			}
			return b
		}
		b := GenBits(r, f)
		if r.Pct(80) {
			b = f.Abs(b)
		}
		return b
	case "trunc", "floor", "ceil", "toint", "floortoint", "trunctoint", "ceiltoint":
		if op == "toint" {
			v := GenUnary(r, f, "trunc")
			return f.Trunc(v)
		}
		switch r.Intn(6) {
		case 0:
			return mk(f, s, f.Bias()+int64(r.Range(-4, int(f.M)+4)), sparseMan(r, f))
		case 1:
			return mk(f, s, f.Bias()+int64(r.Range(-2, 3)), r.Bits(f.M))
		case 2: // integer plus/minus an ulp or a half
			v := float64(r.Bits(uint(r.Range(1, int(f.M)))))
			b := f.FromVal(v)
			switch r.Intn(4) {
			case 0:
				b++
			case 1:
				if b > 0 {
					b--
				}
			case 2:
				b = f.FromVal(v + 0.5)
			}
			return b | s<<(f.E+f.M)
		}
		return GenBits(r, f)
	}
	return GenBits(r, f)
}
