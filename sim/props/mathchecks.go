package props

import (
	"fmt"
	"math"
	"sync"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/float"
	zkmath "github.com/tumberger/zk-Location/math"
	"zkverif/ref"
	. "zkverif/sess"
)

// honestPool holds workers used by models that take the fault-free execution
// of the same circuit as their reference value.
var honestPool = sync.Pool{New: func() interface{} { return NewWorker() }}

// honestRun executes a scenario without faults on a private engine.
func honestRun(sc *Scn, in []fr.Element) Outcome {
	w := honestPool.Get().(*Worker)
	o := w.Exec(sc, in, nil, false, 4, nil)
	o.Outs = append([]fr.Element(nil), o.Outs...)
	honestPool.Put(w)
	return o
}

// sameOuts demands the outputs of the fault-free execution.
func sameOuts(want []fr.Element) func([]fr.Element) string {
	return func(o []fr.Element) string {
		for i := range want {
			if o[i] != want[i] {
				return fmt.Sprintf("output %d is %s, the honest prover obtains %s", i, Pretty(o[i]), Pretty(want[i]))
			}
		}
		return ""
	}
}

// asBits turns result components into an encoding, if they denote a number.
func asBits(f ref.Fmt, o []fr.Element) (uint64, bool) {
	s, e, m := signedOf(o[0]), signedOf(o[1]), signedOf(o[2])
	if s.Sign() < 0 || s.BitLen() > 1 || e.BitLen() > 20 || m.Sign() < 0 || uint(m.BitLen()) > f.M+1 {
		return 0, false
	}
	v := math.Ldexp(float64(m.Uint64()), int(e.Int64())-int(f.M))
	if s.Sign() > 0 {
		v = -v
	}
	b := f.FromVal(v)
	if s.Sign() > 0 {
		b |= f.SignBit()
	}
	return b, f.SameValue(o, b)
}

var trigTol = map[string]float64{"atan64": 1e-14, "atan2_64": 1e-14, "sin64": 1e-14, "atan32": 2e-6, "sin32": 2e-6}

// trigWant returns the true value and whether the operands are in the domain.
func trigWant(f ref.Fmt, op string, x []uint64) (float64, bool) {
	v := make([]float64, len(x))
	for i := range x {
		v[i] = f.Val(x[i])
	}
	switch op {
	case "atan":
		return math.Atan(v[0]), !math.IsNaN(v[0])
	case "atan2":
		q := f.Val(f.Div(x[0], x[1]))
		// math.Atan2 loses the sign of the angle when the quotient underflows;
		// the angle always has the sign of y.
		return math.Copysign(math.Atan2(v[0], v[1]), v[0]), !math.IsNaN(q)
	default:
		pi := f.Val(f.FromVal(math.Pi))
		return math.Sin(v[0]), math.Abs(v[0]) <= pi
	}
}

func init() {
	Register("trig", func(s Spec) *Scn {
		f := ref.ByBits(s.Fmt)
		sc := &Scn{NOut: 4}
		bits := make([]uint64, len(s.S))
		for i := range bits {
			bits[i] = unhex(s.S[i])
			sc.NIn += srcN(s.A[i])
		}
		sc.Define = func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			ctx := newCtx(api, s)
			var xs []float.FloatVar
			for i := range bits {
				v, n := operand(&ctx, s.A[i], bits[i], in)
				in = in[n:]
				xs = append(xs, v)
			}
			switch s.Op + fmt.Sprint(s.Fmt) {
			case "atan64":
				return flat(zkmath.AtanRemez64(&ctx, xs[0]))
			case "atan32":
				return flat(zkmath.AtanRemez32(&ctx, xs[0]))
			case "sin64":
				return flat(zkmath.SinTaylor64(&ctx, xs[0]))
			case "sin32":
				return flat(zkmath.SinTaylor32(&ctx, xs[0]))
			default:
				return flat(zkmath.Atan2(&ctx, xs[0], xs[1]))
			}
		}
		sc.Judge = func(in []fr.Element) Expect {
			sc.Spec = s
			x, ok := decodeOperands(f, s.A, bits, in)
			if !ok {
				return Expect{Vacuous: true}
			}
			want, dom := trigWant(f, s.Op, x)
			if s.Op != "sin" && (f.IsNaN(x[0]) || f.IsNaN(x[len(x)-1])) {
				return Expect{Honest: MustAccept, Check: fvCheck(f, f.NaN())}
			}
			if !dom {
				return Expect{Vacuous: true}
			}
			o := honestRun(sc, in)
			if !o.Accepted {
				return Expect{Honest: MustAccept}
			}
			name := s.Op + fmt.Sprint(s.Fmt)
			if s.Op == "atan2" {
				name = "atan2_64"
			}
			same := sameOuts(o.Outs)
			return Expect{Honest: MustAccept, Check: func(outs []fr.Element) string {
				b, ok := asBits(f, outs)
				if !ok {
					return fmt.Sprintf("result %v is not a canonical number", PrettyAll(outs))
				}
				if d := math.Abs(f.Val(b) - want); !(d <= trigTol[name]) {
					return fmt.Sprintf("%s(%v) is %v, true value %v: error %.3g exceeds %.0e", name, showAll(f, x), f.Val(b), want, d, trigTol[name])
				}
				return same(outs)
			}}
		}
		return sc
	})
	add(&Check{ID: "C14", Quick: 1600, Thorough: 60000, Rule: "a run draws a function, operand sources and operands over the whole magnitude range by the seed, executes the fault-free prover, the same on the negated operand, and then seeded fault plans on the advice channel; oracle: the true function within the stated error, exact oddness of the arctangent, and equality of every accepted result with the honest one; non-trivial: a distinct (program, input) pair that had faults injected",
		Real: circuitReal, Stub: circuitStub, Assume: circuitAssume, Run: trigRun})
}

func showAll(f ref.Fmt, x []uint64) string {
	s := ""
	for i, b := range x {
		if i > 0 {
			s += ", "
		}
		s += showBits(f, b)
	}
	return s
}

// decodeOperands recovers the encoded operands of a run from its inputs.
func decodeOperands(f ref.Fmt, src []int64, bits []uint64, in []fr.Element) ([]uint64, bool) {
	x := make([]uint64, len(bits))
	for i := range bits {
		switch src[i] {
		case srcWire:
			b, ok := asBits(f, in[:4])
			if !ok {
				return nil, false
			}
			x[i] = b
		case srcAlloc:
			b, ok := f.Fits(&in[0])
			if !ok {
				return nil, false
			}
			x[i] = b
		default:
			x[i] = bits[i]
		}
		in = in[srcN(src[i]):]
	}
	return x, true
}

func genTrigOperand(r *Rng, f ref.Fmt, op string) uint64 {
	s := r.U64() & 1 << (f.E + f.M)
	switch r.Intn(8) {
	case 0: // around one, pi/2 and pi
		c := []float64{1, math.Pi / 2, math.Pi, 0.5, math.Pi / 4, 2}[r.Intn(6)]
		b := f.FromVal(c)
		return (b + uint64(r.Intn(7)) - 3) | s
	case 1: // very small
		return mk(f, 0, int64(r.Intn(60)), r.Bits(f.M)) | s
	case 2:
		return GenBits(r, f)
	case 3: // any magnitude
		return r.Bits(f.Width())
	case 4: // just around a sparse point
		return f.FromVal(float64(r.Range(1, 64))/16) | s
	default:
		if op == "sin" {
			return f.FromVal(r.F()*math.Pi) | s
		}
		return f.FromVal(math.Exp((r.F()-0.5)*20)) | s
	}
}

func trigRun(w *Worker, r *Rng) *Found {
	ops := []string{"atan", "sin", "atan2", "atan", "sin"}
	s := Spec{Kind: "trig", Op: ops[r.Intn(len(ops))], Fmt: 64, FT: []string{"r1cs", "scs"}[r.Intn(2)]}
	if s.Op != "atan2" && r.Pct(50) {
		s.Fmt = 32
	}
	s.RS = uint(r.Intn(11))
	if s.RS == 1 {
		s.RS = 0
	}
	f := ref.ByBits(s.Fmt)
	n := 1
	if s.Op == "atan2" {
		n = 2
	}
	var x []uint64
	for try := 0; ; try++ {
		x = x[:0]
		for i := 0; i < n; i++ {
			x = append(x, genTrigOperand(r, f, s.Op))
		}
		if _, ok := trigWant(f, s.Op, x); ok || try > 20 {
			break
		}
	}
	inputs := func(x []uint64) (in []fr.Element) {
		for i := range x {
			in = append(in, operandInputs(f, s.A[i], x[i])...)
		}
		return
	}
	for i := range x {
		s.S = append(s.S, hexU(x[i]))
		s.A = append(s.A, []int64{srcWire, srcAlloc, srcAlloc}[r.Intn(3)])
	}
	sc := Build(s)
	in := inputs(x)
	kn := fopKnobs()
	kn.Attempts = 14
	foreign := func(r *Rng) []fr.Element {
		y := append([]uint64(nil), x...)
		i := r.Intn(n)
		switch r.Intn(4) {
		case 0:
			y[i] ^= 1
		case 1:
			y[i] ^= f.SignBit()
		case 2:
			y[i] = f.Div(f.FromVal(1), y[i])
		default:
			y[i] = genTrigOperand(r, f, s.Op)
		}
		return inputs(y)
	}
	if f := w.Session(r, sc, in, kn, foreign); f != nil {
		return f
	}
	if s.Op == "atan" {
		if f := oddCheck(w, s, in); f != nil {
			return f
		}
	}
	if realDue(r, &s, false) {
		return w.RealSample(r, sc, in)
	}
	return nil
}

// oddCheck compares arctan(-x) with -arctan(x), bit for bit.
func oddCheck(w *Worker, s Spec, in []fr.Element) *Found {
	f := ref.ByBits(s.Fmt)
	x, ok := decodeOperands(f, s.A, []uint64{0}, in)
	if !ok {
		return nil
	}
	if _, dom := trigWant(f, s.Op, x); !dom {
		return nil
	}
	sc := Build(s)
	o1 := w.Exec(sc, in, nil, false, 0, nil)
	a := append([]fr.Element(nil), o1.Outs...)
	neg := f.Neg(x[0])
	o2 := w.Exec(sc, operandInputs(f, s.A[0], neg), nil, false, 0, nil)
	mkf := func(d string) *Found {
		t := s
		t.Kind = "trigodd"
		g := &Found{Class: "not-odd", Detail: d, Spec: t}
		for i := range in {
			g.Inputs = append(g.Inputs, Hex(in[i]))
		}
		return g
	}
	if !o1.Accepted || !o2.Accepted {
		return mkf("the honest prover fails on " + showBits(f, x[0]) + " or its negation")
	}
	b1, k1 := asBits(f, a)
	b2, k2 := asBits(f, o2.Outs)
	if !k1 || !k2 || b2 != f.Neg(b1) {
		return mkf(fmt.Sprintf("arctan(%s) = %s but arctan(%s) = %s", showBits(f, x[0]), showBits(f, b1), showBits(f, neg), showBits(f, b2)))
	}
	return nil
}

func init() {
	Register("trigodd", func(s Spec) *Scn {
		t := s
		t.Kind = "trig"
		return Build(t)
	})
	replayers["trigodd"] = func(w *Worker, f *Found) *Found {
		in := make([]fr.Element, len(f.Inputs))
		for i := range in {
			in[i] = FromHex(f.Inputs[i])
		}
		t := f.Spec
		t.Kind = "trig"
		return oddCheck(w, t, in)
	}
}

// ---- C15: Horner's rule ----

func init() {
	Register("poly", func(s Spec) *Scn {
		// S[0] is the point, the rest the coefficients; A[i] their sources.
		// Op: eval or evalk, whose k follows
		// the sources if it is not 1.
		f := ref.ByBits(s.Fmt)
		sc := &Scn{NOut: 4}
		bits := make([]uint64, len(s.S))
		for i := range bits {
			bits[i] = unhex(s.S[i])
			sc.NIn += srcN(s.A[i])
		}
		sc.Define = func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			ctx := newCtx(api, s)
			var xs []float.FloatVar
			for i := range bits {
				v, n := operand(&ctx, s.A[i], bits[i], in)
				in = in[n:]
				xs = append(xs, v)
			}
			p := zkmath.Polynomial(xs[1:])
			if s.Op == "evalk" {
				k := 1
				if len(s.A) > len(bits) {
					k = int(s.A[len(bits)])
				}
				return flat(p.EvalK(&ctx, xs[0], k))
			}
			return flat(p.Eval(&ctx, xs[0]))
		}
		sc.Judge = func(in []fr.Element) Expect {
			x, ok := decodeOperands(f, s.A, bits, in)
			if !ok {
				return Expect{Vacuous: true}
			}
			for _, b := range x {
				if f.IsNaN(b) || f.IsInf(b) {
					return Expect{Vacuous: true}
				}
			}
			// The rule may start from zero or from the leading coefficient; the
			// two only differ in the sign of a zero.
			var res [2]uint64
			c := x[1:]
			if s.Op == "evalk" && len(s.A) > len(bits) {
				zero := fvCheck(f, foldHorner(f, c, x[0], int(s.A[len(bits)]), true))
				lead := fvCheck(f, foldHorner(f, c, x[0], int(s.A[len(bits)]), false))
				return Expect{Honest: MustAccept, Check: func(o []fr.Element) string {
					if lead(o) == "" {
						return ""
					}
					return zero(o)
				}}
			}
			for i := range c {
				k := c[i]
				if s.Op == "eval" {
					k = c[len(c)-1-i]
				}
				res[0] = f.Add(f.Mul(res[0], x[0]), k)
				if i == 0 {
					res[1] = k
				} else {
					res[1] = f.Add(f.Mul(res[1], x[0]), k)
				}
			}
			check := fvCheck(f, res[0])
			if res[0] != res[1] && len(c) > 0 {
				zero, lead := check, fvCheck(f, res[1])
				check = func(o []fr.Element) string {
					if lead(o) == "" {
						return ""
					}
					return zero(o)
				}
			}
			return Expect{Honest: MustAccept, Check: check}
		}
		return sc
	})
	add(&Check{ID: "C15", Quick: 6000, Thorough: 300000, Rule: "a run draws a format, an evaluator, a degree from 0 to 12, coefficients, their sources, a point and the k of EvalK (1 to 5) by the seed, executes the fault-free prover and then seeded fault plans on the advice channel; oracle: Horner's rule over the IEEE model, bit for bit; non-trivial: a distinct (program, input) pair that had faults injected",
		Real: circuitReal, Stub: circuitStub, Assume: circuitAssume, Run: polyRun})
}

// foldHorner evaluates c, the coefficient of the highest degree first, as k
// polynomials in x^k, which are combined by Horner's rule in x.
func foldHorner(f ref.Fmt, c []uint64, x uint64, k int, fromZero bool) uint64 {
	step := x
	for i := 1; i < k; i++ {
		step = f.Mul(step, x)
	}
	parts := make([]uint64, k)
	have := make([]bool, k)
	for i := range c {
		j := (len(c) - 1 - i) % k
		if have[j] || fromZero {
			parts[j] = f.Add(f.Mul(parts[j], step), c[i])
		} else {
			parts[j], have[j] = c[i], true
		}
	}
	res := parts[k-1]
	have[k-1] = have[k-1] || fromZero
	for j := k - 2; j >= 0; j-- {
		if have[k-1] || have[j+1] {
			res = f.Add(f.Mul(res, x), parts[j])
			have[k-1] = true
		} else {
			res = parts[j]
		}
	}
	return res
}

func polyRun(w *Worker, r *Rng) *Found {
	s := Spec{Kind: "poly", Op: []string{"eval", "evalk"}[r.Intn(2)], Fmt: []int{32, 64}[r.Intn(2)], FT: []string{"r1cs", "scs"}[r.Intn(2)]}
	s.RS = uint(r.Intn(11))
	if s.RS == 1 {
		s.RS = 0
	}
	if s.Op == "evalk" && s.Fmt == 32 && r.Bool() {
		s.Fmt = 64
	}
	f := ref.ByBits(s.Fmt)
	n := r.Range(1, 6)
	if r.Pct(10) {
		n = r.Range(7, 13)
	}
	zeros := r.Pct(20)
	gen := func() uint64 {
		for {
			var b uint64
			switch {
			case zeros && r.Pct(60): // zeros, and numbers whose products underflow
				b = r.U64()&1<<(f.E+f.M) | []uint64{0, 0, 1, f.FromVal(1)}[r.Intn(4)]
			case r.Pct(25):
				b = GenBits(r, f)
			case r.Pct(33):
				b = f.FromVal(float64(r.Range(-40, 40)) / 8)
			default:
				b = mk(f, r.U64()&1, f.Bias()+int64(r.Range(-12, 12)), sparseMan(r, f))
			}
			if !f.IsNaN(b) && !f.IsInf(b) {
				return b
			}
		}
	}
	for i := 0; i <= n; i++ {
		s.S = append(s.S, hexU(gen()))
		src := []int64{srcWire, srcAlloc, srcConst}[r.Intn(3)]
		if i == 0 && src == srcConst {
			src = srcWire
		}
		s.A = append(s.A, src)
	}
	if s.Op == "evalk" && r.Pct(40) {
		s.A = append(s.A, int64(r.Range(1, 5)))
	}
	inputs := func(skip int, v uint64) (in []fr.Element) {
		for i := range s.S {
			b := unhex(s.S[i])
			if i == skip {
				b = v
			}
			in = append(in, operandInputs(f, s.A[i], b)...)
		}
		return
	}
	sc := Build(s)
	in := inputs(-1, 0)
	kn := fopKnobs()
	kn.Attempts = 16
	foreign := func(r *Rng) []fr.Element {
		i := r.Intn(len(s.S))
		v := unhex(s.S[i])
		switch r.Intn(3) {
		case 0:
			v ^= 1
		case 1:
			v ^= f.SignBit()
		default:
			v = gen()
		}
		return inputs(i, v)
	}
	if f := w.Session(r, sc, in, kn, foreign); f != nil {
		return f
	}
	if realDue(r, &s, true) {
		return w.RealSample(r, sc, in)
	}
	return nil
}
