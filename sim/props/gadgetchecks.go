package props

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/gadget"
	. "zkverif/sess"
)

// Gadget programs: Spec.A = [pow2 table size, number of gadgets]; every entry
// of Spec.Prog is [op, gadget, operand sources, bits, mode]; every operand is
// the next entry of Spec.S (its value, in hex).
const (
	gCheck = iota
	gAbs
	gIsPos
	gMax
	gMin
	gPow2
	gEq
)

const (
	gWire  = 0 // witness wire
	gConst = 1 // constant
	gLin   = 2 // linear expression of two wires (v - d and d)
	gDup   = 3 // the first operand of the preceding operation once more
)

func gArity(op int64) int {
	if op == gMax || op == gMin || op == gEq {
		return 2
	}
	return 1
}

func signedOf(x fr.Element) *big.Int {
	var b big.Int
	x.BigInt(&b)
	h := new(big.Int).Rsh(fr.Modulus(), 1)
	if b.Cmp(h) > 0 {
		b.Sub(&b, fr.Modulus())
	}
	return &b
}

func roundLimb(bits int64, rs uint) int64 {
	l := int64(rs)
	if l == 0 {
		return bits + 16 // automatic width: at most 17
	}
	return (bits + l - 1) / l * l
}

const (
	stMust = iota
	stEither
	stNever
)

// gadgetModel decides one gadget operation on integers.
func gadgetModel(op, bits, mode int64, rs uint, pow2 int64, v []fr.Element) (st int, outs []*big.Int) {
	one := big.NewInt(1)
	two := func(n int64) *big.Int { return new(big.Int).Lsh(one, uint(n)) }
	signed := func(d *big.Int, diff bool) int {
		// |d| < 2^bits is promised, [-2^b', 2^b') is what may be accepted. A
		// difference may be taken in either order.
		ab := new(big.Int).Abs(d)
		if ab.Cmp(two(bits)) < 0 {
			return stMust
		}
		lim := two(roundLimb(bits, rs))
		if d.Sign() >= 0 && d.Cmp(lim) >= 0 && !(diff && d.Cmp(lim) == 0) || d.Sign() < 0 && ab.Cmp(lim) > 0 {
			return stNever
		}
		return stEither
	}
	switch op {
	case gCheck:
		var u big.Int
		v[0].BigInt(&u)
		in := u.Cmp(two(bits)) < 0
		switch gadget.Mode(mode) {
		case gadget.Loose:
			if in {
				return stMust, nil
			}
			if u.Cmp(two(roundLimb(bits, rs))) >= 0 {
				return stNever, nil
			}
			return stEither, nil
		case gadget.TightForSmallAbs:
			if in {
				return stMust, nil
			}
			s := signedOf(v[0])
			if s.BitLen() < 200 {
				return stNever, nil
			}
			return stEither, nil
		default:
			if in {
				return stMust, nil
			}
			return stNever, nil
		}
	case gAbs, gIsPos:
		s := signedOf(v[0])
		st = signed(s, false)
		pos := big.NewInt(0)
		if s.Sign() >= 0 {
			pos = big.NewInt(1)
		}
		if op == gAbs {
			return st, []*big.Int{new(big.Int).Abs(s), pos}
		}
		return st, []*big.Int{pos}
	case gMax, gMin:
		a, b := signedOf(v[0]), signedOf(v[1])
		var d fr.Element
		d.Sub(&v[0], &v[1])
		df := signedOf(d)
		st = signed(df, true)
		if (df.Sign() >= 0) == (op == gMax) {
			return st, []*big.Int{a}
		}
		return st, []*big.Int{b}
	case gPow2:
		s := signedOf(v[0])
		if s.Sign() >= 0 && s.Cmp(big.NewInt(pow2)) < 0 {
			return stMust, []*big.Int{two(s.Int64())}
		}
		if s.BitLen() < 100 {
			return stNever, []*big.Int{nil}
		}
		return stEither, []*big.Int{nil}
	case gEq:
		r := big.NewInt(0)
		if v[0] == v[1] {
			r = one
		}
		return stMust, []*big.Int{r}
	}
	panic("op")
}

func init() {
	Register("gadget", func(s Spec) *Scn {
		sc := &Scn{}
		vals := make([]fr.Element, len(s.S))
		for i := range vals {
			vals[i] = FromHex(s.S[i])
		}
		for _, p := range s.Prog {
			for k := 0; k < gArity(p[0]); k++ {
				switch p[2] >> (4 * k) & 15 {
				case gWire:
					sc.NIn++
				case gLin:
					sc.NIn += 2
				}
			}
			switch p[0] {
			case gCheck:
			case gAbs:
				sc.NOut += 2
			default:
				sc.NOut++
			}
		}
		sc.Define = func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			gs := make([]*gadget.IntGadget, s.A[1])
			for i := range gs {
				gs[i] = gadget.New(api, s.RS, uint(s.A[0]))
			}
			sc.Costs = func() (r []uint) {
				for i := range gs {
					r = append(r, lookupCosts(gs[i])...)
				}
				return
			}
			var outs []frontend.Variable
			var prev frontend.Variable
			vi, ii := 0, 0
			for _, p := range s.Prog {
				g := gs[p[1]]
				var xs [2]frontend.Variable
				for k := 0; k < gArity(p[0]); k++ {
					switch p[2] >> (4 * k) & 15 {
					case gWire:
						xs[k] = in[ii]
						ii++
					case gLin:
						xs[k] = api.Sub(in[ii], in[ii+1])
						ii += 2
					case gDup:
						xs[k] = prev
					default:
						b := new(big.Int)
						vals[vi].BigInt(b)
						xs[k] = b
					}
					vi++
				}
				prev = xs[0]
				L := uint(p[3])
				switch p[0] {
				case gCheck:
					g.AssertBitLength(xs[0], L, gadget.Mode(p[4]))
				case gAbs:
					a, b := g.Abs(xs[0], L)
					outs = append(outs, a, b)
				case gIsPos:
					outs = append(outs, g.IsPositive(xs[0], L))
				case gMax:
					outs = append(outs, g.Max(xs[0], xs[1], L))
				case gMin:
					outs = append(outs, g.Min(xs[0], xs[1], L))
				case gPow2:
					outs = append(outs, g.QueryPowerOf2(xs[0]))
				case gEq:
					outs = append(outs, g.IsEq(xs[0], xs[1]))
				}
			}
			return outs
		}
		sc.Judge = func(in []fr.Element) Expect {
			// operand values follow the inputs actually given
			ex := Expect{Honest: MustAccept}
			var want []*big.Int
			var prev fr.Element
			vi, ii := 0, 0
			for _, p := range s.Prog {
				var v []fr.Element
				for k := 0; k < gArity(p[0]); k++ {
					x := vals[vi]
					switch p[2] >> (4 * k) & 15 {
					case gWire:
						x = in[ii]
						ii++
					case gLin:
						x.Sub(&in[ii], &in[ii+1])
						ii += 2
					case gDup:
						x = prev
					}
					vi++
					v = append(v, x)
				}
				prev = v[0]
				st, o := gadgetModel(p[0], p[3], p[4], s.RS, s.A[0], v)
				switch st {
				case stNever:
					ex.Honest, ex.AnyReject = MustReject, true
				case stEither:
					if ex.Honest == MustAccept {
						ex.Honest = Either
					}
				}
				want = append(want, o...)
			}
			ex.Check = func(o []fr.Element) string {
				for i := range want {
					if want[i] == nil {
						continue
					}
					if w := signedElem(want[i]); w != o[i] {
						return fmt.Sprintf("gadget result %d is %s, expected %s", i, Pretty(o[i]), want[i])
					}
				}
				return ""
			}
			return ex
		}
		return sc
	})
	gadgetCheck("C09", 40000, []int64{gCheck}, "a run draws a set of range checks (bits, mode, limb width, constraint system) and values around the bounds, executes the honest limb supplier and dishonest ones; oracle: interval membership on integers")
	gadgetCheck("C10", 30000, []int64{gPow2}, "a run draws a table size, a limb width and exponents in, around and outside the table; oracle: 2^e or rejection")
	gadgetCheck("C11", 30000, []int64{gAbs, gIsPos, gMax, gMin, gEq}, "a run draws a mix of sign, absolute value, minimum, maximum and equality operations on values around zero and the bounds; oracle: integer arithmetic")
}

func gadgetCheck(id string, quick int64, ops []int64, rule string) {
	add(&Check{ID: id, Quick: quick, Thorough: quick * 60, Rule: rule + "; non-trivial: a distinct (program, input) pair that exchanged advice and had faults injected",
		Real: circuitReal, Stub: circuitStub, Assume: circuitAssume,
		Run: func(w *Worker, r *Rng) *Found { return gadgetSession(w, r, ops) }})
}

// genNear draws a signed integer in ways that matter for a bound of 2^bits.
func genNear(r *Rng, bits int64, rs uint) *big.Int {
	one := big.NewInt(1)
	v := new(big.Int)
	switch r.Intn(11) {
	case 0:
		v.SetInt64(int64(r.Intn(4)))
	case 1:
		v.Lsh(one, uint(bits))
		v.Sub(v, big.NewInt(int64(r.Range(1, 3))))
	case 2:
		v.Lsh(one, uint(bits))
		v.Add(v, big.NewInt(int64(r.Range(0, 2))))
	case 3: // around the limb-rounded bound
		v.Lsh(one, uint(roundLimb(bits, rs)))
		v.Add(v, big.NewInt(int64(r.Range(-2, 2))))
	case 4: // in between
		v.Lsh(one, uint(int64(r.Intn(int(bits)+20))))
		v.Add(v, big.NewInt(int64(r.Range(-2, 2))))
	case 5: // multiple of 2^k just outside
		v.Lsh(one, uint(bits)+uint(r.Intn(30)))
	case 6, 7, 8: // random inside
		for v.BitLen() < int(bits) {
			v.Lsh(v, 32)
			v.Or(v, big.NewInt(int64(uint32(r.U64()))))
		}
		v.Rsh(v, uint(v.BitLen())-uint(r.Range(0, int(bits))))
	case 9: // fraction j / 2^k of the field
		var x fr.Element
		x.SetInt64(int64(r.Range(1, 6)))
		var h fr.Element
		h.SetUint64(2)
		h.Inverse(&h)
		k := r.Intn(20)
		for i := 0; i < k; i++ {
			x.Mul(&x, &h)
		}
		x.BigInt(v)
		return v
	default:
		v.SetInt64(int64(r.U64() >> uint(r.Intn(62))))
	}
	if r.Pct(30) {
		v.Neg(v)
	}
	return v
}

func gadgetSession(w *Worker, r *Rng, ops []int64) *Found {
	s, in := genGadget(r, ops)
	sc := Build(s)
	foreign := func(r *Rng) []fr.Element {
		if len(in) == 0 {
			return nil
		}
		in2 := append([]fr.Element(nil), in...)
		i := r.Intn(len(in))
		var d fr.Element
		switch r.Intn(4) {
		case 0:
			in2[i].Neg(&in2[i])
		case 1:
			d.SetOne()
			in2[i].Add(&in2[i], &d)
		case 2:
			in2[i] = in[r.Intn(len(in))]
		default:
			d.SetUint64(1)
			in2[i].Sub(&in2[i], &d)
		}
		return in2
	}
	if f := w.Session(r, sc, in, fopKnobs(), foreign); f != nil {
		return f
	}
	if realDue(r, &s, len(in) < len(s.S)) {
		return w.RealSample(r, sc, in)
	}
	return nil
}

// genGadget draws a program of integer gadget operations and its inputs.
func genGadget(r *Rng, ops []int64) (Spec, []fr.Element) {
	s := Spec{Kind: "gadget"}
	genConfig(r, &s)
	if r.Pct(6) {
		s.RS = 1
	}
	size := []int64{32, 64, 32, 64, 16, 8, 20, 33, 100, 1, 2, 5}[r.Intn(12)]
	ng := int64(1)
	if r.Pct(15) {
		ng = 2
	}
	s.A = []int64{size, ng}
	nop := 1
	if r.Pct(60) {
		nop = r.Range(2, 8)
	}
	// mostly in-range programs, so that several operations can interact
	wild := r.Pct(45)
	var in []fr.Element
	bitsPool := []int64{1, 2, 3, 5, 7, 8, 9, 11, 12, 15, 16, 17, 23, 24, 25, 31, 32, 48, 52, 53, 54, 57, 63, 64, 65, 100, 113, 128}
	var prev fr.Element
	var prevBits int64
	for n := 0; n < nop; n++ {
		op := ops[r.Intn(len(ops))]
		dup := n > 0 && r.Pct(20)
		bits := bitsPool[r.Intn(len(bitsPool))]
		if r.Pct(20) {
			bits = int64(r.Range(1, 140))
		}
		if op == gCheck && r.Pct(3) {
			bits = int64(r.Range(200, 253))
		}
		mode := int64([]gadget.Mode{gadget.Loose, gadget.TightForSmallAbs, gadget.TightForUnknownRange}[r.Intn(3)])
		if bits > 150 {
			mode = int64([]gadget.Mode{gadget.Loose, gadget.TightForUnknownRange}[r.Intn(2)])
		}
		if dup && r.Pct(70) {
			bits = prevBits + []int64{0, 0, 0, 0, 1, -1, 2, 8}[r.Intn(8)]
			if bits < 1 {
				bits = 1
			}
		}
		src := int64(0)
		var vs []fr.Element
		for k := 0; k < gArity(op); k++ {
			var v *big.Int
			switch op {
			case gPow2:
				switch r.Intn(8) {
				case 0, 1, 2, 3:
					v = big.NewInt(int64(r.Intn(int(size))))
				case 4:
					v = big.NewInt(size + int64(r.Range(-1, 2)))
				case 5:
					v = big.NewInt(-int64(r.Range(1, 70)))
				case 6:
					v = big.NewInt(size + int64(r.Intn(300)))
				default:
					v = genNear(r, bits, s.RS)
				}
				if !wild && (v.Sign() < 0 || v.Cmp(big.NewInt(size)) >= 0) {
					v = big.NewInt(int64(r.Intn(int(size))))
				}
			default:
				v = genNear(r, bits, s.RS)
				if !wild {
					if op == gCheck && v.Sign() < 0 {
						v.Neg(v)
					}
					lim := bits
					if gArity(op) == 2 {
						lim--
					}
					v = shrinkTo(v, int(lim))
				}
			}
			if k == 1 && r.Pct(40) {
				// related second operand
				d := genNear(r, bits, s.RS)
				if !wild {
					d = shrinkTo(d, int(bits))
				}
				if r.Pct(25) {
					d.SetInt64(0)
				}
				v = new(big.Int).Add(signedOf(vs[0]), d)
			}
			x := signedElem(new(big.Int).Mod(v, fr.Modulus()))
			if dup && k == 0 {
				x = prev
			}
			vs = append(vs, x)
			k4 := uint(4 * k)
			switch t := r.Intn(12); {
			case dup && k == 0:
				src |= gDup << k4
			case t < 1:
				src |= gConst << k4
			case t < 3:
				src |= gLin << k4
				var d fr.Element
				d.SetUint64(r.Bits(uint(r.Range(1, 60))))
				var a fr.Element
				a.Add(&x, &d)
				in = append(in, a, d)
			default:
				in = append(in, x)
			}
			s.S = append(s.S, Hex(x))
		}
		prev, prevBits = vs[0], bits
		s.Prog = append(s.Prog, []int64{op, int64(r.Intn(int(ng))), src, bits, mode})
	}
	return s, in
}

// shrinkTo keeps the leading bits of v that fit into the given length.
func shrinkTo(v *big.Int, bits int) *big.Int {
	if v.BitLen() <= bits {
		return v
	}
	return new(big.Int).Quo(v, new(big.Int).Lsh(big.NewInt(1), uint(v.BitLen()-bits)))
}
