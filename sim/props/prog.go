package props

import (
	"fmt"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
	"github.com/tumberger/zk-Location/float"
	"zkverif/ref"
	. "zkverif/sess"
)

// A float program: Spec.A = [fmt, limb width] per context; Spec.Prog entries
// are [op, ctx, a, b, c]; S holds the encodings of the operands loaded by
// pAlloc, pWire and pConst. Registers are numbered per context, booleans
// globally.
const (
	pWire = iota
	pAlloc
	pConst
	pAdd
	pSub
	pMul
	pDiv
	pSqrt
	pTrunc
	pFloor
	pCeil
	pNeg
	pAbs
	pLt
	pLe
	pGt
	pGe
	pSel // Select(bool a, reg b, reg c)
	pEq  // AssertIsEqual(reg a, reg b)
	pInt // ToInt(reg a)
)

var pNames = []string{"wire", "alloc", "const", "add", "sub", "mul", "div", "sqrt", "trunc", "floor", "ceil", "neg", "abs", "lt", "le", "gt", "ge", "select", "eq", "toint"}

type progState struct {
	regs  [][]uint64
	bools []bool
}

// progModel runs the program on the reference arithmetic.
func progModel(s Spec) (st progState, ex Expect, want []func(o []fr.Element) string, width []int) {
	nc := len(s.A) / 2
	st.regs = make([][]uint64, nc)
	ex.Honest = MustAccept
	si := 0
	for _, p := range s.Prog {
		c := p[1]
		f := ref.ByBits(int(s.A[2*c]))
		var v uint64
		isReg, isBool := true, false
		var b bool
		switch p[0] {
		case pWire, pAlloc, pConst:
			v = unhex(s.S[si])
			si++
		case pAdd, pSub, pMul, pDiv:
			v = eval(f, pNames[p[0]], st.regs[c][p[2]], st.regs[c][p[3]])
		case pSqrt, pTrunc, pFloor, pCeil, pNeg, pAbs:
			v = eval(f, pNames[p[0]], st.regs[c][p[2]], 0)
		case pLt, pLe, pGt, pGe:
			isReg, isBool = false, true
			b = cmpModel(f, pNames[p[0]], st.regs[c][p[2]], st.regs[c][p[3]])
		case pSel:
			if st.bools[p[2]] {
				v = st.regs[c][p[3]]
			} else {
				v = st.regs[c][p[4]]
			}
		case pEq:
			isReg = false
			x, y := st.regs[c][p[2]], st.regs[c][p[3]]
			if !(x == y || f.IsNaN(x) && f.IsNaN(y)) {
				ex.Honest, ex.AnyReject = MustReject, true
			}
		case pInt:
			isReg = false
			n, ok := f.Int(st.regs[c][p[2]])
			if !ok || uint(n.BitLen()) > intLimit(f) {
				ex.Vacuous = true
				ex.Honest = Either
				return
			}
			w := signedElem(n)
			want = append(want, func(o []fr.Element) string {
				if o[0] == w {
					return ""
				}
				return fmt.Sprintf("integer is %s, expected %s", Pretty(o[0]), Pretty(w))
			})
			width = append(width, 1)
		}
		if isReg {
			st.regs[c] = append(st.regs[c], v)
			want = append(want, fvCheck(f, v))
			width = append(width, 4)
		}
		if isBool {
			st.bools = append(st.bools, b)
			want = append(want, boolCheck(b))
			width = append(width, 1)
		}
	}
	return
}

func init() {
	Register("prog", func(s Spec) *Scn {
		sc := &Scn{}
		for _, p := range s.Prog {
			switch p[0] {
			case pWire:
				sc.NIn += 4
				sc.NOut += 4
			case pAlloc:
				sc.NIn++
				sc.NOut += 4
			case pLt, pLe, pGt, pGe, pInt:
				sc.NOut++
			case pEq:
			default:
				sc.NOut += 4
			}
		}
		sc.Define = func(api frontend.API, in []frontend.Variable) []frontend.Variable {
			nc := len(s.A) / 2
			ctxs := make([]float.Context, nc)
			for i := range ctxs {
				f := ref.ByBits(int(s.A[2*i]))
				ctxs[i] = float.NewContext(api, uint(s.A[2*i+1]), f.E, f.M)
			}
			sc.Costs = func() (r []uint) {
				for i := range ctxs {
					r = append(r, lookupCosts(ctxs[i].Gadget)...)
				}
				return
			}
			regs := make([][]float.FloatVar, nc)
			var bools, outs []frontend.Variable
			si, ii := 0, 0
			for _, p := range s.Prog {
				c := p[1]
				ctx := &ctxs[c]
				put := func(v float.FloatVar) {
					regs[c] = append(regs[c], v)
					outs = append(outs, flat(v)...)
				}
				switch p[0] {
				case pWire:
					put(float.FloatVar{Sign: in[ii], Exponent: in[ii+1], Mantissa: in[ii+2], IsAbnormal: in[ii+3]})
					ii += 4
					si++
				case pAlloc:
					put(ctx.NewFloat(in[ii]))
					ii++
					si++
				case pConst:
					put(ctx.NewConstant(unhex(s.S[si])))
					si++
				case pAdd, pSub, pMul, pDiv:
					put(applyOp(ctx, pNames[p[0]], regs[c][p[2]], regs[c][p[3]]))
				case pSqrt, pTrunc, pFloor, pCeil, pNeg, pAbs:
					put(applyOp(ctx, pNames[p[0]], regs[c][p[2]], float.FloatVar{}))
				case pLt, pLe, pGt, pGe:
					b := applyCmp(ctx, pNames[p[0]], regs[c][p[2]], regs[c][p[3]])
					bools = append(bools, b)
					outs = append(outs, b)
				case pSel:
					put(ctx.Select(bools[p[2]], regs[c][p[3]], regs[c][p[4]]))
				case pEq:
					ctx.AssertIsEqual(regs[c][p[2]], regs[c][p[3]])
				case pInt:
					outs = append(outs, ctx.ToInt(regs[c][p[2]]))
				}
			}
			return outs
		}
		sc.Judge = func(in []fr.Element) Expect {
			_, ex, want, width := progModel(s)
			if ex.Vacuous {
				return ex
			}
			ex.Check = func(o []fr.Element) string {
				k := 0
				for i := range want {
					if d := want[i](o[k : k+width[i]]); d != "" {
						return fmt.Sprintf("step output %d: %s", i, d)
					}
					k += width[i]
				}
				return ""
			}
			return ex
		}
		return sc
	})
	add(&Check{ID: "C12", Quick: 12000, Thorough: 720000, Real: circuitReal, Stub: circuitStub, Assume: circuitAssume,
		Rule: "a run draws a program of 2 to 14 float operations over its own results in one or two contexts (formats and limb widths mixed), executes the fault-free prover and seeded fault plans; oracle: every intermediate equals the IEEE model; non-trivial: a distinct (program, input) pair that exchanged advice and had faults injected",
		Run: func(w *Worker, r *Rng) *Found {
			s, in := genProg(r, 14)
			return progSession(w, r, s, in)
		}})
}

func progInputs(s Spec) []fr.Element {
	var in []fr.Element
	si := 0
	for _, p := range s.Prog {
		f := ref.ByBits(int(s.A[2*p[1]]))
		switch p[0] {
		case pWire:
			in = append(in, operandInputs(f, srcWire, unhex(s.S[si]))...)
			si++
		case pAlloc:
			in = append(in, operandInputs(f, srcAlloc, unhex(s.S[si]))...)
			si++
		case pConst:
			si++
		}
	}
	return in
}

// genProg draws a program. The draw follows the model, so that operations
// which need a moderate integer only appear where the value is one.
func genProg(r *Rng, maxOps int) (Spec, []fr.Element) {
	s := Spec{Kind: "prog"}
	genConfig(r, &s)
	nc := 1
	if r.Pct(25) {
		nc = 2
	}
	for c := 0; c < nc; c++ {
		fm := int64(genFmt(r, true))
		rs := int64(s.RS)
		if c > 0 && r.Bool() {
			var t Spec
			genConfig(r, &t)
			rs = int64(t.RS)
		}
		s.A = append(s.A, fm, rs)
	}
	s.Fmt = int(s.A[0])
	load := func(c int64, bits uint64) {
		op := int64(pWire)
		switch k := r.Intn(10); {
		case k < 3:
			op = pAlloc
		case k < 5:
			op = pConst
		}
		s.Prog = append(s.Prog, []int64{op, c, 0, 0, 0})
		s.S = append(s.S, hexU(bits))
	}
	tame := r.Pct(50) // values around one: long chains keep information
	gen := func(c int64) uint64 {
		f := ref.ByBits(int(s.A[2*c]))
		if tame {
			return mk(f, r.U64()&1, f.Bias()+int64(r.Range(-4, 6)), sparseMan(r, f))
		}
		return GenBits(r, f)
	}
	for c := 0; c < nc; c++ {
		for k := r.Range(1, 3); k > 0; k-- {
			load(int64(c), gen(int64(c)))
		}
	}
	n := r.Range(2, maxOps)
	// swarm: a random subset of operations per run
	pool := []int64{pAdd, pSub, pMul, pDiv, pSqrt, pTrunc, pFloor, pCeil, pNeg, pAbs, pLt, pLe, pGt, pGe, pSel, pEq, pInt}
	var ops []int64
	for _, o := range pool {
		if r.Pct(55) {
			ops = append(ops, o)
		}
	}
	ops = append(ops, pAdd)
	for k := 0; k < n; k++ {
		st, _, _, _ := progModel(s)
		c := int64(r.Intn(nc))
		f := ref.ByBits(int(s.A[2*c]))
		nr := len(st.regs[c])
		reg := func() int64 {
			if r.Pct(50) {
				return int64(nr - 1 - r.Intn(min(nr, 3)))
			}
			return int64(r.Intn(nr))
		}
		op := ops[r.Intn(len(ops))]
		if r.Pct(8) {
			load(c, gen(c))
			continue
		}
		a, b, d := reg(), reg(), reg()
		switch op {
		case pSel:
			if len(st.bools) == 0 {
				op = pLt
			} else {
				a = int64(r.Intn(len(st.bools)))
			}
		case pEq:
			x, y := st.regs[c][a], st.regs[c][b]
			if (x == y) || f.IsNaN(x) && f.IsNaN(y) || r.Pct(3) {
				break
			}
			b = a
		case pInt:
			nn, ok := f.Int(st.regs[c][a])
			if !ok || uint(nn.BitLen()) > intLimit(f) {
				op = pFloor
			}
		}
		s.Prog = append(s.Prog, []int64{op, c, a, b, d})
	}
	return s, progInputs(s)
}

func progSession(w *Worker, r *Rng, s Spec, in []fr.Element) *Found {
	sc := Build(s)
	foreign := func(r *Rng) []fr.Element {
		t := s
		t.S = append([]string(nil), s.S...)
		if len(t.S) == 0 {
			return nil
		}
		i := r.Intn(len(t.S))
		b := unhex(t.S[i])
		wd := uint(32)
		for c := 0; c < len(s.A); c += 2 {
			wd = min(wd, ref.ByBits(int(s.A[c])).Width())
		}
		switch r.Intn(3) {
		case 0:
			b ^= 1
		case 1:
			b ^= 1 << (wd - 1)
		default:
			b ^= 1 << uint(r.Intn(int(wd)))
		}
		t.S[i] = hexU(b)
		return progInputs(t)
	}
	kn := fopKnobs()
	kn.Attempts = 16
	if f := w.Session(r, sc, in, kn, foreign); f != nil {
		return f
	}
	consts := false
	for _, p := range s.Prog {
		consts = consts || p[0] == pConst
	}
	if realDue(r, &s, consts) {
		return w.RealSample(r, sc, in)
	}
	return nil
}
