package props

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/constraint/solver"
	"zkverif/ref"
	. "zkverif/sess"
)

// C22: malformed inputs end in a proof or an error. Every batch of items runs
// in a process of its own with little memory, so that a panic in a hint, an
// exhausted memory or an endless loop is seen from outside.

type malItem struct {
	Spec Spec     `json:"spec"`
	In   []string `json:"in"`
	Real bool     `json:"real,omitempty"`
}

type malRes struct {
	Bad     []string       `json:"bad"` // per item: "" or what happened
	Digest  []uint64       `json:"digest"`
	Calls   int64          `json:"calls"`
	Steps   int64          `json:"steps"`
	Reals   int64          `json:"reals"`
	Rejects int64          `json:"rejects"`
	Accepts int64          `json:"accepts"`
	MaxBits int            `json:"max_bits"`
	Hints   map[string]int `json:"hints"`
}

const malMemory = 5 << 30

func runMal(in *os.File) any {
	var items []malItem
	if err := json.NewDecoder(in).Decode(&items); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	lim := syscall.Rlimit{Cur: malMemory, Max: malMemory}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	res := &malRes{Hints: map[string]int{}}
	for _, it := range items {
		var e []fr.Element
		for _, h := range it.In {
			e = append(e, FromHex(h))
		}
		sc := Build(it.Spec)
		bad := ""
		w := NewWorker()
		w.OnHint(func(name string, f solver.Hint, ins, outs []*big.Int) error {
			res.Calls++
			var pan string
			err := func() (err error) {
				defer func() {
					if r := recover(); r != nil {
						pan = fmt.Sprint(r)
						err = fmt.Errorf("panic: %v", r)
					}
				}()
				return f(fr.Modulus(), ins, outs)
			}()
			short := name[strings.LastIndex(name, "/")+1:]
			res.Hints[short]++
			if pan != "" && bad == "" {
				bad = fmt.Sprintf("%s panics (%s) for inputs %v", short, cutErr(pan), hexInts(ins))
			}
			for _, o := range outs {
				if n := o.BitLen(); n > res.MaxBits {
					res.MaxBits = n
				}
				if o.BitLen() > 1<<22 && bad == "" {
					bad = fmt.Sprintf("%s returns a number of %d bits", short, o.BitLen())
				}
			}
			return err
		})
		o := w.Exec(sc, e, nil, false, 0, nil)
		res.Steps += w.Cov.Steps
		if o.Accepted {
			res.Accepts++
		} else {
			res.Rejects++
		}
		if bad != "" {
			// reachable only if the solver gets there before it finds the
			// assignment wrong: the real one decides
			res.Reals++
			c, err := RealCompile(sc, nil, true)
			if err != nil {
				bad = ""
			} else if r := c.Solve(malBigs(e), nil, nil, RealOpts{FreeOut: true, NbTasks: 1}); !strings.Contains(r.Err, "panic") && !strings.Contains(bad, "bits") {
				bad = ""
			}
		} else if it.Real {
			res.Reals++
			c, err := RealCompile(sc, nil, true)
			if err == nil {
				r := c.Solve(malBigs(e), nil, nil, RealOpts{FreeOut: true, NbTasks: 3})
				if strings.Contains(r.Err, "panic") {
					bad = cutErr(r.Err)
				}
			}
		}
		res.Bad = append(res.Bad, bad)
		res.Digest = append(res.Digest, Hash64(fmt.Sprint(o.Accepted, len(o.Viol), w.TranscriptHash())))
	}
	return res
}

func malBigs(e []fr.Element) (r []*big.Int) {
	for i := range e {
		b := new(big.Int)
		e[i].BigInt(b)
		r = append(r, b)
	}
	return
}

// judgeMal runs one item alone.
func judgeMal(it malItem) string {
	var res malRes
	if err := runChild("mal", []malItem{it}, &res, 100*time.Second); err != nil {
		return "the prover's process ends without a result: " + cutErr(err.Error())
	}
	return res.Bad[0]
}

func malFound(it malItem, detail string) *Found {
	b, _ := json.Marshal(it)
	return &Found{Class: "crash", Detail: detail, Spec: Spec{Kind: "malitem", FT: "-", M: map[string]string{"item": string(b)}}}
}

// malValue draws an assignment no honest client would make.
func malValue(r *Rng, orig fr.Element, width uint) fr.Element {
	var b big.Int
	one := big.NewInt(1)
	switch r.Intn(12) {
	case 0: // any field element
		for i := 0; i < 4; i++ {
			b.Lsh(&b, 64)
			b.Or(&b, new(big.Int).SetUint64(r.U64()))
		}
	case 1: // small negative
		b.SetInt64(-int64(r.Bits(uint(r.Range(1, 62)))))
	case 2: // around a power of two
		b.Lsh(one, uint(r.Intn(254)))
		b.Add(&b, big.NewInt(int64(r.Range(-3, 3))))
	case 3: // the right encoding with bits above it
		orig.BigInt(&b)
		b.Add(&b, new(big.Int).Lsh(big.NewInt(int64(r.Range(1, 9))), width+uint(r.Intn(8))))
	case 4: // the upper end of the field
		b.Sub(fr.Modulus(), big.NewInt(int64(r.Range(1, 5))))
	case 5: // fractions
		var x, d fr.Element
		x.SetInt64(int64(r.Range(-9, 9)))
		d.SetUint64(uint64(r.Range(2, 1000)))
		if r.Bool() {
			d.SetUint64(1 << uint(r.Intn(63)))
		}
		x.Div(&x, &d)
		return x
	case 6: // middle of the field
		b.Rsh(fr.Modulus(), 1)
		b.Add(&b, big.NewInt(int64(r.Range(-2, 2))))
	case 7: // a chosen low word under arbitrary high bits
		for i := 0; i < 3; i++ {
			b.Lsh(&b, 64)
			b.Or(&b, new(big.Int).SetUint64(r.U64()))
		}
		b.Rsh(&b, 3)
		b.Lsh(&b, 64)
		b.Or(&b, new(big.Int).SetUint64(r.Bits(uint(r.Range(1, 64)))))
	case 8: // 64-bit pattern
		b.SetUint64(r.U64())
	case 9: // a valid encoding of something odd
		f := ref.ByBits(64)
		if width == 32 {
			f = ref.ByBits(32)
		}
		switch r.Intn(5) {
		case 0:
			b.SetUint64(f.Inf())
		case 1:
			b.SetUint64(f.Inf() + 1 + r.Bits(20))
		case 2:
			b.SetUint64(f.SignBit() | f.Inf())
		case 3:
			b.SetUint64(f.SignBit())
		default:
			b.SetUint64(r.Bits(width))
		}
	case 10:
		b.SetUint64(r.Bits(uint(r.Range(1, 10))))
	default:
		orig.BigInt(&b)
		b.Xor(&b, new(big.Int).Lsh(one, uint(r.Intn(70))))
	}
	b.Mod(&b, fr.Modulus())
	var x fr.Element
	x.SetBigInt(&b)
	return x
}

func genMal(r *Rng) malItem {
	ft := []string{"r1cs", "scs"}[r.Intn(2)]
	fm := []int{32, 64}[r.Intn(2)]
	f := ref.ByBits(fm)
	var s Spec
	var in []fr.Element
	switch k := r.Intn(100); {
	case k < 30:
		s = Spec{Kind: "fop", Fmt: fm}
		genConfig(r, &s)
		ops := []string{"add", "sub", "mul", "div", "sqrt", "trunc", "floor", "ceil", "toint", "lt", "le", "gt", "ge", "alloc"}
		s.Op = ops[r.Intn(len(ops))]
		var bits []uint64
		for i := 0; i < fopArity[s.Op]; i++ {
			b := GenBits(r, f)
			bits = append(bits, b)
			s.A = append(s.A, srcAlloc)
			s.S = append(s.S, hexU(b))
		}
		in = fopInputs(s, bits)
	case k < 60:
		s, _ = genProg(r, 10)
		for i := range s.Prog {
			switch {
			case s.Prog[i][0] == pWire:
				s.Prog[i][0] = pAlloc
			case s.Prog[i][0] == pFloor && r.Pct(40):
				s.Prog[i][0] = pInt
			}
		}
		s.Prog = fixRegs(s)
		in = progInputs(s)
	case k < 80:
		s, in = genGadget(r, []int64{gCheck, gAbs, gIsPos, gMax, gMin, gPow2, gEq})
	case k < 86:
		s = Spec{Kind: "trig", Op: []string{"atan", "sin"}[r.Intn(2)], Fmt: fm, FT: ft, RS: uint(r.Intn(9)), A: []int64{srcAlloc}}
		b := genTrigOperand(r, f, s.Op)
		s.S = []string{hexU(b)}
		in = operandInputs(f, srcAlloc, b)
	case k < 94:
		s = Spec{Kind: "locstage", Op: []string{"ijk", "r", "face", "hex"}[r.Intn(4)], Fmt: fm, FT: ft}
		in = genStageInputs(r, f, s.Op, r.Intn(16))
	case k < 98:
		s = Spec{Kind: "locfull", Op: "full", Fmt: fm, FT: ft}
		in = genStageInputs(r, f, "full", r.Intn(16))
	default:
		s = Spec{Kind: "precomp", Fmt: fm, FT: ft}
		for i := 0; i < 4; i++ {
			var e fr.Element
			e.SetUint64(GenBits(r, f))
			in = append(in, e)
		}
	}
	n := 0
	for i := range in {
		if n == 0 && i == len(in)-1 || r.Pct(40) {
			in[i] = malValue(r, in[i], uint(fm))
			n++
		}
	}
	it := malItem{Spec: s, Real: r.Intn(60) == 0}
	if s.RS > 9 || s.Kind == "locfull" {
		it.Real = false
	}
	for i := range in {
		it.In = append(it.In, Hex(in[i]))
	}
	return it
}

// fixRegs drops the instructions that refer to registers which no longer exist.
func fixRegs(s Spec) (out [][]int64) {
	regs := make([]int64, len(s.A)/2)
	bools := int64(0)
	for _, p := range s.Prog {
		c := p[1]
		q := append([]int64(nil), p...)
		clamp := func(i int) {
			if q[i] >= regs[c] {
				q[i] = regs[c] - 1
			}
		}
		switch p[0] {
		case pWire, pAlloc, pConst:
			regs[c]++
		case pLt, pLe, pGt, pGe:
			clamp(2)
			clamp(3)
			bools++
		case pEq:
			clamp(2)
			clamp(3)
		case pInt:
			clamp(2)
		case pSel:
			if bools == 0 {
				continue
			}
			if q[2] >= bools {
				q[2] = bools - 1
			}
			clamp(3)
			clamp(4)
			regs[c]++
		default:
			clamp(2)
			clamp(3)
			regs[c]++
		}
		out = append(out, q)
	}
	return
}

const malBatch = 40

func malRun(w *Worker, r *Rng) *Found {
	var items []malItem
	for i := 0; i < malBatch; i++ {
		items = append(items, genMal(r))
	}
	var res malRes
	err := runChild("mal", items, &res, 200*time.Second)
	w.Cov.Sessions++
	bad := -1
	detail := ""
	if err != nil {
		// find the item that ends the process
		for i := range items {
			if d := judgeMal(items[i]); d != "" {
				bad, detail = i, d
				break
			}
		}
		if bad < 0 {
			w.Cov.Unconfirmed++
			return nil
		}
	} else {
		for i, b := range res.Bad {
			if b != "" {
				bad, detail = i, b
				break
			}
		}
	}
	if bad >= 0 {
		it := items[bad]
		it, d := minMal(it)
		if d == "" {
			w.Cov.Unconfirmed++
			return nil
		}
		_ = detail
		return malFound(it, d)
	}
	w.Cov.Execs += int64(len(items))
	w.Cov.HintCalls += res.Calls
	w.Cov.Steps += res.Steps
	w.Cov.RealRuns += res.Reals
	w.Cov.RealAgree += res.Reals
	w.Cov.Faulted += int64(len(items))
	w.Cov.Rejected += res.Rejects
	w.Cov.HonestOK += res.Accepts
	w.Cov.Faults["malformed assignment"] += int64(len(items))
	for i := range items {
		h := Hash64(fmt.Sprint(items[i]))
		w.Cov.Distinct[h] = struct{}{}
		w.Cov.Nontrivial[h] = struct{}{}
		w.Cov.Probes["circuit "+items[i].Spec.Kind+" "+items[i].Spec.Op]++
	}
	for k, v := range res.Hints {
		w.Cov.Probes["hint "+k] += int64(v)
	}
	if len(w.Cov.Samples) < 2 {
		b, _ := json.Marshal(items[0])
		w.Cov.Samples = append(w.Cov.Samples, cutErr(string(b)))
	}
	w.Note(Hash64(fmt.Sprint(res.Digest)), true)
	return nil
}

// minMal simplifies the inputs and the program while the item still fails.
func minMal(it malItem) (malItem, string) {
	best := judgeMal(it)
	if best == "" {
		return it, ""
	}
	slow := strings.Contains(best, "did not finish")
	budget := 24
	if slow {
		budget = 0
	}
	for i := range it.In {
		for _, h := range []string{"0", "1"} {
			if budget == 0 || it.In[i] == h {
				continue
			}
			budget--
			k := it
			k.In = append([]string(nil), it.In...)
			k.In[i] = h
			if d := judgeMal(k); d != "" {
				it, best = k, d
				break
			}
		}
	}
	return it, best
}

func init() {
	childKinds["mal"] = runMal
	Register("malitem", func(s Spec) *Scn { panic("malitem is not a circuit") })
	replayers["malitem"] = func(w *Worker, f *Found) *Found {
		var it malItem
		if err := json.Unmarshal([]byte(f.Spec.M["item"]), &it); err != nil {
			panic(err)
		}
		d := judgeMal(it)
		if d == "" {
			return nil
		}
		return malFound(it, d)
	}
	add(&Check{ID: "C22", Quick: 1600, Thorough: 100000, Real: circuitReal, Stub: circuitStub,
		Assume: []string{"a prover gets 5 GB of address space and 100 seconds; an attempt that needs more counts as a crash"},
		Run:    malRun,
		Rule:   "a run draws 40 circuits (single operations, programs, integer gadgets, trigonometry, stages of the location circuit, the complete one) with malformed assignments by the seed and proves each in a process with little memory, continuing after violated constraints; a panic is confirmed on the real solver with one worker, since it counts only if the solver gets there; oracle: every attempt ends with success or an error; non-trivial: every item, its inputs being corrupted"})
}
