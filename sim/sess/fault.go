package sess

import (
	"math/big"
	"strings"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"zkverif/engine"
)

// Fault changes one answer on the advice channel. The new value is a function
// of the honest answer at that point and the parameters, so a plan replays
// exactly.
type Fault struct {
	Call, Slot int
	Kind       string
	K          int
	D          int64
	Val        fr.Element // for "set"
}

// Plan is a fault plan for one session.
type Plan struct {
	Faults []Fault
	// Base, when set, freezes answers: calls with index in [FreezeFrom,
	// FreezeTo) are answered from this transcript (a stale or foreign session)
	// unless FreezeMask leaves them out.
	Base                 [][]fr.Element
	FreezeFrom, FreezeTo int
	FreezeSeed           uint64 // 0: all; else calls with odd hash only
	// Delta, for repairs: add to one slot of the frozen transcript.
	DCall, DSlot int
	Delta        fr.Element
	UseDelta     bool
	// Resume: a hint that fails is answered with zeros instead of ending the
	// prover (a dishonest prover need not run the honest hint).
	Resume bool
}

// adv implements engine.Advisor.
type adv struct {
	plan   *Plan
	outs   [][]fr.Element // answers used
	honest [][]fr.Element // honest answers given the preceding ones
	ok     []bool         // whether an honest answer existed
	last   map[string][]fr.Element
	fired  []int // fault indices that changed something
	frozen int
	keep   bool
	nout   []int
	// protect names hints that are always answered honestly (their dishonest
	// answers are a listed finding)
	protect map[string]bool
}

func (a *adv) reset(p *Plan) {
	a.plan = p
	a.outs = a.outs[:0]
	a.honest = a.honest[:0]
	a.ok = a.ok[:0]
	a.fired = a.fired[:0]
	a.frozen = 0
	a.last = nil
}

func mix(a, b uint64) uint64 {
	x := a ^ b*0x9e3779b97f4a7c15
	return splitmix(&x)
}

func (a *adv) Answer(idx int, name string, in []*big.Int, inC []bool, nout int, honest []fr.Element, err error) []fr.Element {
	p := a.plan
	res := honest
	changed := false
	if a.protect[name] {
		p = nil
	}
	if p != nil {
		if res == nil && p.Resume {
			res = make([]fr.Element, nout)
			changed = true
		}
		if l := modularLimbs(name, in, inC, nout); l != nil {
			if !sameElems(l, res) {
				res = l
				changed = true
			}
		}
		if p.Base != nil && idx >= p.FreezeFrom && idx < p.FreezeTo && idx < len(p.Base) && (p.FreezeSeed == 0 || mix(p.FreezeSeed, uint64(idx))&1 == 1) {
			if honest == nil || len(p.Base[idx]) == len(honest) {
				res = append([]fr.Element(nil), p.Base[idx]...)
				if !sameElems(res, honest) {
					a.frozen++
				}
				changed = true
			}
		}
		if p.UseDelta && p.DCall == idx && res != nil && p.DSlot < len(res) {
			if !changed {
				res = append([]fr.Element(nil), res...)
			}
			res[p.DSlot].Add(&res[p.DSlot], &p.Delta)
			changed = true
		}
		for fi := range p.Faults {
			f := &p.Faults[fi]
			if f.Call != idx {
				continue
			}
			if res == nil {
				// the honest hint failed: answer from nothing
				if f.Kind != "set" {
					continue
				}
				res = make([]fr.Element, nout)
				changed = true
			}
			if f.Slot >= len(res) {
				continue
			}
			if !changed {
				res = append([]fr.Element(nil), res...)
				changed = true
			}
			old := res[f.Slot]
			a.apply(f, name, in, inC, honest, res)
			if res[f.Slot] != old {
				a.fired = append(a.fired, fi)
			}
		}
	}
	a.outs = append(a.outs, res)
	a.honest = append(a.honest, honest)
	if p != nil && len(p.Faults) > 0 {
		if a.last == nil {
			a.last = map[string][]fr.Element{}
		}
		a.last[name] = honest
	}
	if !changed && err != nil {
		return nil
	}
	return res
}

// modularLimbs is what a prover with an unusual value answers to a range check:
// the limbs of the scaled value in the field, where the honest hint computes
// over the integers. It is nil where the call does not look like
// (bits, limb size, value, scale) -> limbs.
func modularLimbs(name string, in []*big.Int, inC []bool, nout int) []fr.Element {
	if !strings.HasSuffix(name, "DecomposeHint") || len(in) != 4 || !inC[0] || !inC[1] || !in[0].IsUint64() || !in[1].IsUint64() {
		return nil
	}
	bits, size := in[0].Uint64(), uint(in[1].Uint64())
	if bits > 4096 || size == 0 || size > 64 || in[2].BitLen()+in[3].BitLen() <= 253 {
		return nil
	}
	t := new(big.Int).Mul(in[2], in[3])
	t.Mod(t, fr.Modulus())
	if t.BitLen() > int(size)*nout {
		return nil
	}
	r := make([]fr.Element, nout)
	m := new(big.Int)
	mask := new(big.Int).Lsh(big.NewInt(1), size)
	mask.Sub(mask, big.NewInt(1))
	for i := range r {
		m.And(t, mask)
		r[i].SetBigInt(m)
		t.Rsh(t, size)
	}
	return r
}

func sameElems(a, b []fr.Element) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var pow2tab [260]fr.Element
var invPow2tab [260]fr.Element

func init() {
	pow2tab[0].SetOne()
	invPow2tab[0].SetOne()
	var half fr.Element
	half.SetUint64(2)
	half.Inverse(&half)
	for i := 1; i < 260; i++ {
		pow2tab[i].Double(&pow2tab[i-1])
		invPow2tab[i].Mul(&invPow2tab[i-1], &half)
	}
}

// FaultKinds lists the elementary fault kinds on the advice channel.
var FaultKinds = []string{"drop", "one", "small", "negate", "offset", "offset_pow2", "bitflip", "complement",
	"double", "halve", "fraction", "fraction_of_input", "multiple_of_input", "stale", "swap", "copy_input",
	"random_field", "random_small", "table_alias"}

func (a *adv) apply(f *Fault, name string, in []*big.Int, inC []bool, honest, res []fr.Element) {
	x := &res[f.Slot]
	var t fr.Element
	switch f.Kind {
	case "set":
		*x = f.Val
	case "drop":
		x.SetZero()
	case "one":
		x.SetOne()
	case "small":
		x.SetInt64(f.D)
	case "negate":
		x.Neg(x)
	case "offset":
		t.SetInt64(f.D)
		x.Add(x, &t)
	case "offset_pow2":
		t = pow2tab[f.K%254]
		if f.D < 0 {
			t.Neg(&t)
		}
		x.Add(x, &t)
	case "bitflip":
		var b big.Int
		x.BigInt(&b)
		k := f.K % 254
		b.SetBit(&b, k, b.Bit(k)^1)
		x.SetBigInt(&b)
	case "complement":
		t.SetOne()
		x.Sub(&t, x)
	case "double":
		x.Double(x)
	case "halve":
		x.Mul(x, &invPow2tab[1])
	case "fraction":
		// + D / 2^K in the field
		t.SetInt64(f.D)
		t.Mul(&t, &invPow2tab[f.K%254])
		x.Add(x, &t)
	case "fraction_of_input":
		if len(in) > 0 {
			var y fr.Element
			y.SetBigInt(in[f.K%len(in)])
			if !y.IsZero() {
				y.Inverse(&y)
				t.SetInt64(f.D)
				t.Mul(&t, &y)
				x.Add(x, &t)
			}
		}
	case "multiple_of_input":
		if len(in) > 0 {
			var y fr.Element
			y.SetBigInt(in[f.K%len(in)])
			t.SetInt64(f.D)
			t.Mul(&t, &y)
			x.Add(x, &t)
		}
	case "stale":
		if l := a.last[name]; f.Slot < len(l) {
			*x = l[f.Slot]
		}
	case "swap":
		j := f.K % len(res)
		res[f.Slot], res[j] = res[j], res[f.Slot]
	case "copy_input":
		if len(in) > 0 {
			x.SetBigInt(in[f.K%len(in)])
		}
	case "random_field":
		r := NewRng(uint64(f.D))
		var b [32]byte
		for i := range b {
			b[i] = byte(r.U64())
		}
		x.SetBytes(b[:])
	case "random_small":
		r := NewRng(uint64(f.D))
		x.SetUint64(r.Bits(uint(f.K%64) + 1))
	case "table_alias":
		// an answer y for which in*2^K + y equals another entry of a table
		// whose entries pack an index above K bits: j*2^K + 2^j
		if len(in) > 0 {
			var y fr.Element
			y.SetBigInt(in[0])
			t.SetInt64(f.D)
			t.Sub(&t, &y)
			t.Mul(&t, &pow2tab[f.K%254])
			if f.D >= 0 && f.D < 250 {
				x.Add(&pow2tab[f.D], &t)
			}
		}
	default:
		panic("unknown fault kind " + f.Kind)
	}
}

var _ engine.Advisor = (*adv)(nil)
