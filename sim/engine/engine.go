// Package engine is the simulator's circuit world: an implementation of
// gnark's frontend.API that executes the code under test directly over the
// BN254 scalar field. Every constraint the code emits is evaluated (and
// recorded when it does not hold), every lookup argument is decided by set
// membership, and every hint call goes through the simulated advice channel,
// which is where the simulator injects faults.
package engine

import (
	"fmt"
	"math/big"
	"reflect"
	"sync"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/frontendtype"
	"github.com/consensys/gnark/std/logderivarg"
)

// V is a wire (or constant) with its value.
type V struct {
	X     fr.Element
	Const bool
	Bool  bool // marked boolean: gnark emits no constraint for it any more
}

// ViolKind says which sort of constraint does not hold.
type ViolKind uint8

const (
	VEq ViolKind = iota
	VLookup
	VBool
	VOther
	VHint
)

// Violation is one unsatisfied constraint.
type Violation struct {
	Kind  ViolKind
	Ord   int        // ordinal among all constraints of its kind
	Val   fr.Element // VEq: residual a-b; VLookup: queried value; VBool: value
	Table int        // VLookup: table index
	Msg   string
}

// Call is one recorded hint call.
type Call struct {
	Name string
	In   []fr.Element
	InC  []bool
	Out  []fr.Element
	Def  bool // made while running deferred functions
}

// Advisor intercepts the answers to a hint call. honest may be nil with err
// set when the library's hint failed. It returns the answers to use.
type Advisor interface {
	Answer(idx int, name string, in []*big.Int, inConst []bool, nout int, honest []fr.Element, err error) []fr.Element
}

// E is one simulated circuit execution.
type E struct {
	// OnHint, if set, runs the hint instead of a plain call.
	OnHint    func(name string, f solver.Hint, ins, outs []*big.Int) error
	FT        frontendtype.Type
	Advisor   Advisor
	StopFirst bool // stop at the first violation
	Record    bool // keep Calls

	Viol      []Violation
	Calls     []Call
	NCall     int
	HintErr   error
	HintPanic string

	neq, nlook, nbool, ntab int
	Tables                  [][]fr.Element // only when Record
	kv                      map[any]any
	deferred                []func(frontend.API) error
	inDefer                 bool
	slab                    []V
	si                      int
	slabs                   [][]V
	cur                     int
	ints                    []*big.Int
	Steps                   int // API calls made
	Yield                   func()
	MaxViol                 int // stop after this many violations (0: unlimited)
	// Watch one constraint: its value is recorded even when it holds.
	WKind ViolKind
	WOrd  int // 0: none
	WVal  fr.Element
	WSeen bool
	Trace func(op string, vals ...fr.Element)
}

type stop struct{}

var modulus = fr.Modulus()

// Modulus of the simulated field.
func Modulus() *big.Int { return modulus }

var smallBig [1 << 14]*big.Int

func init() {
	for i := range smallBig {
		smallBig[i] = big.NewInt(int64(i))
	}
}

var countHintPtr = func() uintptr {
	hs := logderivarg.GetHints()
	return reflect.ValueOf(hs[0]).Pointer()
}()

// IsCountHint tells whether f is the lookup argument's internal counting hint.
func IsCountHint(f solver.Hint) bool { return reflect.ValueOf(f).Pointer() == countHintPtr }

var hintNames sync.Map // code pointer -> name, a cache of a pure function

func hintName(f solver.Hint) string {
	p := reflect.ValueOf(f).Pointer()
	if n, ok := hintNames.Load(p); ok {
		return n.(string)
	}
	n := solver.GetHintName(f)
	hintNames.Store(p, n)
	return n
}

func New() *E { return &E{} }

// Reset prepares e for another execution, keeping its arena.
func (e *E) Reset() {
	e.Viol = e.Viol[:0]
	e.Calls = e.Calls[:0]
	e.NCall = 0
	e.HintErr = nil
	e.HintPanic = ""
	e.neq, e.nlook, e.nbool, e.ntab = 0, 0, 0, 0
	e.Tables = nil
	e.kv = nil
	e.deferred = e.deferred[:0]
	e.inDefer = false
	e.cur = 0
	e.si = 0
	e.slab = nil
	e.Steps = 0
	e.WSeen = false
}

func (e *E) alloc() *V {
	if e.slab == nil || e.si == len(e.slab) {
		if e.cur == len(e.slabs) {
			e.slabs = append(e.slabs, make([]V, 4096))
		}
		e.slab = e.slabs[e.cur]
		e.cur++
		e.si = 0
	}
	v := &e.slab[e.si]
	e.si++
	v.Const = false
	v.Bool = false
	return v
}

// Wire makes a non-constant variable.
func (e *E) Wire(x fr.Element) *V {
	v := e.alloc()
	v.X = x
	return v
}

func (e *E) in(x frontend.Variable) *V {
	switch t := x.(type) {
	case *V:
		return t
	case int:
		v := e.alloc()
		v.Const = true
		v.X.SetInt64(int64(t))
		return v
	case *big.Int:
		v := e.alloc()
		v.Const = true
		v.X.SetBigInt(t)
		return v
	case uint:
		v := e.alloc()
		v.Const = true
		v.X.SetUint64(uint64(t))
		return v
	case nil:
		panic("nil variable")
	}
	v := e.alloc()
	v.Const = true
	if _, err := v.X.SetInterface(x); err != nil {
		panic(fmt.Sprintf("engine: cannot use %T as a variable: %v", x, err))
	}
	return v
}

func (e *E) step() {
	e.Steps++
	if e.Yield != nil {
		e.Yield()
	}
}

func (e *E) violate(v Violation) {
	e.Viol = append(e.Viol, v)
	if e.StopFirst || (e.MaxViol > 0 && len(e.Viol) >= e.MaxViol) {
		panic(stop{})
	}
}

func (e *E) eq(a, b *V) {
	e.neq++
	if e.WOrd == e.neq && e.WKind == VEq {
		e.WVal.Sub(&a.X, &b.X)
		e.WSeen = true
	}
	if a.X != b.X {
		var d fr.Element
		d.Sub(&a.X, &b.X)
		e.violate(Violation{Kind: VEq, Ord: e.neq, Val: d})
	}
}

func (e *E) boolean(a *V) {
	if a.Bool {
		return
	}
	e.nbool++
	if e.WOrd == e.nbool && e.WKind == VBool {
		e.WVal = a.X
		e.WSeen = true
	}
	if !a.X.IsZero() && !a.X.IsOne() {
		e.violate(Violation{Kind: VBool, Ord: e.nbool, Val: a.X})
		return
	}
	a.Bool = true
}

func (e *E) t1(op string, vs ...*V) {
	if e.Trace != nil {
		xs := make([]fr.Element, len(vs))
		for i := range vs {
			xs[i] = vs[i].X
		}
		e.Trace(op, xs...)
	}
}

// --- frontend.API ---

func (e *E) Add(a, b frontend.Variable, in ...frontend.Variable) frontend.Variable {
	e.step()
	x, y := e.in(a), e.in(b)
	r := e.alloc()
	r.X.Add(&x.X, &y.X)
	r.Const = x.Const && y.Const
	for _, i := range in {
		z := e.in(i)
		r.X.Add(&r.X, &z.X)
		r.Const = r.Const && z.Const
	}
	e.t1("add", r)
	return r
}

func (e *E) MulAcc(a, b, c frontend.Variable) frontend.Variable {
	return e.Add(a, e.Mul(b, c))
}

func (e *E) Neg(a frontend.Variable) frontend.Variable {
	e.step()
	x := e.in(a)
	r := e.alloc()
	r.X.Neg(&x.X)
	r.Const = x.Const
	e.t1("neg", r)
	return r
}

func (e *E) Sub(a, b frontend.Variable, in ...frontend.Variable) frontend.Variable {
	e.step()
	x, y := e.in(a), e.in(b)
	r := e.alloc()
	r.X.Sub(&x.X, &y.X)
	r.Const = x.Const && y.Const
	for _, i := range in {
		z := e.in(i)
		r.X.Sub(&r.X, &z.X)
		r.Const = r.Const && z.Const
	}
	e.t1("sub", r)
	return r
}

func (e *E) Mul(a, b frontend.Variable, in ...frontend.Variable) frontend.Variable {
	e.step()
	x, y := e.in(a), e.in(b)
	r := e.alloc()
	r.X.Mul(&x.X, &y.X)
	r.Const = x.Const && y.Const
	for _, i := range in {
		z := e.in(i)
		r.X.Mul(&r.X, &z.X)
		r.Const = r.Const && z.Const
	}
	e.t1("mul", r)
	return r
}

func (e *E) DivUnchecked(a, b frontend.Variable) frontend.Variable {
	e.step()
	x, y := e.in(a), e.in(b)
	r := e.alloc()
	if y.X.IsZero() {
		if !x.X.IsZero() {
			e.violate(Violation{Kind: VOther, Msg: "division by zero"})
		}
		r.X.SetZero()
	} else {
		r.X.Inverse(&y.X)
		r.X.Mul(&r.X, &x.X)
	}
	r.Const = x.Const && y.Const
	e.t1("div", r)
	return r
}

func (e *E) Div(a, b frontend.Variable) frontend.Variable {
	y := e.in(b)
	if y.X.IsZero() {
		e.violate(Violation{Kind: VOther, Msg: "division by zero"})
	}
	return e.DivUnchecked(a, y)
}

func (e *E) Inverse(a frontend.Variable) frontend.Variable {
	e.step()
	x := e.in(a)
	r := e.alloc()
	if x.X.IsZero() {
		e.violate(Violation{Kind: VOther, Msg: "inverse of zero"})
	}
	r.X.Inverse(&x.X)
	r.Const = x.Const
	e.t1("inv", r)
	return r
}

func (e *E) ToBinary(a frontend.Variable, n ...int) []frontend.Variable {
	e.step()
	x := e.in(a)
	nb := fr.Bits
	if len(n) == 1 {
		nb = n[0]
		if nb < 0 {
			panic("invalid n")
		}
	}
	var b big.Int
	x.X.BigInt(&b)
	if b.BitLen() > nb {
		e.violate(Violation{Kind: VOther, Msg: "ToBinary: value too large"})
	}
	r := make([]frontend.Variable, nb)
	for i := range r {
		v := e.alloc()
		v.X.SetUint64(uint64(b.Bit(i)))
		v.Const = x.Const
		v.Bool = true
		r[i] = v
		e.t1("bit", v)
	}
	return r
}

func (e *E) FromBinary(bs ...frontend.Variable) frontend.Variable {
	e.step()
	r := e.alloc()
	r.X.SetZero()
	var c, t fr.Element
	c.SetOne()
	for _, b := range bs {
		x := e.in(b)
		e.boolean(x)
		t.Mul(&c, &x.X)
		r.X.Add(&r.X, &t)
		c.Double(&c)
	}
	e.t1("frombits", r)
	return r
}

func (e *E) Xor(a, b frontend.Variable) frontend.Variable {
	e.step()
	x, y := e.in(a), e.in(b)
	e.boolean(x)
	e.boolean(y)
	r := e.alloc()
	var t fr.Element
	t.Mul(&x.X, &y.X)
	t.Double(&t)
	r.X.Add(&x.X, &y.X)
	r.X.Sub(&r.X, &t)
	r.Const = x.Const && y.Const
	r.Bool = true
	e.t1("xor", r)
	return r
}

func (e *E) Or(a, b frontend.Variable) frontend.Variable {
	e.step()
	x, y := e.in(a), e.in(b)
	e.boolean(x)
	e.boolean(y)
	r := e.alloc()
	var t fr.Element
	t.Mul(&x.X, &y.X)
	r.X.Add(&x.X, &y.X)
	r.X.Sub(&r.X, &t)
	r.Const = x.Const && y.Const
	r.Bool = true
	e.t1("or", r)
	return r
}

func (e *E) And(a, b frontend.Variable) frontend.Variable {
	e.step()
	x, y := e.in(a), e.in(b)
	e.boolean(x)
	e.boolean(y)
	r := e.alloc()
	r.X.Mul(&x.X, &y.X)
	r.Const = x.Const && y.Const
	r.Bool = true
	e.t1("and", r)
	return r
}

func (e *E) Select(c, a, b frontend.Variable) frontend.Variable {
	e.step()
	k, x, y := e.in(c), e.in(a), e.in(b)
	e.boolean(k)
	r := e.alloc()
	r.X.Sub(&x.X, &y.X)
	r.X.Mul(&r.X, &k.X)
	r.X.Add(&r.X, &y.X)
	if k.Const {
		if k.X.IsOne() {
			r.Const = x.Const
		} else {
			r.Const = y.Const
		}
	} else {
		r.Const = false
	}
	e.t1("select", r)
	return r
}

func (e *E) Lookup2(b0, b1 frontend.Variable, i0, i1, i2, i3 frontend.Variable) frontend.Variable {
	return e.Select(b1, e.Select(b0, i3, i2), e.Select(b0, i1, i0))
}

func (e *E) IsZero(a frontend.Variable) frontend.Variable {
	e.step()
	x := e.in(a)
	r := e.alloc()
	if x.X.IsZero() {
		r.X.SetOne()
	} else {
		r.X.SetZero()
	}
	r.Const = x.Const
	r.Bool = true
	e.t1("iszero", r)
	return r
}

func (e *E) Cmp(a, b frontend.Variable) frontend.Variable {
	e.step()
	x, y := e.in(a), e.in(b)
	r := e.alloc()
	r.X.SetInt64(int64(x.X.Cmp(&y.X)))
	r.Const = x.Const && y.Const
	e.t1("cmp", r)
	return r
}

func (e *E) AssertIsEqual(a, b frontend.Variable) {
	e.step()
	x, y := e.in(a), e.in(b)
	e.t1("asserteq", x, y)
	e.eq(x, y)
}

func (e *E) AssertIsDifferent(a, b frontend.Variable) {
	e.step()
	x, y := e.in(a), e.in(b)
	e.t1("assertne", x, y)
	if x.X == y.X {
		e.violate(Violation{Kind: VOther, Msg: "AssertIsDifferent"})
	}
}

func (e *E) AssertIsBoolean(a frontend.Variable) {
	e.step()
	x := e.in(a)
	e.t1("assertbool", x)
	e.boolean(x)
}

func (e *E) AssertIsCrumb(a frontend.Variable) {
	e.step()
	x := e.in(a)
	if !x.X.IsUint64() || x.X.Uint64() > 3 {
		e.violate(Violation{Kind: VOther, Msg: "AssertIsCrumb"})
	}
}

func (e *E) AssertIsLessOrEqual(a, b frontend.Variable) {
	e.step()
	x, y := e.in(a), e.in(b)
	e.t1("assertle", x, y)
	if x.X.Cmp(&y.X) > 0 {
		e.violate(Violation{Kind: VOther, Msg: "AssertIsLessOrEqual"})
	}
}

func (e *E) Println(a ...frontend.Variable) {}

func (e *E) Compiler() frontend.Compiler { return e }

func (e *E) ConstantValue(x frontend.Variable) (*big.Int, bool) {
	switch t := x.(type) {
	case *V:
		if !t.Const {
			return nil, false
		}
		b := new(big.Int)
		t.X.BigInt(b)
		return b, true
	case int:
		if t >= 0 && t < len(smallBig) {
			return smallBig[t], true
		}
	case *big.Int:
		return t, true
	}
	v := e.in(x)
	b := new(big.Int)
	v.X.BigInt(b)
	return b, true
}

func (e *E) GetNbConstraints() int { return e.neq + e.nbool }

// --- frontend.Compiler ---

func (e *E) MarkBoolean(a frontend.Variable) {
	x := e.in(a)
	if x.Const && !x.X.IsZero() && !x.X.IsOne() {
		e.violate(Violation{Kind: VOther, Msg: "MarkBoolean of a non-boolean constant"})
	}
	x.Bool = true
}

func (e *E) IsBoolean(a frontend.Variable) bool {
	x := e.in(a)
	if x.Const {
		return x.X.IsZero() || x.X.IsOne()
	}
	return x.Bool
}

func (e *E) Field() *big.Int  { return new(big.Int).Set(modulus) }
func (e *E) FieldBitLen() int { return modulus.BitLen() }

func (e *E) Defer(cb func(api frontend.API) error) {
	e.step()
	e.deferred = append(e.deferred, cb)
}

func (e *E) InternalVariable(wireID uint32) frontend.Variable { panic("engine: InternalVariable") }
func (e *E) ToCanonicalVariable(frontend.Variable) frontend.CanonicalVariable {
	panic("engine: ToCanonicalVariable")
}
func (e *E) SetGkrInfo(constraint.GkrInfo) error { panic("engine: gkr") }
func (e *E) AddBlueprint(b constraint.Blueprint) constraint.BlueprintID {
	panic("engine: blueprint")
}
func (e *E) AddInstruction(bID constraint.BlueprintID, calldata []uint32) []uint32 {
	panic("engine: instruction")
}

func (e *E) SetKeyValue(key, value any) {
	if e.kv == nil {
		e.kv = map[any]any{}
	}
	e.kv[key] = value
}
func (e *E) GetKeyValue(key any) any { return e.kv[key] }

func (e *E) FrontendType() frontendtype.Type { return e.FT }

type commitReached struct{}

// Commit ends the enclosing deferred function: all lookup queries committed to
// have been decided by membership already (see lookup).
func (e *E) Commit(v ...frontend.Variable) (frontend.Variable, error) {
	panic(commitReached{})
}

func (e *E) lookup(inputs []frontend.Variable) {
	// layout: len(table), rowLen, entries..., queries...
	nt := int(e.in(inputs[0]).X.Uint64())
	nr := int(e.in(inputs[1]).X.Uint64())
	e.ntab++
	rest := inputs[2:]
	if nr != 1 {
		// general rows: compare as tuples
		tab := map[string]bool{}
		key := func(row []frontend.Variable) string {
			s := make([]byte, 0, 32*nr)
			for _, c := range row {
				b := e.in(c).X.Bytes()
				s = append(s, b[:]...)
			}
			return string(s)
		}
		for i := 0; i < nt; i++ {
			k := key(rest[i*nr : (i+1)*nr])
			if tab[k] {
				e.violate(Violation{Kind: VOther, Msg: "duplicate table key"})
			}
			tab[k] = true
		}
		qs := rest[nt*nr:]
		if len(qs) == 0 {
			e.violate(Violation{Kind: VOther, Msg: "lookup without queries"})
		}
		for i := 0; i+nr <= len(qs); i += nr {
			e.nlook++
			if !tab[key(qs[i:i+nr])] {
				e.violate(Violation{Kind: VOther, Msg: "row not in table"})
			}
		}
		return
	}
	ent := rest[:nt]
	qs := rest[nt:]
	if e.Trace != nil {
		for _, x := range rest {
			e.t1("lookup", e.in(x))
		}
	}
	if len(qs) == 0 {
		e.violate(Violation{Kind: VOther, Msg: "lookup argument without queries"})
		return
	}
	rangeTab := true
	for i := range ent {
		k, ok := ent[i].(int)
		if !ok || k != i {
			rangeTab = false
			break
		}
	}
	var tab map[fr.Element]bool
	if !rangeTab {
		tab = make(map[fr.Element]bool, nt)
		for i := range ent {
			x := e.in(ent[i]).X
			if tab[x] {
				e.violate(Violation{Kind: VOther, Msg: "duplicate table key"})
			}
			tab[x] = true
		}
	}
	if e.Record {
		if rangeTab {
			t := make([]fr.Element, 1)
			t[0].SetUint64(uint64(nt))
			e.Tables = append(e.Tables, t)
		} else {
			t := make([]fr.Element, nt)
			for i := range ent {
				t[i] = e.in(ent[i]).X
			}
			e.Tables = append(e.Tables, t)
		}
	}
	ti := e.ntab - 1
	for _, q := range qs {
		e.nlook++
		x := &e.in(q).X
		if e.WOrd == e.nlook && e.WKind == VLookup {
			e.WVal = *x
			e.WSeen = true
		}
		ok := false
		if rangeTab {
			ok = x.IsUint64() && x.Uint64() < uint64(nt)
		} else {
			ok = tab[*x]
		}
		if !ok {
			e.violate(Violation{Kind: VLookup, Ord: e.nlook, Val: *x, Table: ti})
		}
	}
}

func (e *E) getInt(i int) *big.Int {
	for len(e.ints) <= i {
		e.ints = append(e.ints, new(big.Int))
	}
	return e.ints[i]
}

func (e *E) NewHint(f solver.Hint, nbOutputs int, inputs ...frontend.Variable) ([]frontend.Variable, error) {
	e.step()
	if IsCountHint(f) {
		e.lookup(inputs)
		r := make([]frontend.Variable, nbOutputs)
		z := e.alloc()
		z.X.SetZero()
		for i := range r {
			r[i] = z
		}
		return r, nil
	}
	if nbOutputs <= 0 {
		return nil, fmt.Errorf("hint function must return at least one output")
	}
	idx := e.NCall
	e.NCall++
	name := hintName(f)
	n := len(inputs)
	ins := make([]*big.Int, n)
	inC := make([]bool, n)
	var rec *Call
	if e.Record {
		e.Calls = append(e.Calls, Call{Name: name, Def: e.inDefer})
		rec = &e.Calls[len(e.Calls)-1]
		rec.In = make([]fr.Element, n)
		rec.InC = inC
	}
	for i := range inputs {
		x := e.in(inputs[i])
		b := e.getInt(i)
		x.X.BigInt(b)
		ins[i] = b
		inC[i] = x.Const
		if rec != nil {
			rec.In[i] = x.X
		}
	}
	outs := make([]*big.Int, nbOutputs)
	for i := range outs {
		outs[i] = e.getInt(n + i)
		outs[i].SetUint64(0)
	}
	var err error
	if e.OnHint != nil {
		err = e.OnHint(name, f, ins, outs)
	} else {
		err = e.callHint(f, ins, outs)
	}
	var honest []fr.Element
	if err == nil {
		honest = make([]fr.Element, nbOutputs)
		for i := range outs {
			honest[i].SetBigInt(outs[i])
		}
	}
	if e.Advisor != nil {
		// the hint may have overwritten its inputs: present pristine ones
		for i := range inputs {
			e.in(inputs[i]).X.BigInt(ins[i])
		}
		honest2 := e.Advisor.Answer(idx, name, ins, inC, nbOutputs, honest, err)
		if honest2 != nil {
			honest, err = honest2, nil
		}
	}
	if err != nil {
		e.HintErr = err
		e.Viol = append(e.Viol, Violation{Kind: VHint, Msg: name + ": " + err.Error()})
		panic(stop{})
	}
	if len(honest) != nbOutputs {
		panic("engine: advisor returned wrong number of answers")
	}
	if rec != nil {
		rec = &e.Calls[idx]
		rec.Out = append([]fr.Element(nil), honest...)
	}
	if e.Trace != nil {
		for _, x := range ins {
			var y fr.Element
			y.SetBigInt(x)
			e.Trace("hintin:"+name, y)
		}
	}
	r := make([]frontend.Variable, nbOutputs)
	for i := range r {
		v := e.alloc()
		v.X = honest[i]
		r[i] = v
	}
	return r, nil
}

func (e *E) callHint(f solver.Hint, ins, outs []*big.Int) (err error) {
	defer func() {
		if r := recover(); r != nil {
			e.HintPanic = fmt.Sprintf("%s: %v", solver.GetHintName(f), r)
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return f(modulus, ins, outs)
}

// Result of one execution.
type Result struct {
	Accepted bool
	Outs     []fr.Element
	Err      string // definition-time panic or error of the code under test
}

// Exec runs one circuit definition with the given inputs.
func (e *E) Exec(inputs []fr.Element, define func(api frontend.API, in []frontend.Variable) []frontend.Variable) (res Result) {
	vars := make([]frontend.Variable, len(inputs))
	for i := range inputs {
		vars[i] = e.Wire(inputs[i])
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				res.Accepted = false
				return
			}
			res.Accepted = false
			res.Err = fmt.Sprint(r)
		}
	}()
	outs := define(e, vars)
	e.inDefer = true
	for i := 0; i < len(e.deferred); i++ {
		if err := e.runDeferred(e.deferred[i]); err != nil {
			res.Err = err.Error()
			return
		}
	}
	res.Accepted = len(e.Viol) == 0
	if outs != nil {
		res.Outs = make([]fr.Element, len(outs))
		for i := range outs {
			res.Outs[i] = e.in(outs[i]).X
		}
	}
	return
}

func (e *E) runDeferred(cb func(frontend.API) error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(commitReached); ok {
				err = nil
				return
			}
			panic(r)
		}
	}()
	return cb(e)
}

var _ frontend.API = (*E)(nil)
var _ frontend.Compiler = (*E)(nil)
var _ frontend.Committer = (*E)(nil)
