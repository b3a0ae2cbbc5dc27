package sess

import (
	"errors"
	"fmt"
	"math/big"
	"os"
	"strings"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/frontend/frontendtype"
	"github.com/consensys/gnark/logger"
	"github.com/rs/zerolog"
	"zkverif/engine"
)

func init() {
	logger.Set(zerolog.New(os.Stderr).Level(zerolog.Disabled))
	solver.RegisterHint(dispatchHint)
}

// RealOpts configures a run on the real gnark compiler and solver.
type RealOpts struct {
	Curve   *big.Int // scalar field (default BN254)
	NbTasks int
	FreeOut bool // do not assert outputs
	// HintHook, if set, runs inside every hint call of the solver.
	HintHook func(idx int)
}

// RealResult is the outcome.
type RealResult struct {
	Accepted      bool
	Err           string
	NbConstraints int
	Calls         int
}

func dispatchHint(field *big.Int, in, out []*big.Int) error {
	return errors.New("dispatch hint not overridden")
}

type hintCall struct {
	fn solver.Hint
}

type router struct {
	calls []hintCall
}

// wapi routes every hint call of the code under test through dispatchHint with
// its call index, on top of a real gnark builder.
type wapi struct {
	frontend.API
	r *router
}

type wcomp struct {
	frontend.Compiler
	api frontend.API
	r   *router
}

func (w *wapi) Compiler() frontend.Compiler { return &wcomp{w.API.Compiler(), w.API, w.r} }
func (w *wapi) NewHint(f solver.Hint, n int, in ...frontend.Variable) ([]frontend.Variable, error) {
	return w.Compiler().NewHint(f, n, in...)
}

type kv interface {
	SetKeyValue(key, value any)
	GetKeyValue(key any) any
}

func (w *wapi) SetKeyValue(k, v any)   { w.API.(kv).SetKeyValue(k, v) }
func (w *wapi) GetKeyValue(k any) any  { return w.API.(kv).GetKeyValue(k) }
func (w *wcomp) SetKeyValue(k, v any)  { w.api.(kv).SetKeyValue(k, v) }
func (w *wcomp) GetKeyValue(k any) any { return w.api.(kv).GetKeyValue(k) }
func (w *wapi) FrontendType() frontendtype.Type {
	return w.API.(frontendtype.FrontendTyper).FrontendType()
}
func (w *wcomp) FrontendType() frontendtype.Type {
	return w.api.(frontendtype.FrontendTyper).FrontendType()
}
func (w *wcomp) Commit(v ...frontend.Variable) (frontend.Variable, error) {
	return w.Compiler.(frontend.Committer).Commit(v...)
}
func (w *wcomp) Defer(cb func(api frontend.API) error) {
	r := w.r
	w.Compiler.Defer(func(api frontend.API) error { return cb(&wapi{api, r}) })
}
func (w *wcomp) NewHint(f solver.Hint, n int, in ...frontend.Variable) ([]frontend.Variable, error) {
	if engine.IsCountHint(f) {
		return w.Compiler.NewHint(f, n, in...)
	}
	idx := len(w.r.calls)
	w.r.calls = append(w.r.calls, hintCall{f})
	return w.Compiler.NewHint(dispatchHint, n, append([]frontend.Variable{idx}, in...)...)
}

// wapiBatch adds BatchInvert when the builder has it.
type wapiBatch struct{ *wapi }

func (w wapiBatch) BatchInvert(v []frontend.Variable) []frontend.Variable {
	return w.API.(frontend.BatchInverter).BatchInvert(v)
}

type realCircuit struct {
	In   []frontend.Variable `gnark:",secret"`
	Out  []frontend.Variable `gnark:",public"`
	sc   *Scn
	r    *router
	free bool
}

func (c *realCircuit) Define(api frontend.API) error {
	c.r.calls = c.r.calls[:0]
	w := &wapi{api, c.r}
	outs := c.sc.Define(w, c.In)
	// keep at least one use of every public variable and of the inputs
	if !c.free {
		for i := range outs {
			api.AssertIsEqual(outs[i], c.Out[i])
		}
	}
	return nil
}

// Compiled is a scenario compiled by real gnark.
type Compiled struct {
	CS   constraint.ConstraintSystem
	r    *router
	sc   *Scn
	fld  *big.Int
	free bool
}

// RealCompile compiles sc with the real builder.
func RealCompile(sc *Scn, field *big.Int, free bool) (c *Compiled, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("compile panic: %v", r)
		}
	}()
	if field == nil {
		field = ecc.BN254.ScalarField()
	}
	rt := &router{}
	nout := sc.NOut
	if free {
		nout = 0
	}
	circ := &realCircuit{In: make([]frontend.Variable, sc.NIn), Out: make([]frontend.Variable, nout), sc: sc, r: rt, free: free}
	nb := r1cs.NewBuilder
	if sc.Spec.FT == "scs" {
		nb = scs.NewBuilder
	}
	ccs, err := frontend.Compile(field, nb, circ, frontend.IgnoreUnconstrainedInputs())
	if err != nil {
		return nil, err
	}
	return &Compiled{CS: ccs, r: rt, sc: sc, fld: field, free: free}, nil
}

// Solve runs the real solver with the given inputs, public outputs and
// dishonest answers.
func (c *Compiled) Solve(in []*big.Int, outs []*big.Int, devs []Dev, o RealOpts) (res RealResult) {
	defer func() {
		if r := recover(); r != nil {
			res = RealResult{Err: fmt.Sprintf("panic: %v", r)}
		}
	}()
	asg := &realCircuit{In: make([]frontend.Variable, len(in)), sc: c.sc}
	for i := range in {
		asg.In[i] = in[i]
	}
	if !c.free {
		asg.Out = make([]frontend.Variable, len(outs))
		for i := range outs {
			asg.Out[i] = outs[i]
		}
	}
	w, err := frontend.NewWitness(asg, c.fld)
	if err != nil {
		return RealResult{Err: "witness: " + err.Error()}
	}
	dm := map[int][]Dev{}
	for _, d := range devs {
		dm[d.Call] = append(dm[d.Call], d)
	}
	calls := c.r.calls
	fld := c.fld
	disp := func(field *big.Int, in, out []*big.Int) (err error) {
		idx := int(in[0].Int64())
		if o.HintHook != nil {
			o.HintHook(idx)
		}
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("hint panic: %v", r)
			}
		}()
		err = calls[idx].fn(field, in[1:], out)
		if ds := dm[idx]; ds != nil {
			full := len(ds) == len(out)
			if err != nil && !full {
				return err
			}
			err = nil
			for _, d := range ds {
				v, ok := new(big.Int).SetString(d.Val, 16)
				if !ok {
					return errors.New("bad advice")
				}
				out[d.Slot].Set(v)
			}
		}
		return err
	}
	commit := func(field *big.Int, in, out []*big.Int) error {
		// deterministic stand-in for the Fiat-Shamir commitment
		h := uint64(88172645463325252)
		for _, x := range in {
			for _, wd := range x.Bits() {
				h = mix(h, uint64(wd))
			}
		}
		v := new(big.Int)
		for i := 0; i < 4; i++ {
			v.Lsh(v, 60)
			v.Or(v, new(big.Int).SetUint64(mix(h, uint64(i))>>4))
		}
		v.Mod(v, fld)
		out[0].Set(v)
		return nil
	}
	opts := []solver.Option{
		solver.OverrideHint(solver.GetHintID(dispatchHint), disp),
		solver.OverrideHint(solver.GetHintID(cs.Bsb22CommitmentComputePlaceholder), commit),
	}
	if o.NbTasks > 0 {
		opts = append(opts, solver.WithNbTasks(o.NbTasks))
	}
	_, err = c.CS.Solve(w, opts...)
	res.NbConstraints = c.CS.GetNbConstraints()
	res.Calls = len(calls)
	if err != nil {
		res.Err = err.Error()
		return
	}
	res.Accepted = true
	return
}

func bigs(xs []fr.Element) []*big.Int {
	r := make([]*big.Int, len(xs))
	for i := range xs {
		r[i] = new(big.Int)
		xs[i].BigInt(r[i])
	}
	return r
}

// RealRun compiles and solves once.
func RealRun(sc *Scn, in []fr.Element, devs []Dev, outs []fr.Element, o RealOpts) RealResult {
	c, err := RealCompile(sc, o.Curve, o.FreeOut)
	if err != nil {
		return RealResult{Err: "compile: " + strings.Split(err.Error(), "\n")[0]}
	}
	return c.Solve(bigs(in), bigs(outs), devs, o)
}
