package sess

import (
	"fmt"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// ReplayScn re-executes the recorded inputs and fault trace of f and returns
// the violation shown, or nil when the property holds in that execution.
func (w *Worker) ReplayScn(sc *Scn, in []fr.Element, f *Found) *Found {
	ex := sc.Judge(in)
	g := &Found{Class: f.Class, Spec: f.Spec, Inputs: f.Inputs, Devs: f.Devs}
	switch f.Class {
	case "compile-failed":
		if _, err := RealCompile(sc, nil, false); err != nil {
			g.Detail = "gnark cannot compile the program: " + trim(err.Error(), 300)
			return g
		}
		return nil
	}
	p := planOf(f.Devs)
	if len(f.Devs) == 0 {
		p = nil
	}
	o := w.Exec(sc, in, p, true, 0, nil)
	set := func() {
		for i := range o.Outs {
			g.Outs = append(g.Outs, Hex(o.Outs[i]))
		}
	}
	switch {
	case o.Err != "":
		g.Class, g.Detail = "definition-failed", "circuit definition failed: "+o.Err
		return g
	case o.Panic != "" && len(f.Devs) == 0:
		g.Class, g.Detail = "hint-crash", "honest prover crashed: "+o.Panic
		return g
	}
	if !o.Accepted {
		if len(f.Devs) == 0 && ex.Honest == MustAccept {
			g.Class, g.Detail = "honest-rejected", "the honest prover fails: "+violString(o.Viol)
			return g
		}
	} else {
		if len(f.Devs) == 0 && ex.Honest == MustReject {
			g.Class, g.Detail = "wrong-accept", "accepted for the honest prover although the model rejects"
			return g
		}
		if s := violates(&ex, &o); s != "" {
			set()
			if len(f.Devs) > 0 {
				rr := RealRun(sc, in, f.Devs, o.Outs, RealOpts{})
				if !rr.Accepted {
					return nil
				}
				g.Class = "forged-accept"
			} else {
				g.Class = "wrong-result"
			}
			g.Detail = s
			return g
		}
	}
	// violations observed on gnark only
	if len(f.Devs) == 0 && ex.Honest == MustAccept {
		rr := RealRun(sc, in, nil, o.Outs, RealOpts{})
		if !rr.Accepted {
			g.Class, g.Detail = "honest-rejected", "the honest prover fails on gnark: "+trim(rr.Err, 200)
			return g
		}
	}
	if len(f.Devs) == 0 && f.Class == "wrong-accept" && len(f.Outs) > 0 {
		outs := make([]fr.Element, len(f.Outs))
		for i := range outs {
			outs[i] = FromHex(f.Outs[i])
		}
		rr := RealRun(sc, in, nil, outs, RealOpts{})
		if rr.Accepted {
			g.Outs = f.Outs
			g.Detail = fmt.Sprintf("gnark accepts a wrong claimed output: %s", ex.Check(outs))
			return g
		}
	}
	return nil
}
