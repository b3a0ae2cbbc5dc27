package props

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	. "zkverif/sess"
)

var curves = map[string]*big.Int{
	"bn254":     ecc.BN254.ScalarField(),
	"bls12_381": ecc.BLS12_381.ScalarField(),
	"bls12_377": ecc.BLS12_377.ScalarField(),
	"bw6_761":   ecc.BW6_761.ScalarField(),
	"bls24_315": ecc.BLS24_315.ScalarField(),
	"bls24_317": ecc.BLS24_317.ScalarField(),
	"bw6_633":   ecc.BW6_633.ScalarField(),
}

var curveNames = []string{"bn254", "bls12_381", "bls12_377", "bw6_761", "bls24_315", "bls24_317", "bw6_633"}

func inField(xs []fr.Element, field *big.Int) []*big.Int {
	r := make([]*big.Int, len(xs))
	for i := range xs {
		b := signedOf(xs[i])
		r[i] = new(big.Int).Mod(b, field)
	}
	return r
}

func init() {
	Register("cfgprog", func(s Spec) *Scn {
		t := s
		t.Kind = "prog"
		return Build(t)
	})
	replayers["cfgprog"] = func(w *Worker, f *Found) *Found {
		in := make([]fr.Element, len(f.Inputs))
		for i := range in {
			in[i] = FromHex(f.Inputs[i])
		}
		return cfgRun(w, f.Spec, in)
	}
	add(&Check{ID: "C13", Quick: 6000, Thorough: 150000, Stub: []string{"Fiat-Shamir commitment of the lookup argument: a deterministic stand-in"},
		Real:   []string{"float, gadget, hint packages of /repo", "gnark R1CS and SCS builders", "gnark constraint solver with its parallel workers"},
		Assume: []string{"the schedules of gnark's solver workers are its own; C21 controls them"},
		Rule:   "a run draws a float program and executes it on gnark under several configurations (constraint system, limb width, scalar field, solver workers), with the right outputs and with a wrong one; oracle: the IEEE model in every configuration; non-trivial: a distinct (program, configuration) pair",
		Run: func(w *Worker, r *Rng) *Found {
			s, in := genProg(r, 7)
			_, ex, _, _ := progModel(s)
			if ex.AnyReject {
				return nil
			}
			for k := 0; k < 3; k++ {
				t := s
				t.Kind = "cfgprog"
				t.A = append([]int64(nil), s.A...)
				for c := 0; c < len(t.A)/2; c++ {
					rs := int64(r.Intn(11))
					if rs == 1 {
						rs = 0
					}
					if r.Pct(3) {
						rs = int64(r.Range(11, 14))
					}
					t.A[2*c+1] = rs
				}
				t.RS = uint(t.A[1])
				t.FT = []string{"r1cs", "scs"}[r.Intn(2)]
				t.M = map[string]string{"curve": curveNames[r.Intn(len(curveNames))], "tasks": fmt.Sprint(1 + r.Intn(16)), "wrong": fmt.Sprint(r.Intn(1 << 20))}
				if f := cfgRun(w, t, in); f != nil {
					return f
				}
			}
			return nil
		}})
}

// cfgRun executes one program under one configuration and judges it.
func cfgRun(w *Worker, s Spec, in []fr.Element) *Found {
	mkf := func(class, detail string) *Found {
		f := &Found{Class: class, Detail: detail, Spec: s}
		for i := range in {
			f.Inputs = append(f.Inputs, Hex(in[i]))
		}
		return f
	}
	field := curves[s.M["curve"]]
	sc := Build(s)
	ex := sc.Judge(in)
	w.Cov.Sessions++
	if ex.Vacuous {
		w.Cov.Vacuous++
		return nil
	}
	key := Hash64(s.String()) ^ HashElems(in)
	w.Cov.Distinct[key] = struct{}{}
	w.Cov.Nontrivial[key] = struct{}{}
	// expected outputs: the fault-free simulated run, judged by the model
	o := w.Exec(sc, in, nil, false, 0, nil)
	if !o.Accepted {
		return mkf("honest-rejected", "the honest prover fails")
	}
	if d := ex.Check(o.Outs); d != "" {
		return mkf("wrong-result", d)
	}
	w.Cov.HonestOK++
	c, err := RealCompile(sc, field, false)
	if err != nil {
		return mkf("compile-failed", "gnark cannot compile the program: "+err.Error())
	}
	tasks := 1
	fmt.Sscan(s.M["tasks"], &tasks)
	fin := inField(in, field)
	res := c.Solve(fin, inField(o.Outs, field), nil, RealOpts{NbTasks: tasks})
	w.Cov.RealRuns++
	w.Note(Hash64(s.String()), res.Accepted)
	w.Cov.Faults["configuration "+s.FT+" "+s.M["curve"]]++
	if !res.Accepted {
		if len(res.Err) > 200 {
			res.Err = res.Err[:200]
		}
		return mkf("config-dependent", fmt.Sprintf("rejected under %s/%s/limbs %v/%d workers: %s", s.FT, s.M["curve"], s.A, tasks, res.Err))
	}
	w.Cov.RealAgree++
	// a wrong claim must be rejected in this configuration too
	wi := 0
	fmt.Sscan(s.M["wrong"], &wi)
	if len(o.Outs) > 0 {
		bad := append([]fr.Element(nil), o.Outs...)
		i := wi % len(bad)
		var one fr.Element
		one.SetOne()
		if wi&1024 != 0 {
			one.Neg(&one)
		}
		bad[i].Add(&bad[i], &one)
		if ex.Check(bad) == "" {
			return nil
		}
		res := c.Solve(fin, inField(bad, field), nil, RealOpts{NbTasks: tasks})
		w.Cov.RealRuns++
		w.Cov.Faulted++
		w.Cov.Faults["wrong claimed output"]++
		if res.Accepted {
			return mkf("wrong-accept", fmt.Sprintf("a wrong claimed output is accepted under %s/%s/limbs %v", s.FT, s.M["curve"], s.A))
		}
		w.Cov.Rejected++
		w.Cov.RealAgree++
	}
	return nil
}
