package props

import . "zkverif/sess"

var circuitReal = []string{"float, math, gadget, hint, util packages of /repo (circuit definition and hint code, executed as is)", "gnark frontend builders and constraint solver (sampled runs and every violation)", "gnark logderivarg / logderivprecomp table code"}
var circuitStub = []string{"witness solver for the bulk of the runs: a direct evaluator of frontend.API over the BN254 scalar field", "advice channel (hint transport) with injected faults", "Fiat-Shamir commitment of the lookup argument: decided by set membership in bulk runs, by a deterministic stand-in on gnark"}
var circuitAssume = []string{"lookup and range arguments are sound up to their negligible cryptographic error", "a dishonest prover is represented by seeded searches over its hint answers, not by all of them"}

func fopKnobs() Knobs { return Knobs{Attempts: 20, RepairPct: 25, RepairTry: 5, RepairDep: 3} }

func fopCheck(id string, quick int64, ops []string, rule string) {
	add(&Check{ID: id, Quick: quick, Thorough: quick * 60, Rule: rule, Real: circuitReal, Stub: circuitStub, Assume: circuitAssume,
		Run: func(w *Worker, r *Rng) *Found { return fopSession(w, r, ops, fopKnobs()) }})
}

const fopRule = "a run draws a format, a limb width, a frontend, operand sources (wires, allocation, constants) and operands by the seed, executes the fault-free prover and then seeded fault plans on the advice channel, comparing with an independent IEEE-754 model; non-trivial: a distinct (program, input) pair that exchanged advice and had faults injected"

func init() {
	fopCheck("C01", 20000, []string{"alloc", "const"}, fopRule)
	fopCheck("C02", 20000, []string{"add", "sub"}, fopRule)
	fopCheck("C03", 20000, []string{"mul"}, fopRule)
	fopCheck("C04", 20000, []string{"div"}, fopRule)
	fopCheck("C05", 20000, []string{"sqrt"}, fopRule)
	fopCheck("C06", 20000, []string{"lt", "le", "gt", "ge"}, fopRule)
	fopCheck("C07", 20000, []string{"trunc", "floor", "ceil", "toint", "floortoint", "trunctoint", "ceiltoint"}, fopRule)
	fopCheck("C08", 20000, []string{"eq", "ulp", "tol"}, fopRule)
}
