package props

import (
	"fmt"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	. "zkverif/sess"
)

// Check decides one property by seeded simulation runs.
type Check struct {
	ID              string
	Quick, Thorough int64 // number of seeded runs
	Run             func(w *Worker, r *Rng) *Found
	Rule            string
	Real            []string // components that ran real code
	Stub            []string // components replaced by the simulator
	Assume          []string
	Level           string
	// Serial: runs may not execute in parallel.
	Serial bool
	// Known reports a listed finding for this property as one line, after
	// re-demonstrating it, or "" when it no longer reproduces.
	Known func(w *Worker) string
}

var Checks = map[string]*Check{}

func add(c *Check) {
	if c.Level == "" {
		c.Level = "exploration"
	}
	Checks[c.ID] = c
}

var replayers = map[string]func(w *Worker, f *Found) *Found{}

// Replay re-executes a recorded violation from its file alone and returns the
// violation it shows now, or nil.
func Replay(w *Worker, f *Found) *Found {
	if rp := replayers[f.Spec.Kind]; rp != nil {
		return rp(w, f)
	}
	return replayScn(w, f)
}

func replayScn(w *Worker, f *Found) *Found {
	sc := Build(f.Spec)
	in := make([]fr.Element, len(f.Inputs))
	for i := range in {
		in[i] = FromHex(f.Inputs[i])
	}
	g := w.ReplayScn(sc, in, f)
	if g != nil {
		g.Property, g.Run, g.Seed = f.Property, f.Run, f.Seed
	}
	return g
}

func fmtBits(xs ...interface{}) string { return fmt.Sprint(xs...) }
