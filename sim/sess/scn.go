package sess

import (
	"encoding/json"
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/frontend"
)

// Spec is the replayable description of a scenario (circuit program).
type Spec struct {
	Kind string            `json:"kind"`
	FT   string            `json:"frontend"` // r1cs or scs
	RS   uint              `json:"range_size"`
	Fmt  int               `json:"fmt,omitempty"`
	Op   string            `json:"op,omitempty"`
	A    []int64           `json:"a,omitempty"`
	S    []string          `json:"s,omitempty"`
	Prog [][]int64         `json:"prog,omitempty"`
	M    map[string]string `json:"m,omitempty"`
}

func (s Spec) String() string {
	b, _ := json.Marshal(s)
	return string(b)
}

const (
	Either     = 0
	MustAccept = 1
	MustReject = 2
)

// Expect is what the reference model says about one input assignment.
type Expect struct {
	// Honest is the required outcome of the fault-free execution.
	Honest int
	// Check judges the outputs of any accepted execution ("" means fine). A nil
	// Check together with Honest == MustReject means no execution may be
	// accepted at all.
	Check func(outs []fr.Element) string
	// AnyReject: every accepted execution is a violation.
	AnyReject bool
	// Vacuous marks inputs on which the property promises nothing.
	Vacuous bool
}

// Scn is a runnable scenario.
type Scn struct {
	Spec   Spec
	NIn    int
	NOut   int
	Define func(api frontend.API, in []frontend.Variable) []frontend.Variable
	Judge  func(in []fr.Element) Expect
	// Costs returns what the gadgets of the last definition report about
	// their lookups.
	Costs func() []uint
}

var builders = map[string]func(Spec) *Scn{}

// Register adds a scenario builder.
func Register(kind string, f func(Spec) *Scn) { builders[kind] = f }

// Build reconstructs the scenario of a spec.
func Build(s Spec) *Scn {
	f := builders[s.Kind]
	if f == nil {
		panic(fmt.Sprintf("unknown scenario kind %q", s.Kind))
	}
	sc := f(s)
	sc.Spec = s
	return sc
}

// Hex / FromHex convert field elements for replay files.
func Hex(x fr.Element) string {
	var b big.Int
	x.BigInt(&b)
	return b.Text(16)
}

func FromHex(s string) fr.Element {
	b, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("bad hex " + s)
	}
	var x fr.Element
	x.SetBigInt(b)
	return x
}

// Pretty prints small signed values readably.
func Pretty(x fr.Element) string {
	var b big.Int
	x.BigInt(&b)
	if b.BitLen() > 200 {
		var n fr.Element
		n.Neg(&x)
		var c big.Int
		n.BigInt(&c)
		if c.BitLen() < 120 {
			return "-" + c.String()
		}
	}
	return b.String()
}

func PrettyAll(xs []fr.Element) []string {
	r := make([]string, len(xs))
	for i := range xs {
		r[i] = Pretty(xs[i])
	}
	return r
}
