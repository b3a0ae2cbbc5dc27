// Package skzg is gnark's test SRS generator with injected failures.
package skzg

import (
	"github.com/consensys/gnark-crypto/kzg"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/test/unsafekzg"

	"zkverif/simio"
)

func NewSRS(ccs constraint.ConstraintSystem, opts ...unsafekzg.Option) (kzg.SRS, kzg.SRS, error) {
	if simio.W.Op("srs", "") != nil {
		return nil, nil, simio.ErrInjected
	}
	return unsafekzg.NewSRS(ccs, opts...)
}
