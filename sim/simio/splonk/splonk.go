// Package splonk is plonk with injected failures and simulated durations.
package splonk

import (
	"github.com/consensys/gnark-crypto/kzg"
	"github.com/consensys/gnark/backend"
	"github.com/consensys/gnark/backend/plonk"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/constraint"

	"zkverif/simio"
)

func Setup(r1cs constraint.ConstraintSystem, srs, lag kzg.SRS) (plonk.ProvingKey, plonk.VerifyingKey, error) {
	if simio.W.Op("setup", "") != nil {
		return nil, nil, simio.ErrInjected
	}
	return plonk.Setup(r1cs, srs, lag)
}

func Prove(r1cs constraint.ConstraintSystem, pk plonk.ProvingKey, full witness.Witness, opts ...backend.ProverOption) (plonk.Proof, error) {
	if simio.W.Op("prove", "") != nil {
		return nil, simio.ErrInjected
	}
	return plonk.Prove(r1cs, pk, full, opts...)
}

func Verify(proof plonk.Proof, vk plonk.VerifyingKey, public witness.Witness, opts ...backend.VerifierOption) error {
	if simio.W.Op("verify", "") != nil {
		return simio.ErrInjected
	}
	return plonk.Verify(proof, vk, public, opts...)
}
