// Package sgroth16 is groth16 with injected failures and simulated durations.
package sgroth16

import (
	"github.com/consensys/gnark/backend"
	"github.com/consensys/gnark/backend/groth16"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/constraint"

	"zkverif/simio"
)

func Setup(r1cs constraint.ConstraintSystem) (groth16.ProvingKey, groth16.VerifyingKey, error) {
	if simio.W.Op("setup", "") != nil {
		return nil, nil, simio.ErrInjected
	}
	return groth16.Setup(r1cs)
}

func Prove(r1cs constraint.ConstraintSystem, pk groth16.ProvingKey, full witness.Witness, opts ...backend.ProverOption) (groth16.Proof, error) {
	if simio.W.Op("prove", "") != nil {
		return nil, simio.ErrInjected
	}
	return groth16.Prove(r1cs, pk, full, opts...)
}

func Verify(proof groth16.Proof, vk groth16.VerifyingKey, public witness.Witness, opts ...backend.VerifierOption) error {
	if simio.W.Op("verify", "") != nil {
		return simio.ErrInjected
	}
	return groth16.Verify(proof, vk, public, opts...)
}
