From 86f5894fe4742c06b6866d987e984aa155ef94d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 01/14] fix: reject out-of-range exponents in PowerOfTwoHint

The hint shifted by the low 64 bits of an arbitrary field element, so an
exponent without a table entry (for instance from converting a non-integral
float) made the prover run out of memory or panic instead of reporting an
unsatisfiable witness.
---
 hint/hint.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hint/hint.go b/hint/hint.go
index 89e2b82..01169ff 100644
--- a/hint/hint.go
+++ b/hint/hint.go
@@ -1,6 +1,7 @@
 package hint
 
 import (
+	"fmt"
 	"github.com/tumberger/zk-Location/util"
 	"math"
 	"math/big"
@@ -126,6 +127,11 @@ func NthBitHint(field *big.Int, inputs []*big.Int, outputs []*big.Int) error {
 }
 
 func PowerOfTwoHint(field *big.Int, inputs []*big.Int, outputs []*big.Int) error {
+	// Only small exponents have an entry in the table of powers of two. Reject the others here, as the
+	// shift below would otherwise allocate memory proportional to an arbitrary field element.
+	if !inputs[0].IsUint64() || inputs[0].Uint64() >= uint64(field.BitLen()) {
+		return fmt.Errorf("exponent %s is out of range", inputs[0])
+	}
 	outputs[0].Lsh(big.NewInt(1), uint(inputs[0].Uint64()))
 	return nil
 }
-- 
2.43.0


From 9ae77d7a245c88ce2fa83241c96fe11fee8b0058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:20 +0000
Subject: [PATCH 02/14] fix: bind the sign flag of IntGadget.Abs when the value
 is zero

Abs only range-checked |v|, so for v = 0 the prover could choose
is_positive freely. Everything built on it inherits the ambiguity:
Trunc, Floor and Ceil of numbers in [1, 2) could be proved to be 0, and
Mul and Div could return an unreduced number with the exponent of
infinity when the result overflows by exactly one binade.
---
 gadget/gadget.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gadget/gadget.go b/gadget/gadget.go
index 5bb8a2e..ee0999e 100644
--- a/gadget/gadget.go
+++ b/gadget/gadget.go
@@ -90,7 +90,10 @@ func (f *IntGadget) Abs(v frontend.Variable, length uint) (frontend.Variable, fr
 		v,
 		f.api.Neg(v),
 	)
-	f.AssertBitLength(abs, length, Loose)
+	// Enforce that `0 <= v < 2^length` if `is_positive` is 1, and that `-2^length <= v < 0` otherwise.
+	// Checking `abs` alone in the second case would leave `is_positive` undetermined when `v` is 0.
+	is_negative := f.api.Sub(big.NewInt(1), is_positive)
+	f.AssertBitLength(f.api.Sub(abs, is_negative), length, Loose)
 	return abs, is_positive
 }
 
-- 
2.43.0


From 345296644c66c20291fed9e9e12cba7583cb056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:21 +0000
Subject: [PATCH 03/14] fix: make the sum of two numbers that cancel out +0 for
 every prover

mantissa_ge_0 is a hint that nothing constrains when the sum of the
signed mantissas is 0, so x + (-x) could be proved to be -0.
---
 float/float.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/float/float.go b/float/float.go
index 3977898..d101c6c 100644
--- a/float/float.go
+++ b/float/float.go
@@ -570,10 +570,12 @@ func (f *Context) Add(x, y FloatVar) FloatVar {
 	// `mantissa_ge_0` can be directly used to determine the sign of the result, except for the case
 	// `-0 + -0`. Therefore, we first check whether the signs of `x` and `y` are the same. If so,
 	// we use `x`'s sign as the sign of the result. Otherwise, we use the negation of `mantissa_ge_0`.
+	// If the mantissa is zero, then `mantissa_ge_0` is not constrained by the range check above, but the
+	// sum of two numbers with different signs is `+0` in this case.
 	sign := f.Api.Select(
 		f.Gadget.IsEq(x.Sign, y.Sign),
 		x.Sign,
-		mantissa_lt_0,
+		f.Api.And(mantissa_lt_0, mantissa_is_not_zero),
 	)
 
 	mantissa = f.round(
-- 
2.43.0


From 4d165b818b51ff9db08cc8d2c9d172c0c712bc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:21 +0000
Subject: [PATCH 04/14] fix: range-check powers of two tightly before looking
 them up

The loose check rounds the bit length up to a multiple of the limb width.
When the table size is not such a multiple, exponent e with the result
2^(e+k) + k * 2^size matches the table entry of e + k.
---
 gadget/gadget.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gadget/gadget.go b/gadget/gadget.go
index ee0999e..0db0472 100644
--- a/gadget/gadget.go
+++ b/gadget/gadget.go
@@ -128,8 +128,9 @@ func (f *IntGadget) QueryPowerOf2(exponent frontend.Variable) frontend.Variable
 		panic(err)
 	}
 	result := outputs[0]
-	// Make sure the result is small
-	f.AssertBitLength(result, uint(len(f.pow2.entries)), Loose)
+	// Make sure the result has at most `len(f.pow2.entries)` bits. The bound has to be tight, because
+	// any additional bit of `result` overlaps with `exponent` in the query below.
+	f.AssertBitLength(result, uint(len(f.pow2.entries)), TightForUnknownRange)
 	// Compute `exponent || result` and add it to the list of queries
 	f.pow2.queries = append(f.pow2.queries, []frontend.Variable{f.api.Add(
 		f.api.Mul(exponent, new(big.Int).Lsh(big.NewInt(1), uint(len(f.pow2.entries)))),
-- 
2.43.0


From e83af8d977a8f2f9ad33202e14a7c15731428452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:21 +0000
Subject: [PATCH 05/14] fix: skip the powers of two table when it is never
 queried

A circuit that only compares numbers, or only uses range checks, could be
compiled but not solved: the lookup argument's hint fails without queries.
---
 gadget/gadget.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gadget/gadget.go b/gadget/gadget.go
index 0db0472..c87bd36 100644
--- a/gadget/gadget.go
+++ b/gadget/gadget.go
@@ -31,6 +31,10 @@ func NewPowersOfTwoTable(api frontend.API, size uint) *PowersOfTwo {
 }
 
 func (t *PowersOfTwo) commit(api frontend.API) error {
+	// The lookup argument needs at least one query
+	if len(t.queries) == 0 {
+		return nil
+	}
 	return logderivarg.Build(api, t.entries, t.queries)
 }
 
-- 
2.43.0


From 612c25e361f02efc31df4e01233b734ee4b7fc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:37 +0000
Subject: [PATCH 06/14] fix: do not report overflow when two numbers with the
 largest exponent cancel out

For |x| >= 2^(E_MAX - 1), x + (-x) was infinity: the exponent before
normalization is E_MAX and a zero mantissa has no leading bit to shift.
---
 float/float.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/float/float.go b/float/float.go
index d101c6c..109fa87 100644
--- a/float/float.go
+++ b/float/float.go
@@ -564,8 +564,13 @@ func (f *Context) Add(x, y FloatVar) FloatVar {
 		mantissa_bit_length-1,
 		gadget.TightForSmallAbs,
 	)
-	// Decrement the exponent by `shift`.
-	exponent = f.Api.Sub(exponent, shift)
+	// Decrement the exponent by `shift`. If the mantissa is zero, use 0's exponent instead, as otherwise two
+	// numbers with the largest exponent that cancel out would be treated as an exponent overflow.
+	exponent = f.Api.Select(
+		mantissa_is_zero,
+		f.E_MIN,
+		f.Api.Sub(exponent, shift),
+	)
 
 	// `mantissa_ge_0` can be directly used to determine the sign of the result, except for the case
 	// `-0 + -0`. Therefore, we first check whether the signs of `x` and `y` are the same. If so,
-- 
2.43.0


From 947423bbac6e3bdb836b186a0e27d8af85c527d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:33 +0000
Subject: [PATCH 07/14] fix: report failed witness generation and verification
 in the benchmark helpers

BenchProof, BenchProofToFileGroth16 and BenchProofMemoryGroth16 dropped the
result of groth16.Verify, so a run whose proof does not verify was recorded
as successful, and the ToFile variants used the witness without checking
that it was created.
---
 util/util.go | 49 +++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/util/util.go b/util/util.go
index bc0b627..0ac81b4 100644
--- a/util/util.go
+++ b/util/util.go
@@ -516,9 +516,10 @@ func BenchProof(b *testing.B, circuit, assignment frontend.Circuit) {
 		require.NoError(b, err)
 		fmt.Println("groth16 proved", id, "in", time.Now().UnixMicro()-start, "μs")
 
-		publicWitness, _ := fullWitness.Public()
+		publicWitness, err := fullWitness.Public()
+		require.NoError(b, err)
 
-		groth16.Verify(proof, vk, publicWitness)
+		require.NoError(b, groth16.Verify(proof, vk, publicWitness))
 	}
 }
 
@@ -564,6 +565,10 @@ func BenchProofToFileGroth16(b *testing.B, circuit, assignment frontend.Circuit,
 		fmt.Println("Number of constraints:", cs.GetNbConstraints())
 
 		fullWitness, err := frontend.NewWitness(assignment, ecc.BN254.ScalarField())
+		if err != nil {
+			b.Errorf("Failed Full Witness: %v", err)
+			return err
+		}
 
 		// Setup step with time measurement
 		start = time.Now().UnixMicro()
@@ -587,8 +592,12 @@ func BenchProofToFileGroth16(b *testing.B, circuit, assignment frontend.Circuit,
 
 		// Verifier step with time measurement
 		start = time.Now().UnixMicro()
-		publicWitness, _ := fullWitness.Public()
-		groth16.Verify(proof, vk, publicWitness)
+		publicWitness, err := fullWitness.Public()
+		if err != nil {
+			b.Errorf("Failed to get public witness: %v", err)
+			return err
+		}
+		err = groth16.Verify(proof, vk, publicWitness)
 		if err != nil {
 			b.Errorf("Failed in verifying: %v", err)
 			return err
@@ -649,6 +658,10 @@ func BenchProofToFilePlonk(b *testing.B, circuit, assignment frontend.Circuit, r
 		fmt.Println("Number of constraints:", ccs.GetNbConstraints())
 
 		fullWitness, err := frontend.NewWitness(assignment, ecc.BN254.ScalarField())
+		if err != nil {
+			b.Errorf("Failed Full Witness: %v", err)
+			return err
+		}
 
 		// create srs
 		srs, srsLagrange, err := unsafekzg.NewSRS(ccs)
@@ -679,7 +692,11 @@ func BenchProofToFilePlonk(b *testing.B, circuit, assignment frontend.Circuit, r
 
 		// Verifier step with time measurement
 		start = time.Now().UnixMicro()
-		publicWitness, _ := fullWitness.Public()
+		publicWitness, err := fullWitness.Public()
+		if err != nil {
+			b.Errorf("Failed to get public witness: %v", err)
+			return err
+		}
 		err = plonk.Verify(proof, vk, publicWitness)
 		verifierTime = time.Now().UnixMicro() - start
 		if err != nil {
@@ -743,8 +760,16 @@ func BenchProofMemoryGroth16(b *testing.B, circuit, assignment frontend.Circuit)
 		return err
 	}
 
-	publicWitness, _ := fullWitness.Public()
-	groth16.Verify(proof, vk, publicWitness)
+	publicWitness, err := fullWitness.Public()
+	if err != nil {
+		b.Errorf("Failed to get public witness: %v", err)
+		return err
+	}
+	err = groth16.Verify(proof, vk, publicWitness)
+	if err != nil {
+		b.Errorf("Failed in verifying: %v", err)
+		return err
+	}
 
 	return nil
 }
@@ -764,6 +789,10 @@ func BenchProofMemoryPlonk(b *testing.B, circuit, assignment frontend.Circuit) e
 	}
 
 	srs, srsLagrange, err := unsafekzg.NewSRS(ccs)
+	if err != nil {
+		b.Errorf("Failed to create srs: %v", err)
+		return err
+	}
 
 	pk, vk, err := plonk.Setup(ccs, srs, srsLagrange)
 	if err != nil {
@@ -795,7 +824,11 @@ func BenchProofMemoryPlonk(b *testing.B, circuit, assignment frontend.Circuit) e
 		return err
 	}
 
-	publicWitness, _ := fullWitness.Public()
+	publicWitness, err := fullWitness.Public()
+	if err != nil {
+		b.Errorf("Failed to get public witness: %v", err)
+		return err
+	}
 	err = plonk.Verify(proof, vk, publicWitness)
 	if err != nil {
 		b.Errorf("Failed in verifying: %v", err)
-- 
2.43.0


From 16a5ef27ccae4d17985607a6a894c11264af96ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:34 +0000
Subject: [PATCH 08/14] fix: report cell coordinates that do not fit an int

The conversion errors were dropped and the largest int returned instead of
the coordinate the external tool printed.
---
 proximity/proximity.go | 14 ++++++++------
 util/util.go           | 15 ++++++++++++---
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/proximity/proximity.go b/proximity/proximity.go
index 71201cc..80afaaa 100644
--- a/proximity/proximity.go
+++ b/proximity/proximity.go
@@ -91,13 +91,15 @@ func executeLatLngToIJK(executablePath string, resolution int, latitude, longitu
 		return 0, 0, 0, fmt.Errorf("failed to parse output")
 	}
 
-	return extractInt(matches[1]), extractInt(matches[2]), extractInt(matches[3]), nil
-}
+	var ijk [3]int
+	for n := range ijk {
+		ijk[n], err = strconv.Atoi(matches[n+1])
+		if err != nil {
+			return 0, 0, 0, err
+		}
+	}
 
-// extractInt is a helper function to convert a string to an int.
-func extractInt(s string) int {
-	i, _ := strconv.Atoi(s)
-	return i
+	return ijk[0], ijk[1], ijk[2], nil
 }
 
 func latLngToCell(resolution int, latitude, longitude float64) (string, error) {
diff --git a/util/util.go b/util/util.go
index 0ac81b4..6491d4c 100644
--- a/util/util.go
+++ b/util/util.go
@@ -438,9 +438,18 @@ func ExecuteLatLngToIJK(resolution int, latitude float64, longitude float64) (in
 	}
 
 	// Convert matched strings to integers
-	i, _ := strconv.Atoi(matches[1])
-	j, _ := strconv.Atoi(matches[2])
-	k, _ := strconv.Atoi(matches[3])
+	i, err := strconv.Atoi(matches[1])
+	if err != nil {
+		return 0, 0, 0, err
+	}
+	j, err := strconv.Atoi(matches[2])
+	if err != nil {
+		return 0, 0, 0, err
+	}
+	k, err := strconv.Atoi(matches[3])
+	if err != nil {
+		return 0, 0, 0, err
+	}
 
 	return i, j, k, nil
 }
-- 
2.43.0


From 61f3490181770d0dc1b3e858fb74d82138f71223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:34 +0000
Subject: [PATCH 09/14] fix: keep the signs of cell boundary coordinates

The pattern matched the digits only, so every boundary point west of
Greenwich or south of the equator lost its sign. An output without any
point is now an error like in the other helpers.
---
 proximity/proximity.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/proximity/proximity.go b/proximity/proximity.go
index 80afaaa..b6b5e7d 100644
--- a/proximity/proximity.go
+++ b/proximity/proximity.go
@@ -150,7 +150,7 @@ func cellToBoundary(h3Index string) ([][2]float64, error) {
 		return nil, err
 	}
 
-	pattern := regexp.MustCompile(`(\d+\.\d+)\s+(\d+\.\d+)`)
+	pattern := regexp.MustCompile(`(-?\d+\.\d+)\s+(-?\d+\.\d+)`)
 	matches := pattern.FindAllStringSubmatch(string(output), -1)
 
 	var boundary [][2]float64
@@ -172,6 +172,10 @@ func cellToBoundary(h3Index string) ([][2]float64, error) {
 		boundary = append(boundary, [2]float64{lat, lng})
 	}
 
+	if len(boundary) == 0 {
+		return nil, fmt.Errorf("failed to parse cell boundary")
+	}
+
 	return boundary, nil
 }
 
-- 
2.43.0


From ef559b669b292b3c7569792068db2914891d89e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 10/14] fix: report errors from closing the cell and benchmark
 files

A write that only fails when the file is closed (a full network disk or
quota) was reported as success.
---
 proximity/proximity.go |  9 +++++++--
 util/util.go           | 20 ++++++++++++++++----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/proximity/proximity.go b/proximity/proximity.go
index b6b5e7d..6661d77 100644
--- a/proximity/proximity.go
+++ b/proximity/proximity.go
@@ -45,12 +45,17 @@ func floatToHex(f float64) string {
 }
 
 // WriteHexCellsToFile writes hex cell data to a file.
-func WriteHexCellsToFile(cells []HexCell, filename string, useFloat32 bool) error {
+func WriteHexCellsToFile(cells []HexCell, filename string, useFloat32 bool) (err error) {
 	file, err := os.Create(filename)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer func() {
+		// The data may only reach the disk when the file is closed
+		if closeErr := file.Close(); err == nil {
+			err = closeErr
+		}
+	}()
 
 	for _, cell := range cells {
 		var lat, lon string
diff --git a/util/util.go b/util/util.go
index 6491d4c..daf0a2e 100644
--- a/util/util.go
+++ b/util/util.go
@@ -532,14 +532,20 @@ func BenchProof(b *testing.B, circuit, assignment frontend.Circuit) {
 	}
 }
 
-func BenchProofToFileGroth16(b *testing.B, circuit, assignment frontend.Circuit, resolution int64, index int64, path string) error {
+func BenchProofToFileGroth16(b *testing.B, circuit, assignment frontend.Circuit, resolution int64, index int64, path string) (err error) {
 	// Open a file to save benchmark results
 	file, err := os.OpenFile(path, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
 	if err != nil {
 		b.Errorf("Failed to open file: %v", err)
 		return err
 	}
-	defer file.Close()
+	defer func() {
+		// The record may only reach the disk when the file is closed
+		if closeErr := file.Close(); closeErr != nil && err == nil {
+			b.Errorf("Failed to close file: %v", closeErr)
+			err = closeErr
+		}
+	}()
 
 	info, err := file.Stat()
 	if err != nil {
@@ -625,14 +631,20 @@ func BenchProofToFileGroth16(b *testing.B, circuit, assignment frontend.Circuit,
 	return nil
 }
 
-func BenchProofToFilePlonk(b *testing.B, circuit, assignment frontend.Circuit, resolution int64, index int64, path string) error {
+func BenchProofToFilePlonk(b *testing.B, circuit, assignment frontend.Circuit, resolution int64, index int64, path string) (err error) {
 	// Open a file to save benchmark results
 	file, err := os.OpenFile(path, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
 	if err != nil {
 		b.Errorf("Failed to open file: %v", err)
 		return err
 	}
-	defer file.Close()
+	defer func() {
+		// The record may only reach the disk when the file is closed
+		if closeErr := file.Close(); closeErr != nil && err == nil {
+			b.Errorf("Failed to close file: %v", closeErr)
+			err = closeErr
+		}
+	}()
 
 	info, err := file.Stat()
 	if err != nil {
-- 
2.43.0


From e18e1a9037065355c466c4844417a8b563a9059d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:25 +0000
Subject: [PATCH 11/14] fix: keep constant operands of OR when compiling for
 PLONK

---
 float/float.go | 50 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/float/float.go b/float/float.go
index 109fa87..0e49ccc 100644
--- a/float/float.go
+++ b/float/float.go
@@ -266,6 +266,20 @@ func (f *Context) round(
 	return f.Api.Mul(f.Api.Add(pq, carry), two_to_shift)
 }
 
+// Compute the logical OR of two bits.
+// A constant operand that is 1 is handled here, because the PLONK builder of gnark drops the constant
+// in this case and returns 0.
+func (f *Context) or(a, b frontend.Variable) frontend.Variable {
+	for _, v := range [2][2]frontend.Variable{{a, b}, {b, a}} {
+		if c, ok := f.Api.Compiler().ConstantValue(v[0]); ok && c.Sign() != 0 {
+			f.Api.AssertIsBoolean(v[0])
+			f.Api.AssertIsBoolean(v[1])
+			return big.NewInt(1)
+		}
+	}
+	return f.Api.Or(a, b)
+}
+
 // Fix mantissa and exponent overflow.
 func (f *Context) fixOverflow(
 	mantissa frontend.Variable,
@@ -282,10 +296,10 @@ func (f *Context) fixOverflow(
 	exponent = f.Api.Add(exponent, mantissa_overflow)
 	// Check if exponent overflows. If so, the result is abnormal.
 	// Also, if the input is already abnormal, the result is of course abnormal.
-	is_abnormal := f.Api.Or(f.Gadget.IsPositive(f.Api.Sub(exponent, f.E_MAX), f.E+1), input_is_abnormal)
+	is_abnormal := f.or(f.Gadget.IsPositive(f.Api.Sub(exponent, f.E_MAX), f.E+1), input_is_abnormal)
 
 	return f.Api.Select(
-			f.Api.Or(mantissa_overflow, is_abnormal),
+			f.or(mantissa_overflow, is_abnormal),
 			// If mantissa overflows, we right shift the mantissa by 1 and obtain `2^M`.
 			// If the result is abnormal, we set the mantissa to infinity's mantissa.
 			// We can combine both cases as inifinity's mantissa is `2^M`.
@@ -308,7 +322,7 @@ func (f *Context) fixOverflow(
 
 // Enforce the equality between two numbers.
 func (f *Context) AssertIsEqual(x, y FloatVar) {
-	is_nan := f.Api.Or(
+	is_nan := f.or(
 		f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 		f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 	)
@@ -328,7 +342,7 @@ func (f *Context) AssertIsEqual(x, y FloatVar) {
 
 // Enforce the equality between two numbers, relaxed to checking ULP <1 (optimized)
 func (f *Context) AssertIsEqualOrULP(x, y FloatVar) {
-	is_nan := f.Api.Or(
+	is_nan := f.or(
 		f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 		f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 	)
@@ -345,7 +359,7 @@ func (f *Context) AssertIsEqualOrULP(x, y FloatVar) {
 	// x.e == y.e && (x.m == y.m + 1 || y.m == x.m + 1) ,
 	cmpOne := f.Api.And(
 		f.Gadget.IsEq(x.Exponent, y.Exponent),
-		f.Api.Or(
+		f.or(
 			f.Gadget.IsEq(x.Mantissa, f.Api.Add(y.Mantissa, big.NewInt(1))),
 			f.Gadget.IsEq(y.Mantissa, f.Api.Add(x.Mantissa, big.NewInt(1))),
 		),
@@ -369,7 +383,7 @@ func (f *Context) AssertIsEqualOrULP(x, y FloatVar) {
 		),
 	)
 
-	cmp := f.Api.Or(cmpOne, f.Api.Or(cmpTwo, cmpThree))
+	cmp := f.or(cmpOne, f.or(cmpTwo, cmpThree))
 
 	condOne := f.Gadget.IsEq(cmp, 1)
 
@@ -379,12 +393,12 @@ func (f *Context) AssertIsEqualOrULP(x, y FloatVar) {
 
 	condTwo := f.Api.And(equalityOne, f.Api.And(equalityTwo, equalityThree))
 
-	f.Api.AssertIsEqual(f.Api.Or(condOne, condTwo), 1)
+	f.Api.AssertIsEqual(f.or(condOne, condTwo), 1)
 }
 
 // Enforce the equality between two numbers, relaxed to checking ULP <X
 func (f *Context) AssertIsEqualOrCustomULP32(x, y FloatVar, ulp float32) {
-	is_nan := f.Api.Or(
+	is_nan := f.or(
 		f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 		f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 	)
@@ -410,12 +424,12 @@ func (f *Context) AssertIsEqualOrCustomULP32(x, y FloatVar, ulp float32) {
 
 	condTwo := f.Api.And(equalityOne, f.Api.And(equalityTwo, equalityThree))
 
-	f.Api.AssertIsEqual(f.Api.Or(condOne, condTwo), 1)
+	f.Api.AssertIsEqual(f.or(condOne, condTwo), 1)
 }
 
 // Enforce the equality between two numbers, relaxed to checking ULP <X
 func (f *Context) AssertIsEqualOrCustomULP64(x, y FloatVar, ulp float64) {
-	is_nan := f.Api.Or(
+	is_nan := f.or(
 		f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 		f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 	)
@@ -441,7 +455,7 @@ func (f *Context) AssertIsEqualOrCustomULP64(x, y FloatVar, ulp float64) {
 
 	condTwo := f.Api.And(equalityOne, f.Api.And(equalityTwo, equalityThree))
 
-	f.Api.AssertIsEqual(f.Api.Or(condOne, condTwo), 1)
+	f.Api.AssertIsEqual(f.or(condOne, condTwo), 1)
 }
 
 // Add two numbers.
@@ -605,7 +619,7 @@ func (f *Context) Add(x, y FloatVar) FloatVar {
 		mantissa,
 		mantissa_is_zero,
 		exponent,
-		f.Api.Or(x.IsAbnormal, y.IsAbnormal),
+		f.or(x.IsAbnormal, y.IsAbnormal),
 	)
 
 	y_is_not_abnormal := f.Api.Sub(big.NewInt(1), y.IsAbnormal)
@@ -625,7 +639,7 @@ func (f *Context) Add(x, y FloatVar) FloatVar {
 			x.IsAbnormal,
 			// If `x` is abnormal ...
 			f.Api.Select(
-				f.Api.Or(
+				f.or(
 					y_is_not_abnormal,
 					f.Gadget.IsEq(xx, yy),
 				),
@@ -738,7 +752,7 @@ func (f *Context) Mul(x, y FloatVar) FloatVar {
 	)
 
 	mantissa_is_zero := f.Api.IsZero(mantissa)
-	input_is_abnormal := f.Api.Or(x.IsAbnormal, y.IsAbnormal)
+	input_is_abnormal := f.or(x.IsAbnormal, y.IsAbnormal)
 	mantissa, exponent, is_abnormal := f.fixOverflow(
 		mantissa,
 		mantissa_is_zero,
@@ -841,13 +855,13 @@ func (f *Context) Div(x, y FloatVar) FloatVar {
 	// If `y` is NaN, the result is NaN.
 	// Since both zero and NaN have mantissa 0, we can combine both cases and set the mantissa to 0
 	// when `y` is abnormal.
-	mantissa_is_zero := f.Api.Or(f.Api.IsZero(mantissa), y.IsAbnormal)
+	mantissa_is_zero := f.or(f.Api.IsZero(mantissa), y.IsAbnormal)
 
 	mantissa, exponent, is_abnormal := f.fixOverflow(
 		mantissa,
 		mantissa_is_zero,
 		exponent,
-		f.Api.Or(x.IsAbnormal, y_is_zero),
+		f.or(x.IsAbnormal, y_is_zero),
 	)
 
 	return FloatVar{
@@ -935,7 +949,7 @@ func (f *Context) Sqrt(x FloatVar) FloatVar {
 	// If `x` is NaN, the result is NaN.
 	// If `x` is +infinty, the result is +infinity.
 	// Below we combine all these cases.
-	is_abnormal := f.Api.Or(
+	is_abnormal := f.or(
 		f.Api.And(x.Sign, n_is_not_zero),
 		x.IsAbnormal,
 	)
@@ -969,7 +983,7 @@ func (f *Context) less(x, y FloatVar, allow_eq uint) frontend.Variable {
 	xm_ge_ym := f.Gadget.IsPositive(f.Api.Sub(x.Mantissa, y.Mantissa), f.M+1)
 
 	b := f.Api.Select(
-		f.Api.Or(
+		f.or(
 			f.Api.And(x.IsAbnormal, f.Api.IsZero(x.Mantissa)),
 			f.Api.And(y.IsAbnormal, f.Api.IsZero(y.Mantissa)),
 		),
-- 
2.43.0


From 194a924ccf988cde4f58522df1c2c1a24a35056e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:40 +0000
Subject: [PATCH 12/14] fix: derive the 64-bit half-angle tangent from the same
 sine and cosine

The location circuit checks alpha*delta == gamma up to one ULP. With
math.Tan the honest prover failed for about 3% of all locations.
---
 hint/hint.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hint/hint.go b/hint/hint.go
index 01169ff..f37b97f 100644
--- a/hint/hint.go
+++ b/hint/hint.go
@@ -33,9 +33,11 @@ func PrecomputeHint64(field *big.Int, inputs []*big.Int, outputs []*big.Int) err
 	components := util.ComponentsOf(v, uint64(E), uint64(M))
 	value := util.ComponentsToF64(components)
 
-	alpha := math.Tan(value * 0.5)
 	gamma := math.Sin(value * 0.5)
 	delta := math.Cos(value * 0.5)
+	// The circuits check alpha * delta against gamma up to one ULP. The rounding
+	// errors of math.Tan, math.Sin and math.Cos can add up to more than that.
+	alpha := gamma / delta
 	beta := 2 * gamma * delta
 
 	alpha_components := util.F64ToComponents(alpha)
-- 
2.43.0


From b4da5f65a64e47805c25eb45742f8270ef447de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 13/14] fix: give the arctangent of infinity and of quotients
 with a zero denominator their values

The operand of the polynomial kept the abnormal flag of x after being
replaced with the reciprocal of x, and the flag of the result was dropped,
so AtanRemez64/32 of an infinity and Atan2 with a zero second argument were
neither pi/2 nor NaN.
---
 math/math.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/math/math.go b/math/math.go
index c928393..d3f745d 100644
--- a/math/math.go
+++ b/math/math.go
@@ -78,7 +78,7 @@ func Atan2(f *float.Context, y, x float.FloatVar) float.FloatVar {
 		Sign:       atan2S,
 		Exponent:   atan2E,
 		Mantissa:   atan2M,
-		IsAbnormal: 0,
+		IsAbnormal: f.Api.Select(x.Sign, f.Api.Select(y.Sign, subPi.IsAbnormal, addPi.IsAbnormal), result.IsAbnormal),
 	}
 
 	// TODO: Zero handling -- see below:
@@ -136,6 +136,7 @@ func AtanRemez64(f *float.Context, x float.FloatVar) float.FloatVar {
 
 	x.Exponent = f.Api.Select(greaterOne, reciprocal.Exponent, x.Exponent)
 	x.Mantissa = f.Api.Select(greaterOne, reciprocal.Mantissa, x.Mantissa)
+	x.IsAbnormal = f.Api.Select(greaterOne, reciprocal.IsAbnormal, x.IsAbnormal)
 
 	// Create a Polynomial from the coefficients
 	p := Polynomial(coefficient)
@@ -151,7 +152,7 @@ func AtanRemez64(f *float.Context, x float.FloatVar) float.FloatVar {
 		Sign:       sign,
 		Exponent:   resultE,
 		Mantissa:   resultM,
-		IsAbnormal: 0,
+		IsAbnormal: f.Api.Select(greaterOne, sub.IsAbnormal, result.IsAbnormal),
 	}
 	return res
 }
@@ -190,6 +191,7 @@ func AtanRemez32(f *float.Context, x float.FloatVar) float.FloatVar {
 
 	x.Exponent = f.Api.Select(greaterOne, reciprocal.Exponent, x.Exponent)
 	x.Mantissa = f.Api.Select(greaterOne, reciprocal.Mantissa, x.Mantissa)
+	x.IsAbnormal = f.Api.Select(greaterOne, reciprocal.IsAbnormal, x.IsAbnormal)
 
 	// Create a Polynomial from the coefficients
 	p := Polynomial(coefficient)
@@ -205,7 +207,7 @@ func AtanRemez32(f *float.Context, x float.FloatVar) float.FloatVar {
 		Sign:       sign,
 		Exponent:   resultE,
 		Mantissa:   resultM,
-		IsAbnormal: 0,
+		IsAbnormal: f.Api.Select(greaterOne, sub.IsAbnormal, result.IsAbnormal),
 	}
 	return res
 }
-- 
2.43.0


From 35bb707c134e7c0bfac8064ea7c41973837ae83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:46 +0000
Subject: [PATCH 14/14] fix: evaluate the polynomial in EvalK for every k

The parts beyond the first one added multiples of the point to the sum, so
that the result was no value of the polynomial unless k was 1.
---
 math/math.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/math/math.go b/math/math.go
index d3f745d..abc5635 100644
--- a/math/math.go
+++ b/math/math.go
@@ -35,22 +35,23 @@ func (p Polynomial) EvalK(ctx *float.Context, at float.FloatVar, k int) float.Fl
 		parts[i] = ctx.NewF64Constant(0)
 	}
 
-	// Iterate over the coefficients of the polynomial in reverse order
-	for _, coeff := range p {
-		for j := range parts {
-			if j == 0 {
-				// For the first part, just multiply and add like normal Horner's method
-				parts[j] = ctx.Add(ctx.Mul(parts[j], at), coeff)
-			} else {
-				parts[j] = ctx.Add(ctx.Mul(parts[j], at), ctx.Mul(parts[j-1], at))
-			}
-		}
+	// The coefficients are dealt out to k polynomials in at^k
+	step := at
+	for i := 1; i < k; i++ {
+		step = ctx.Mul(step, at)
+	}
+
+	// Iterate over the coefficients of the polynomial, the highest degree first, and use normal
+	// Horner's method for every part
+	for i, coeff := range p {
+		j := (len(p) - 1 - i) % k
+		parts[j] = ctx.Add(ctx.Mul(parts[j], step), coeff)
 	}
 
 	// Combine the k parts into a single result
-	result := parts[0]
-	for i := 1; i < k; i++ {
-		result = ctx.Add(result, parts[i])
+	result := parts[k-1]
+	for j := k - 2; j >= 0; j-- {
+		result = ctx.Add(ctx.Mul(result, at), parts[j])
 	}
 
 	return result
-- 
2.43.0

