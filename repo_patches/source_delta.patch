From 4e86c6ae05aaf25c1451e2e3b94485b152920388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 01/70] fix: document the actual range of lazily reduced
 forward NTT outputs

---
 ring/ring_ntt.go           | 10 +++++-----
 ring/ring_ntt_interface.go | 12 ++++++------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/ring/ring_ntt.go b/ring/ring_ntt.go
index 73f4d17..ce49b45 100644
--- a/ring/ring_ntt.go
+++ b/ring/ring_ntt.go
@@ -33,14 +33,14 @@ func (r *Ring) NTTLvl(level int, p1, p2 *Poly) {
 }
 
 // NTTLazy computes the NTT of p1 and returns the result on p2.
-// Output values are in the range [0, 2q-1]
+// Output values are in the range [0, 8q-1]
 func (r *Ring) NTTLazy(p1, p2 *Poly) {
 	r.NumberTheoreticTransformer.ForwardLazy(r, p1, p2)
 }
 
 // NTTLazyLvl computes the NTT of p1 and returns the result on p2.
 // The value level defines the number of moduli of the input polynomials.
-// Output values are in the range [0, 2q-1]
+// Output values are in the range [0, 8q-1]
 func (r *Ring) NTTLazyLvl(level int, p1, p2 *Poly) {
 	r.NumberTheoreticTransformer.ForwardLazyLvl(r, level, p1, p2)
 }
@@ -53,7 +53,7 @@ func (r *Ring) NTTSingle(level int, p1, p2 []uint64) {
 
 // NTTSingleLazy computes the NTT of p1 and returns the result on p2.
 // The level-th moduli of the ring NTT params are used.
-// Output values are in the range [0, 2q-1]
+// Output values are in the range [0, 8q-1]
 func (r *Ring) NTTSingleLazy(level int, p1, p2 []uint64) {
 	r.NumberTheoreticTransformer.ForwardLazyVec(r, level, p1, p2)
 }
@@ -121,7 +121,7 @@ func NTT(coeffsIn, coeffsOut []uint64, N int, nttPsi []uint64, Q, mredParams uin
 	ReduceVec(coeffsOut, coeffsOut, Q, bredParams)
 }
 
-// NTTLazy computes the NTT on the input coefficients using the input parameters with output values in the range [0, 2q-1].
+// NTTLazy computes the NTT on the input coefficients using the input parameters with output values in the range [0, 8q-1].
 func NTTLazy(coeffsIn, coeffsOut []uint64, N int, nttPsi []uint64, Q, QInv uint64, bredParams []uint64) {
 	var j1, j2, t int
 	var F, V uint64
@@ -504,7 +504,7 @@ func NTTConjugateInvariant(coeffsIn, coeffsOut []uint64, N int, nttPsi []uint64,
 	ReduceVec(coeffsOut, coeffsOut, Q, bredParams)
 }
 
-// NTTConjugateInvariantLazy computes the NTT in the closed sub-ring Z[X + X^-1]/(X^2N +1) of Z[X]/(X^2N+1) with output values in the range [0, 2q-1].
+// NTTConjugateInvariantLazy computes the NTT in the closed sub-ring Z[X + X^-1]/(X^2N +1) of Z[X]/(X^2N+1) with output values in the range [0, 8q-1].
 func NTTConjugateInvariantLazy(coeffsIn, coeffsOut []uint64, N int, nttPsi []uint64, Q, QInv uint64, bredParams []uint64) {
 	var t, h int
 	var F, V uint64
diff --git a/ring/ring_ntt_interface.go b/ring/ring_ntt_interface.go
index 842b7c5..f883948 100644
--- a/ring/ring_ntt_interface.go
+++ b/ring/ring_ntt_interface.go
@@ -53,7 +53,7 @@ func (rntt NumberTheoreticTransformerStandard) ForwardLvl(r *Ring, level int, p1
 }
 
 // ForwardLazy writes the forward NTT in Z[X]/(X^N+1) of p1 on p2.
-// Returns values in the range [0, 2q-1].
+// Returns values in the range [0, 8q-1].
 func (rntt NumberTheoreticTransformerStandard) ForwardLazy(r *Ring, p1, p2 *Poly) {
 	for x := range r.Modulus {
 		NTTLazy(p1.Coeffs[x], p2.Coeffs[x], r.N, r.NttPsi[x], r.Modulus[x], r.MredParams[x], r.BredParams[x])
@@ -61,7 +61,7 @@ func (rntt NumberTheoreticTransformerStandard) ForwardLazy(r *Ring, p1, p2 *Poly
 }
 
 // ForwardLazyLvl writes the forward NTT in Z[X]/(X^N+1) of p1 on p2.
-// Only computes the NTT for the first level+1 moduli and returns values in the range [0, 2q-1].
+// Only computes the NTT for the first level+1 moduli and returns values in the range [0, 8q-1].
 func (rntt NumberTheoreticTransformerStandard) ForwardLazyLvl(r *Ring, level int, p1, p2 *Poly) {
 	for x := 0; x < level+1; x++ {
 		NTTLazy(p1.Coeffs[x], p2.Coeffs[x], r.N, r.NttPsi[x], r.Modulus[x], r.MredParams[x], r.BredParams[x])
@@ -105,7 +105,7 @@ func (rntt NumberTheoreticTransformerStandard) ForwardVec(r *Ring, level int, p1
 }
 
 // ForwardLazyVec writes the forward NTT in Z[X]/(X^N+1) of the i-th level of p1 on the i-th level of p2.
-// Returns values in the range [0, 2q-1].
+// Returns values in the range [0, 8q-1].
 func (rntt NumberTheoreticTransformerStandard) ForwardLazyVec(r *Ring, level int, p1, p2 []uint64) {
 	NTTLazy(p1, p2, r.N, r.NttPsi[level], r.Modulus[level], r.MredParams[level], r.BredParams[level])
 }
@@ -148,7 +148,7 @@ func (rntt NumberTheoreticTransformerConjugateInvariant) ForwardLvl(r *Ring, lev
 }
 
 // ForwardLazy writes the forward NTT in Z[X+X^-1]/(X^2N+1) on p2.
-// Returns values in the range [0, 2q-1].
+// Returns values in the range [0, 8q-1].
 func (rntt NumberTheoreticTransformerConjugateInvariant) ForwardLazy(r *Ring, p1, p2 *Poly) {
 	for x := range r.Modulus {
 		NTTConjugateInvariantLazy(p1.Coeffs[x], p2.Coeffs[x], r.N, r.NttPsi[x], r.Modulus[x], r.MredParams[x], r.BredParams[x])
@@ -156,7 +156,7 @@ func (rntt NumberTheoreticTransformerConjugateInvariant) ForwardLazy(r *Ring, p1
 }
 
 // ForwardLazyLvl writes the forward NTT in Z[X+X^-1]/(X^2N+1) on p2.
-// Only computes the NTT for the first level+1 moduli and returns values in the range [0, 2q-1].
+// Only computes the NTT for the first level+1 moduli and returns values in the range [0, 8q-1].
 func (rntt NumberTheoreticTransformerConjugateInvariant) ForwardLazyLvl(r *Ring, level int, p1, p2 *Poly) {
 	for x := 0; x < level+1; x++ {
 		NTTConjugateInvariantLazy(p1.Coeffs[x], p2.Coeffs[x], r.N, r.NttPsi[x], r.Modulus[x], r.MredParams[x], r.BredParams[x])
@@ -200,7 +200,7 @@ func (rntt NumberTheoreticTransformerConjugateInvariant) ForwardVec(r *Ring, lev
 }
 
 // ForwardLazyVec writes the forward NTT in Z[X+X^-1]/(X^2N+1) of the i-th level of p1 on the i-th level of p2.
-// Returns values in the range [0, 2q-1].
+// Returns values in the range [0, 8q-1].
 func (rntt NumberTheoreticTransformerConjugateInvariant) ForwardLazyVec(r *Ring, level int, p1, p2 []uint64) {
 	NTTConjugateInvariantLazy(p1, p2, r.N, r.NttPsi[level], r.Modulus[level], r.MredParams[level], r.BredParams[level])
 }
-- 
2.43.0


From b26efb2adeb8185225bc7c65f39a4dbe1d7d254a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 02/70] fix: scalar additions and subtractions write to the
 destination and reduce the scalar

---
 ring/ring_operations.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 7882ff4..5ceebd4 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -319,7 +319,7 @@ func (r *Ring) AddScalar(p1 *Poly, scalar uint64, p2 *Poly) {
 // AddScalarLvl adds a scalar to each coefficient of p1 and writes the result on p2.
 func (r *Ring) AddScalarLvl(level int, p1 *Poly, scalar uint64, p2 *Poly) {
 	for i := 0; i < level+1; i++ {
-		AddScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], scalar, r.Modulus[i])
+		AddScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], BRedAdd(scalar, r.Modulus[i], r.BredParams[i]), r.Modulus[i])
 	}
 }
 
@@ -332,7 +332,7 @@ func (r *Ring) AddScalarBigint(p1 *Poly, scalar *big.Int, p2 *Poly) {
 func (r *Ring) AddScalarBigintLvl(level int, p1 *Poly, scalar *big.Int, p2 *Poly) {
 	tmp := new(big.Int)
 	for i := 0; i < level+1; i++ {
-		AddScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
+		AddScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
 	}
 }
 
@@ -344,7 +344,7 @@ func (r *Ring) SubScalar(p1 *Poly, scalar uint64, p2 *Poly) {
 // SubScalarLvl subtracts a scalar from each coefficient of p1 and writes the result on p2.
 func (r *Ring) SubScalarLvl(level int, p1 *Poly, scalar uint64, p2 *Poly) {
 	for i := 0; i < level+1; i++ {
-		SubScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], scalar, r.Modulus[i])
+		SubScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], BRedAdd(scalar, r.Modulus[i], r.BredParams[i]), r.Modulus[i])
 	}
 }
 
@@ -357,7 +357,7 @@ func (r *Ring) SubScalarBigint(p1 *Poly, scalar *big.Int, p2 *Poly) {
 func (r *Ring) SubScalarBigintLvl(level int, p1 *Poly, scalar *big.Int, p2 *Poly) {
 	tmp := new(big.Int)
 	for i := 0; i < level+1; i++ {
-		SubScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
+		SubScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
 	}
 }
 
-- 
2.43.0


From 87f77154ba61cae7c5962c8e68acdb059d16fd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 03/70] fix: MulByPow2 out of place uses the Montgomery form of
 its input

---
 ring/ring_operations.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 5ceebd4..5f3c8a3 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -444,7 +444,7 @@ func (r *Ring) MulByPow2(p1 *Poly, pow2 int, p2 *Poly) {
 func (r *Ring) MulByPow2Lvl(level int, p1 *Poly, pow2 int, p2 *Poly) {
 	r.MFormLvl(level, p1, p2)
 	for i := 0; i < level+1; i++ {
-		MulByPow2Vec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], pow2, r.Modulus[i], r.MredParams[i])
+		MulByPow2Vec(p2.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], pow2, r.Modulus[i], r.MredParams[i])
 	}
 }
 
-- 
2.43.0


From 72216431243e6c7b00c2306c732d417cf3178f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 04/70] fix: ModDownQPtoP divides by the moduli of Q up to
 levelQ

---
 ring/ring_basis_extension.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/ring_basis_extension.go b/ring/ring_basis_extension.go
index 499ead1..fd5cb1f 100644
--- a/ring/ring_basis_extension.go
+++ b/ring/ring_basis_extension.go
@@ -271,7 +271,7 @@ func (be *BasisExtender) ModDownQPtoP(levelQ, levelP int, p1Q, p1P, p2P *Poly) {
 	// Finally, for each level of p1 (and polypool since they now share the same basis) we compute p2 = (P^-1) * (p1 - polypool) mod Q
 	for i := 0; i < levelP+1; i++ {
 		// Then for each coefficient we compute (P^-1) * (p1[i][j] - polypool[i][j]) mod qi
-		SubVecAndMulScalarMontgomeryTwoQiVec(polypool.Coeffs[i], p1P.Coeffs[i], p2P.Coeffs[i], ringP.Modulus[i]-modDownParams[levelP][i], ringP.Modulus[i], ringP.MredParams[i])
+		SubVecAndMulScalarMontgomeryTwoQiVec(polypool.Coeffs[i], p1P.Coeffs[i], p2P.Coeffs[i], ringP.Modulus[i]-modDownParams[levelQ][i], ringP.Modulus[i], ringP.MredParams[i])
 	}
 
 	// In total we do len(P) + len(Q) NTT, which is optimal (linear in the number of moduli of P and Q)
-- 
2.43.0


From aded5a3b8e4801e81d5f77ddbd8f0e83134b481e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 05/70] fix: basis extension from more than 32 moduli

---
 ring/ring_basis_extension.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ring/ring_basis_extension.go b/ring/ring_basis_extension.go
index fd5cb1f..28b4706 100644
--- a/ring/ring_basis_extension.go
+++ b/ring/ring_basis_extension.go
@@ -22,6 +22,9 @@ import (
 	"unsafe"
 )
 
+// maxBasisSize is the largest number of moduli a basis extension can start from.
+const maxBasisSize = 100
+
 // BasisExtender stores the necessary parameters for RNS basis extension.
 // The used algorithm is from https://eprint.iacr.org/2018/117.pdf.
 type BasisExtender struct {
@@ -281,7 +284,7 @@ func (be *BasisExtender) ModDownQPtoP(levelQ, levelP int, p1Q, p1P, p2P *Poly) {
 func modUpExact(p1, p2 [][]uint64, ringQ, ringP *Ring, params modupParams) {
 
 	var v [8]uint64
-	var y0, y1, y2, y3, y4, y5, y6, y7 [32]uint64
+	var y0, y1, y2, y3, y4, y5, y6, y7 [maxBasisSize]uint64
 
 	Q := ringQ.Modulus
 	P := ringP.Modulus
@@ -401,7 +404,7 @@ func (decomposer *Decomposer) DecomposeAndSplit(levelQ, levelP, alpha, beta int,
 
 		var v [8]uint64
 		var vi [8]float64
-		var y0, y1, y2, y3, y4, y5, y6, y7 [32]uint64
+		var y0, y1, y2, y3, y4, y5, y6, y7 [maxBasisSize]uint64
 
 		Q := ringQ.Modulus
 		P := ringP.Modulus
@@ -478,7 +481,7 @@ func (decomposer *Decomposer) DecomposeAndSplit(levelQ, levelP, alpha, beta int,
 	}
 }
 
-func reconstructRNS(index, x int, p [][]uint64, v *[8]uint64, y0, y1, y2, y3, y4, y5, y6, y7 *[32]uint64, Q, QInv, QbMont []uint64) {
+func reconstructRNS(index, x int, p [][]uint64, v *[8]uint64, y0, y1, y2, y3, y4, y5, y6, y7 *[maxBasisSize]uint64, Q, QInv, QbMont []uint64) {
 
 	var vi [8]float64
 	var qi, qiInv, qoverqiinvqi uint64
@@ -523,7 +526,7 @@ func reconstructRNS(index, x int, p [][]uint64, v *[8]uint64, y0, y1, y2, y3, y4
 }
 
 // Caution, returns the values in [0, 2q-1]
-func multSum(res, v *[8]uint64, y0, y1, y2, y3, y4, y5, y6, y7 *[32]uint64, alpha int, pj, qInv uint64, vtimesqmodp, qoverqimodp []uint64) {
+func multSum(res, v *[8]uint64, y0, y1, y2, y3, y4, y5, y6, y7 *[maxBasisSize]uint64, alpha int, pj, qInv uint64, vtimesqmodp, qoverqimodp []uint64) {
 
 	var rlo, rhi [8]uint64
 	var mhi, mlo, c, hhi uint64
-- 
2.43.0


From 76e79f7674ba7fb5370baa97556fa57880022405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:17 +0000
Subject: [PATCH 06/70] fix: ModDownQPtoQNTT no longer overflows for 61-bit
 moduli

---
 ring/ring_basis_extension.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ring/ring_basis_extension.go b/ring/ring_basis_extension.go
index 28b4706..4150cf0 100644
--- a/ring/ring_basis_extension.go
+++ b/ring/ring_basis_extension.go
@@ -245,8 +245,9 @@ func (be *BasisExtender) ModDownQPtoQNTT(levelQ, levelP int, p1Q, p1P, p2Q *Poly
 	// polypool is now the representation of the P basis of p1 but in basis Q (at the "level" of p1)
 	be.ModUpPtoQ(levelP, levelQ, polypoolP, polypoolQ)
 
-	// First we switch back the relevant polypool CRT array back to the NTT domain
-	ringQ.NTTLazyLvl(levelQ, polypoolQ, polypoolQ)
+	// First we switch back the relevant polypool CRT array back to the NTT domain (fully reduced: 2q plus a
+	// lazy value in [0, 8q-1] would overflow for 61-bit moduli)
+	ringQ.NTTLvl(levelQ, polypoolQ, polypoolQ)
 
 	// Finally, for each level of p1 (and polypool since they now share the same basis) we compute p2 = (P^-1) * (p1 - polypool) mod Q
 	for i := 0; i < levelQ+1; i++ {
-- 
2.43.0


From 6d10e29e305b1b1b497079c9175f6fcc83466ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:04 +0000
Subject: [PATCH 07/70] fix: SimpleScaler reduces the rounded quotient modulo t

---
 ring/ring_scaling.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ring/ring_scaling.go b/ring/ring_scaling.go
index e05b74e..b76d8da 100644
--- a/ring/ring_scaling.go
+++ b/ring/ring_scaling.go
@@ -265,6 +265,9 @@ func (ss *SimpleScaler) reconstructThenScale(p1, p2 *Poly) {
 			coeff.Add(coeff, ss.one)
 		}
 
+		// The rounded quotient can be equal to t
+		coeff.Mod(coeff, ss.tBI)
+
 		for j := range p2.Coeffs {
 			p2.Coeffs[j][i] = coeff.Uint64()
 		}
-- 
2.43.0


From 6b410f4dfc6346b6f70b0209b3b36af84e85f5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 08/70] fix: DivRoundByLastModulusLvl leaves its input
 unchanged

---
 ring/ring_scaling.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ring/ring_scaling.go b/ring/ring_scaling.go
index b76d8da..df26942 100644
--- a/ring/ring_scaling.go
+++ b/ring/ring_scaling.go
@@ -409,9 +409,12 @@ func (r *Ring) DivRoundByLastModulusLvl(level int, p0, p1 *Poly) {
 
 	for i := 0; i < level; i++ {
 		qi := r.Modulus[i]
-		AddScalarNoModAndNegTwoQiNoModVec(p0.Coeffs[i], p0.Coeffs[i], qi-BRedAdd(pHalf, qi, r.BredParams[i]), qi)
-		AddVecNoModAndMulScalarMontgomeryVec(p0.Coeffs[level], p0.Coeffs[i], p1.Coeffs[i], r.RescaleParams[level-1][i], qi, r.MredParams[i])
+		AddScalarNoModAndNegTwoQiNoModVec(p0.Coeffs[i], p1.Coeffs[i], qi-BRedAdd(pHalf, qi, r.BredParams[i]), qi)
+		AddVecNoModAndMulScalarMontgomeryVec(p0.Coeffs[level], p1.Coeffs[i], p1.Coeffs[i], r.RescaleParams[level-1][i], qi, r.MredParams[i])
 	}
+
+	// Undo the centering, p0 is not an output
+	SubScalarVec(p0.Coeffs[level], p0.Coeffs[level], pHalf, pj)
 }
 
 // DivRoundByLastModulusManyNTTLvl divides (rounded) sequentially nbRescales times the polynomial by its last modulus. The input must be in the NTT domain.
-- 
2.43.0


From be29dd6b71a7ef7fa5d15cbb0d0ce59f052502aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:16 +0000
Subject: [PATCH 09/70] fix: division by the last modulus in the NTT domain is
 not off by one

---
 ring/ring_scaling.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ring/ring_scaling.go b/ring/ring_scaling.go
index df26942..49e080e 100644
--- a/ring/ring_scaling.go
+++ b/ring/ring_scaling.go
@@ -309,7 +309,7 @@ func (ss *SimpleScaler) reconstructAndScale(p1, p2 *Poly) {
 // DivFloorByLastModulusNTTLvl divides (floored) the polynomial by its last modulus. The input must be in the NTT domain.
 // Output poly level must be equal or one less than input level.
 func (r *Ring) DivFloorByLastModulusNTTLvl(level int, p0, pool, p1 *Poly) {
-	r.InvNTTSingleLazy(level, p0.Coeffs[level], pool.Coeffs[0])
+	r.InvNTTSingle(level, p0.Coeffs[level], pool.Coeffs[0])
 	for i := 0; i < level; i++ {
 		r.NTTSingleLazy(i, pool.Coeffs[0], pool.Coeffs[1])
 		// (-x[i] + x[-1]) * -InvQ
@@ -381,7 +381,7 @@ func (r *Ring) DivFloorByLastModulusManyLvl(level, nbRescales int, p0, pool, p1
 // Output poly level must be equal or one less than input level.
 func (r *Ring) DivRoundByLastModulusNTTLvl(level int, p0, pool, p1 *Poly) {
 
-	r.InvNTTSingleLazy(level, p0.Coeffs[level], pool.Coeffs[level])
+	r.InvNTTSingle(level, p0.Coeffs[level], pool.Coeffs[level])
 
 	// Center by (p-1)/2
 	pj := r.Modulus[level]
-- 
2.43.0


From 6e67c628febc9876805b9315df00353bf4af45ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:51 +0000
Subject: [PATCH 10/70] fix: division by the last modulus in the NTT domain no
 longer overflows for 61-bit moduli

---
 ring/ring_scaling.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ring/ring_scaling.go b/ring/ring_scaling.go
index 49e080e..0153bcc 100644
--- a/ring/ring_scaling.go
+++ b/ring/ring_scaling.go
@@ -311,7 +311,7 @@ func (ss *SimpleScaler) reconstructAndScale(p1, p2 *Poly) {
 func (r *Ring) DivFloorByLastModulusNTTLvl(level int, p0, pool, p1 *Poly) {
 	r.InvNTTSingle(level, p0.Coeffs[level], pool.Coeffs[0])
 	for i := 0; i < level; i++ {
-		r.NTTSingleLazy(i, pool.Coeffs[0], pool.Coeffs[1])
+		r.NTTSingle(i, pool.Coeffs[0], pool.Coeffs[1])
 		// (-x[i] + x[-1]) * -InvQ
 		SubVecAndMulScalarMontgomeryTwoQiVec(pool.Coeffs[1], p0.Coeffs[i], p1.Coeffs[i], r.RescaleParams[level-1][i], r.Modulus[i], r.MredParams[i])
 	}
@@ -392,7 +392,7 @@ func (r *Ring) DivRoundByLastModulusNTTLvl(level int, p0, pool, p1 *Poly) {
 	for i := 0; i < level; i++ {
 		qi := r.Modulus[i]
 		AddScalarNoModVec(pool.Coeffs[level], pool.Coeffs[i], qi-BRedAdd(pHalf, qi, r.BredParams[i]))
-		r.NTTSingleLazy(i, pool.Coeffs[i], pool.Coeffs[i])
+		r.NTTSingle(i, pool.Coeffs[i], pool.Coeffs[i])
 		SubVecAndMulScalarMontgomeryTwoQiVec(pool.Coeffs[i], p0.Coeffs[i], p1.Coeffs[i], r.RescaleParams[level-1][i], qi, r.MredParams[i])
 	}
 }
-- 
2.43.0


From 944b2f3c56c2d2a62b4c95a73464beeed72db9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:20 +0000
Subject: [PATCH 11/70] fix: MultByMonomial accepts negative degrees

---
 ring/ring_operations.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 5f3c8a3..4879c67 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -458,7 +458,7 @@ func (r *Ring) MultByMonomialNew(p1 *Poly, monomialDeg int) (p2 *Poly) {
 // MultByMonomial multiplies p1 by x^monomialDeg and writes the result on p2.
 func (r *Ring) MultByMonomial(p1 *Poly, monomialDeg int, p2 *Poly) {
 
-	shift := monomialDeg % (r.N << 1)
+	shift := monomialDeg & ((r.N << 1) - 1)
 
 	if shift == 0 {
 
-- 
2.43.0


From a3d727859bb776508212daba53c9453ccb77707e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 12/70] fix: Shift takes any amount and never aliases its input

---
 ring/ring_operations.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 4879c67..5fa8ed3 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -390,9 +390,9 @@ func (r *Ring) MulScalarBigintLvl(level int, p1 *Poly, scalar *big.Int, p2 *Poly
 
 // Shift circulary shifts the coefficients of the polynomial p1 by n positions to the left and writes the result on p2.
 func (r *Ring) Shift(p1 *Poly, n int, p2 *Poly) {
-	mask := (1 << r.N) - 1
+	n &= r.N - 1
 	for i := range r.Modulus {
-		p2.Coeffs[i] = append(p1.Coeffs[i][(n&mask):], p1.Coeffs[i][:(n&mask)]...)
+		p2.Coeffs[i] = append(append(make([]uint64, 0, r.N), p1.Coeffs[i][n:r.N]...), p1.Coeffs[i][:n]...)
 	}
 }
 
-- 
2.43.0


From a9aee863f31fa6efa6ce4973d6e0edcbacce6619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:23 +0000
Subject: [PATCH 13/70] fix: Rotate writes to its output and takes any amount

---
 ring/ring_operations.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 5fa8ed3..398fe37 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -582,7 +582,7 @@ func (r *Ring) Rotate(p1 *Poly, n int, p2 *Poly) {
 
 	var root, gal uint64
 
-	n &= (1 << r.N) - 1
+	n &= r.N - 1
 
 	for i, qi := range r.Modulus {
 
@@ -594,7 +594,9 @@ func (r *Ring) Rotate(p1 *Poly, n int, p2 *Poly) {
 
 		gal = MForm(1, qi, r.BredParams[i])
 
-		p1tmp, p2tmp := p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N]
+		p1tmp, p2tmp := p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N]
+
+		p2tmp[0] = p1tmp[0]
 
 		for j := 1; j < r.N; j++ {
 
-- 
2.43.0


From 8df472d472a8746112570b1aa6f2a246f793c34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:24 +0000
Subject: [PATCH 14/70] fix: SwitchCiphertextRingDegreeNTT writes to its output

---
 rlwe/elements.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlwe/elements.go b/rlwe/elements.go
index ba1f11e..b3ef2c0 100644
--- a/rlwe/elements.go
+++ b/rlwe/elements.go
@@ -168,7 +168,7 @@ func SwitchCiphertextRingDegreeNTT(ctIn *Ciphertext, ringQSmallDim, ringQLargeDi
 		pool := make([]uint64, NIn)
 		for i := range ctOut.Value {
 			for j := range ctOut.Value[i].Coeffs {
-				tmpIn, tmpOut := ctIn.Value[i].Coeffs[j], ctIn.Value[i].Coeffs[j]
+				tmpIn, tmpOut := ctIn.Value[i].Coeffs[j], ctOut.Value[i].Coeffs[j]
 				ringQLargeDim.InvNTTSingle(j, tmpIn, pool)
 				for w0, w1 := 0, 0; w0 < NOut; w0, w1 = w0+1, w1+gap {
 					tmpOut[w0] = pool[w1]
-- 
2.43.0


From 64aa2c7f764bd155e25904868036fbbcaf54438f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 15/70] fix: SwitchCiphertextRingDegree clears the coefficients
 between the embedded ones

---
 rlwe/elements.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rlwe/elements.go b/rlwe/elements.go
index b3ef2c0..7ff5fe6 100644
--- a/rlwe/elements.go
+++ b/rlwe/elements.go
@@ -199,6 +199,11 @@ func SwitchCiphertextRingDegree(ctIn *Ciphertext, ctOut *Ciphertext) {
 	for i := range ctOut.Value {
 		for j := range ctOut.Value[i].Coeffs {
 			tmp0, tmp1 := ctOut.Value[i].Coeffs[j], ctIn.Value[i].Coeffs[j]
+			if gapIn > 1 {
+				for w := range tmp0 {
+					tmp0[w] = 0
+				}
+			}
 			for w0, w1 := 0, 0; w0 < NOut; w0, w1 = w0+gapIn, w1+gapOut {
 				tmp0[w0] = tmp1[w1]
 			}
-- 
2.43.0


From 717b2afdda0a8b1f056e0c434531f51cc3dd3282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 16/70] fix: ternary sampler no longer reuses sign bits for the
 next coefficient

---
 ring/ring_sampler_ternary.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ring/ring_sampler_ternary.go b/ring/ring_sampler_ternary.go
index 32a390d..8f1ca7e 100644
--- a/ring/ring_sampler_ternary.go
+++ b/ring/ring_sampler_ternary.go
@@ -280,9 +280,9 @@ func (ts *TernarySampler) kysampling(prng utils.PRNG, randomBytes []byte, pointe
 						sign = uint8(randomBytes[bytePointer]) & 1
 
 					} else {
-						pointer = i
 						// Otherwise, the sign is the next bit of the byte
-						sign = uint8(randomBytes[bytePointer]>>(i+1)) & 1
+						pointer = i + 1
+						sign = uint8(randomBytes[bytePointer]>>pointer) & 1
 					}
 
 					return uint64(row), uint64(sign), randomBytes, pointer + 1, bytePointer
-- 
2.43.0


From 37de8b4057692e9733e51e8518e4219edadb5f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 17/70] fix: next and previous NTT prime searches stop at their
 limits

---
 ring/primes.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/ring/primes.go b/ring/primes.go
index 532aa46..87cb208 100644
--- a/ring/primes.go
+++ b/ring/primes.go
@@ -46,40 +46,40 @@ func GenerateNTTPrimes(logQ, NthRoot, n int) (primes []uint64) {
 // The input q must be itself an NTT prime for the given NthRoot.
 func NextNTTPrime(q uint64, NthRoot int) (qNext uint64, err error) {
 
-	qNext = q + uint64(NthRoot)
+	qNext = q
 
-	for !IsPrime(qNext) {
+	for {
 
 		qNext += uint64(NthRoot)
 
 		if bits.Len64(qNext) > 61 {
 			return 0, fmt.Errorf("next NTT prime exceeds the maximum bit-size of 61 bits")
 		}
-	}
 
-	return qNext, nil
+		if IsPrime(qNext) {
+			return qNext, nil
+		}
+	}
 }
 
 // PreviousNTTPrime returns the previous NthRoot NTT prime after q.
 // The input q must be itself an NTT prime for the given NthRoot.
 func PreviousNTTPrime(q uint64, NthRoot int) (qPrev uint64, err error) {
 
-	if q < uint64(NthRoot) {
-		return 0, fmt.Errorf("previous NTT prime is smaller than NthRoot")
-	}
-
-	qPrev = q - uint64(NthRoot)
+	qPrev = q
 
-	for !IsPrime(qPrev) {
+	for {
 
-		if q < uint64(NthRoot) {
+		if qPrev < uint64(NthRoot) {
 			return 0, fmt.Errorf("previous NTT prime is smaller than NthRoot")
 		}
 
 		qPrev -= uint64(NthRoot)
-	}
 
-	return qPrev, nil
+		if IsPrime(qPrev) {
+			return qPrev, nil
+		}
+	}
 }
 
 // GenerateNTTPrimesQ generates "levels" different NthRoot NTT-friendly
-- 
2.43.0


From debfd27c85edcb84ee968988f2a74f48b9954381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 18/70] fix: NewParameters returns empty parameters on error

---
 rlwe/params.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rlwe/params.go b/rlwe/params.go
index 5c10865..88950ee 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -109,7 +109,11 @@ func NewParameters(logn int, q, p []uint64, h int, sigma float64, ringType ring.
 	copy(params.qi, q)
 	copy(params.pi, p)
 
-	return params, params.initRings()
+	if err = params.initRings(); err != nil {
+		return Parameters{}, err
+	}
+
+	return params, nil
 }
 
 // NewParametersFromLiteral instantiate a set of generic RLWE parameters from a ParametersLiteral specification.
-- 
2.43.0


From 6486062c9083dbd5018f1b88f3f8d45e0ffdfc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 19/70] fix: invalid parameter literals give an error instead
 of a panic

---
 rlwe/params.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rlwe/params.go b/rlwe/params.go
index 88950ee..21a9a0b 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -130,6 +130,10 @@ func NewParameters(logn int, q, p []uint64, h int, sigma float64, ringType ring.
 // If the RingType is left unset, the default value is ring.Standard.
 func NewParametersFromLiteral(paramDef ParametersLiteral) (Parameters, error) {
 
+	if err := checkSizeParams(paramDef.LogN, len(paramDef.Q), len(paramDef.P)); err != nil {
+		return Parameters{}, err
+	}
+
 	if paramDef.H == 0 {
 		paramDef.H = 1 << (paramDef.LogN - 1)
 	}
@@ -152,7 +156,7 @@ func NewParametersFromLiteral(paramDef ParametersLiteral) (Parameters, error) {
 		case ring.ConjugateInvariant:
 			q, p, err = GenModuli(paramDef.LogN+1, paramDef.LogQ, paramDef.LogP)
 		default:
-			panic("invalid ring type")
+			err = fmt.Errorf("invalid ring type")
 		}
 		if err != nil {
 			return Parameters{}, err
-- 
2.43.0


From 7de9ebea99df7511c885179bccf1dcdf56c385e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:13 +0000
Subject: [PATCH 20/70] fix: overflow margins are computed exactly

---
 frlwe/params.go | 2 +-
 rlwe/params.go  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/frlwe/params.go b/frlwe/params.go
index 91c749f..98b4ba6 100644
--- a/frlwe/params.go
+++ b/frlwe/params.go
@@ -67,7 +67,7 @@ func (p Parameters) RingT() *ring.Ring {
 }
 
 func (p Parameters) TiOverflowMargin(level int) int {
-	return int(math.Exp2(64) / float64(utils.MaxSliceUint64(p.ringT.Modulus[:level+1])))
+	return int(math.MaxUint64 / utils.MaxSliceUint64(p.ringT.Modulus[:level+1]))
 }
 
 func (p Parameters) Gamma() int {
diff --git a/rlwe/params.go b/rlwe/params.go
index 21a9a0b..6a8d4f5 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -346,13 +346,13 @@ func (p Parameters) Beta() int {
 // QiOverflowMargin returns floor(2^64 / max(Qi)), i.e. the number of times elements of Z_max{Qi} can
 // be added together before overflowing 2^64.
 func (p *Parameters) QiOverflowMargin(level int) int {
-	return int(math.Exp2(64) / float64(utils.MaxSliceUint64(p.qi[:level+1])))
+	return int(math.MaxUint64 / utils.MaxSliceUint64(p.qi[:level+1]))
 }
 
 // PiOverflowMargin returns floor(2^64 / max(Pi)), i.e. the number of times elements of Z_max{Pi} can
 // be added together before overflowing 2^64.
 func (p *Parameters) PiOverflowMargin(level int) int {
-	return int(math.Exp2(64) / float64(utils.MaxSliceUint64(p.pi[:level+1])))
+	return int(math.MaxUint64 / utils.MaxSliceUint64(p.pi[:level+1]))
 }
 
 // GaloisElementForColumnRotationBy returns the galois element for plaintext
-- 
2.43.0


From b2cb05d60fe428915ebbd529de8bcd1c6350f1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 21/70] fix: moduli too large for the NTT are rejected

---
 rlwe/params.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rlwe/params.go b/rlwe/params.go
index 6a8d4f5..69e51f4 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -512,13 +512,13 @@ func CheckModuli(q, p []uint64) error {
 	}
 
 	for i, qi := range q {
-		if uint64(bits.Len64(qi)-1) > MaxModuliSize+1 {
+		if bits.Len64(qi) > MaxModuliSize+1 {
 			return fmt.Errorf("a Qi bit-size (i=%d) is larger than %d", i, MaxModuliSize)
 		}
 	}
 
 	for i, pi := range p {
-		if uint64(bits.Len64(pi)-1) > MaxModuliSize+2 {
+		if bits.Len64(pi) > MaxModuliSize+1 {
 			return fmt.Errorf("a Pi bit-size (i=%d) is larger than %d", i, MaxModuliSize)
 		}
 	}
-- 
2.43.0


From 231c8c45d1ae46d0d7ad9184619b4fcfb59cf1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 22/70] fix: frlwe parameters given by moduli sizes

---
 frlwe/params.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frlwe/params.go b/frlwe/params.go
index 98b4ba6..feca7ac 100644
--- a/frlwe/params.go
+++ b/frlwe/params.go
@@ -42,8 +42,8 @@ func NewParametersFromLiteral(pl ParametersLiteral) (params Parameters) {
 	}
 
 	moduliR := make([]uint64, 0)
-	moduliR = append(moduliR, pl.P...)
-	moduliR = append(moduliR, pl.Q...)
+	moduliR = append(moduliR, rlweParams.P()...)
+	moduliR = append(moduliR, rlweParams.Q()...)
 
 	ringR, err := ring.NewRing(N, moduliR)
 	if err != nil {
-- 
2.43.0


From 3ed9e075264dcb18873662b840f23430c366011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:46 +0000
Subject: [PATCH 23/70] fix: NewRing returns an error for a zero modulus

---
 ring/ring.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ring/ring.go b/ring/ring.go
index b92420e..7720497 100644
--- a/ring/ring.go
+++ b/ring/ring.go
@@ -217,6 +217,12 @@ func (r *Ring) setParameters(N int, Modulus []uint64) error {
 		return errors.New("invalid modulus (moduli are not distinct)")
 	}
 
+	for _, qi := range Modulus {
+		if qi == 0 {
+			return errors.New("invalid modulus (moduli must be non-zero)")
+		}
+	}
+
 	r.AllowsNTT = false
 
 	r.N = N
-- 
2.43.0


From ebe56c1930ea847d6dbfaf94598381542556dbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 24/70] fix: polynomials are encoded correctly into a buffer
 that held other data

---
 ring/ring_poly.go | 2 ++
 rlwe/ring_qp.go   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ring/ring_poly.go b/ring/ring_poly.go
index 8d88a9d..a4c8391 100644
--- a/ring/ring_poly.go
+++ b/ring/ring_poly.go
@@ -208,6 +208,7 @@ func (pol *Poly) WriteTo(data []byte) (int, error) {
 	}
 	data[0] = uint8(bits.Len64(uint64(N)) - 1)
 	data[1] = uint8(numberModuli)
+	data[2], data[3] = 0, 0
 	if pol.IsNTT {
 		data[2] = 1
 	}
@@ -234,6 +235,7 @@ func (pol *Poly) WriteTo32(data []byte) (int, error) {
 	}
 	data[0] = uint8(bits.Len64(uint64(N)) - 1)
 	data[1] = uint8(numberModuli)
+	data[2], data[3] = 0, 0
 	if pol.IsNTT {
 		data[2] = 1
 	}
diff --git a/rlwe/ring_qp.go b/rlwe/ring_qp.go
index 8756801..d6b564f 100644
--- a/rlwe/ring_qp.go
+++ b/rlwe/ring_qp.go
@@ -366,6 +366,8 @@ func (p *PolyQP) GetDataLen(WithMetadata bool) (dataLen int) {
 func (p *PolyQP) WriteTo(data []byte) (pt int, err error) {
 	var inc int
 
+	data[0], data[1] = 0, 0
+
 	if p.Q != nil {
 		data[0] = 1
 	}
-- 
2.43.0


From 9f6f478655caa75fa95dbf7e8ed46b26e1b5819a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:24 +0000
Subject: [PATCH 25/70] fix: decoding into a polynomial that held another value

---
 ring/ring_poly.go | 31 ++++++++-----------------------
 rlwe/ring_qp.go   |  2 ++
 2 files changed, 10 insertions(+), 23 deletions(-)

diff --git a/ring/ring_poly.go b/ring/ring_poly.go
index a4c8391..fbdfc71 100644
--- a/ring/ring_poly.go
+++ b/ring/ring_poly.go
@@ -331,13 +331,8 @@ func (pol *Poly) UnmarshalBinary(data []byte) (err error) {
 	N := int(1 << data[0])
 	numberModulies := int(data[1])
 
-	if data[2] == 1 {
-		pol.IsNTT = true
-	}
-
-	if data[3] == 1 {
-		pol.IsMForm = true
-	}
+	pol.IsNTT = data[2] == 1
+	pol.IsMForm = data[3] == 1
 
 	pointer := 4
 
@@ -359,17 +354,12 @@ func (pol *Poly) DecodePolyNew(data []byte) (pointer int, err error) {
 	N := int(1 << data[0])
 	numberModulies := int(data[1])
 
-	if data[2] == 1 {
-		pol.IsNTT = true
-	}
-
-	if data[3] == 1 {
-		pol.IsMForm = true
-	}
+	pol.IsNTT = data[2] == 1
+	pol.IsMForm = data[3] == 1
 
 	pointer = 4
 
-	if pol.Coeffs == nil {
+	if len(pol.Coeffs) != numberModulies {
 		pol.Coeffs = make([][]uint64, numberModulies)
 	}
 
@@ -387,17 +377,12 @@ func (pol *Poly) DecodePolyNew32(data []byte) (pointer int, err error) {
 	N := int(1 << data[0])
 	numberModulies := int(data[1])
 
-	if data[2] == 1 {
-		pol.IsNTT = true
-	}
-
-	if data[3] == 1 {
-		pol.IsMForm = true
-	}
+	pol.IsNTT = data[2] == 1
+	pol.IsMForm = data[3] == 1
 
 	pointer = 4
 
-	if pol.Coeffs == nil {
+	if len(pol.Coeffs) != numberModulies {
 		pol.Coeffs = make([][]uint64, numberModulies)
 	}
 
diff --git a/rlwe/ring_qp.go b/rlwe/ring_qp.go
index d6b564f..a33595c 100644
--- a/rlwe/ring_qp.go
+++ b/rlwe/ring_qp.go
@@ -401,6 +401,8 @@ func (p *PolyQP) DecodePolyNew(data []byte) (pt int, err error) {
 	var inc int
 	pt = 2
 
+	p.Q, p.P = nil, nil
+
 	if data[0] == 1 {
 		p.Q = new(ring.Poly)
 		if inc, err = p.Q.DecodePolyNew(data[pt:]); err != nil {
-- 
2.43.0


From b28d12a73b4823d4f1d73e7b3020b44301f6ac4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 26/70] fix: a decoded ring has a number theoretic transformer

---
 ring/ring.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ring/ring.go b/ring/ring.go
index 7720497..740f26d 100644
--- a/ring/ring.go
+++ b/ring/ring.go
@@ -382,6 +382,16 @@ func (r *Ring) UnmarshalBinary(data []byte) error {
 	if err := r.setParameters(parameters.N, parameters.Modulus); err != nil {
 		return err
 	}
+
+	switch parameters.NthRoot {
+	case uint64(2 * parameters.N):
+		r.NumberTheoreticTransformer = NumberTheoreticTransformerStandard{}
+	case uint64(4 * parameters.N):
+		r.NumberTheoreticTransformer = NumberTheoreticTransformerConjugateInvariant{}
+	default:
+		return errors.New("invalid NthRoot")
+	}
+
 	if err := r.genNTTParams(parameters.NthRoot); err != nil {
 		return err
 	}
-- 
2.43.0


From 3e4a545082576a59a24ae40c96fcca572130d426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:26 +0000
Subject: [PATCH 27/70] fix: the JSON encoding of rlwe parameters keeps the
 ring type

---
 rlwe/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlwe/params.go b/rlwe/params.go
index 69e51f4..771a7db 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -487,7 +487,7 @@ func (p Parameters) MarshalBinarySize() int {
 
 // MarshalJSON returns a JSON representation of this parameter set. See `Marshal` from the `encoding/json` package.
 func (p Parameters) MarshalJSON() ([]byte, error) {
-	return json.Marshal(&ParametersLiteral{LogN: p.logN, Q: p.qi, P: p.pi, H: p.h, Sigma: p.sigma})
+	return json.Marshal(&ParametersLiteral{LogN: p.logN, Q: p.qi, P: p.pi, H: p.h, Sigma: p.sigma, RingType: p.ringType})
 }
 
 // UnmarshalJSON reads a JSON representation of a parameter set into the receiver Parameter. See `Unmarshal` from the `encoding/json` package.
-- 
2.43.0


From ec8440a170eba03963a9285d0f1874ccae48c32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 28/70] fix: ckks parameters report JSON decoding errors

---
 ckks/params.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ckks/params.go b/ckks/params.go
index 95e2a9b..0915cf3 100644
--- a/ckks/params.go
+++ b/ckks/params.go
@@ -602,7 +602,9 @@ func (p Parameters) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON reads a JSON representation of a parameter set into the receiver Parameter. See `Unmarshal` from the `encoding/json` package.
 func (p *Parameters) UnmarshalJSON(data []byte) (err error) {
 	var params ParametersLiteral
-	json.Unmarshal(data, &params)
+	if err = json.Unmarshal(data, &params); err != nil {
+		return err
+	}
 	*p, err = NewParametersFromLiteral(params)
 	return
 }
-- 
2.43.0


From fc7b14a89c704ff484f5e0a287bed9cfbc7b6cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 29/70] fix: slice equality compares the lengths

---
 utils/utils.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/utils/utils.go b/utils/utils.go
index daa82d8..a35326c 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -48,6 +48,9 @@ func RandComplex128(min, max float64) complex128 {
 
 // EqualSliceUint64 checks the equality between two uint64 slices.
 func EqualSliceUint64(a, b []uint64) (v bool) {
+	if len(a) != len(b) {
+		return false
+	}
 	v = true
 	for i := range a {
 		v = v && (a[i] == b[i])
@@ -57,6 +60,9 @@ func EqualSliceUint64(a, b []uint64) (v bool) {
 
 // EqualSliceInt64 checks the equality between two int64 slices.
 func EqualSliceInt64(a, b []int64) (v bool) {
+	if len(a) != len(b) {
+		return false
+	}
 	v = true
 	for i := range a {
 		v = v && (a[i] == b[i])
@@ -66,6 +72,9 @@ func EqualSliceInt64(a, b []int64) (v bool) {
 
 // EqualSliceUint8 checks the equality between two uint8 slices.
 func EqualSliceUint8(a, b []uint8) (v bool) {
+	if len(a) != len(b) {
+		return false
+	}
 	v = true
 	for i := range a {
 		v = v && (a[i] == b[i])
-- 
2.43.0


From 1edcced38580d66413fecc65643eb86cc4660547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:30 +0000
Subject: [PATCH 30/70] fix: PolyQP.Equals compares absent polynomials

---
 rlwe/ring_qp.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/rlwe/ring_qp.go b/rlwe/ring_qp.go
index a33595c..df7de6d 100644
--- a/rlwe/ring_qp.go
+++ b/rlwe/ring_qp.go
@@ -39,14 +39,7 @@ func (p *PolyQP) Equals(other PolyQP) (v bool) {
 		return true
 	}
 
-	v = true
-	if p.Q != nil {
-		v = p.Q.Equals(other.Q)
-	}
-	if p.P != nil {
-		v = v && p.P.Equals(other.P)
-	}
-	return v
+	return p.Q.Equals(other.Q) && p.P.Equals(other.P)
 }
 
 // CopyValues copies the coefficients of p1 on the target polynomial.
-- 
2.43.0


From cb4936d32e36e48fa3aa772ff11ad70852422995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 31/70] fix: the encoding of a rotation key set is
 deterministic

---
 rlwe/marshaler.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rlwe/marshaler.go b/rlwe/marshaler.go
index 5a177aa..629c86f 100644
--- a/rlwe/marshaler.go
+++ b/rlwe/marshaler.go
@@ -19,6 +19,7 @@ package rlwe
 import (
 	"encoding/binary"
 	"errors"
+	"sort"
 
 	"fast-ksw/ring"
 )
@@ -315,7 +316,15 @@ func (rtks *RotationKeySet) MarshalBinary() (data []byte, err error) {
 
 	pointer := int(0)
 
-	for galEL, key := range rtks.Keys {
+	galEls := make([]uint64, 0, len(rtks.Keys))
+	for galEl := range rtks.Keys {
+		galEls = append(galEls, galEl)
+	}
+	sort.Slice(galEls, func(i, j int) bool { return galEls[i] < galEls[j] })
+
+	for _, galEL := range galEls {
+
+		key := rtks.Keys[galEL]
 
 		binary.BigEndian.PutUint32(data[pointer:pointer+4], uint32(galEL))
 		pointer += 4
-- 
2.43.0


From ce4da47d3ce2563ccd7755cff3831a9b0599f886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:02 +0000
Subject: [PATCH 32/70] fix: Decrypt reduces its output for every ciphertext
 degree

---
 rlwe/decryptor.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rlwe/decryptor.go b/rlwe/decryptor.go
index aa4d4c8..05a7374 100644
--- a/rlwe/decryptor.go
+++ b/rlwe/decryptor.go
@@ -82,9 +82,7 @@ func (d *decryptor) Decrypt(ciphertext *Ciphertext, plaintext *Plaintext) {
 		}
 	}
 
-	if (ciphertext.Degree())&7 != 7 {
-		ringQ.ReduceLvl(level, plaintext.Value, plaintext.Value)
-	}
+	ringQ.ReduceLvl(level, plaintext.Value, plaintext.Value)
 
 	if !plaintext.Value.IsNTT {
 		ringQ.InvNTTLvl(level, plaintext.Value, plaintext.Value)
-- 
2.43.0


From 8a132265f1f88b4b2c8d7188403d6b701c25c651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:44 +0000
Subject: [PATCH 33/70] fix: Decrypt does not overflow when adding lazily
 transformed polynomials

---
 rlwe/decryptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlwe/decryptor.go b/rlwe/decryptor.go
index 05a7374..f42d57d 100644
--- a/rlwe/decryptor.go
+++ b/rlwe/decryptor.go
@@ -71,7 +71,7 @@ func (d *decryptor) Decrypt(ciphertext *Ciphertext, plaintext *Plaintext) {
 		ringQ.MulCoeffsMontgomeryLvl(level, plaintext.Value, d.sk.Value.Q, plaintext.Value)
 
 		if !ciphertext.Value[0].IsNTT {
-			ringQ.NTTLazyLvl(level, ciphertext.Value[i-1], d.pool)
+			ringQ.NTTLvl(level, ciphertext.Value[i-1], d.pool)
 			ringQ.AddLvl(level, plaintext.Value, d.pool, plaintext.Value)
 		} else {
 			ringQ.AddLvl(level, plaintext.Value, ciphertext.Value[i-1], plaintext.Value)
-- 
2.43.0


From 8ffa38f5b54667bc44ff9c9e8bbd6053fd8d8edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:08 +0000
Subject: [PATCH 34/70] fix: frlwe key generator calls the embedded generator
 instead of itself

---
 frlwe/keygen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frlwe/keygen.go b/frlwe/keygen.go
index 0f4a0b1..715470a 100644
--- a/frlwe/keygen.go
+++ b/frlwe/keygen.go
@@ -49,11 +49,11 @@ func NewKeyGenerator(params Parameters) (keygen *KeyGenerator) {
 }
 
 func (keygen *KeyGenerator) GenSecretKey() *rlwe.SecretKey {
-	return keygen.GenSecretKey()
+	return keygen.KeyGenerator.GenSecretKey()
 }
 
 func (keygen *KeyGenerator) GenPublicKey(sk *rlwe.SecretKey) *rlwe.PublicKey {
-	return keygen.GenPublicKey(sk)
+	return keygen.KeyGenerator.GenPublicKey(sk)
 }
 
 func (keygen *KeyGenerator) polyQPToPolyTs(polyQP rlwe.PolyQP, polyTs []*ring.Poly) {
-- 
2.43.0


From 965b198ec8131fcc2c93ed02e465445deaadbd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:37 +0000
Subject: [PATCH 35/70] fix: slice rotations by zero return a new slice

---
 utils/utils.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/utils.go b/utils/utils.go
index a35326c..e8353c3 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -173,7 +173,7 @@ func AllDistinct(s []uint64) bool {
 
 // RotateUint64Slice returns a new slice corresponding to s rotated by k positions to the left.
 func RotateUint64Slice(s []uint64, k int) []uint64 {
-	if k == 0 || len(s) == 0 {
+	if len(s) == 0 {
 		return s
 	}
 	r := k % len(s)
@@ -188,7 +188,7 @@ func RotateUint64Slice(s []uint64, k int) []uint64 {
 
 // RotateInt64Slice returns a new slice corresponding to s rotated by k positions to the left.
 func RotateInt64Slice(s []int64, k int) []int64 {
-	if k == 0 || len(s) == 0 {
+	if len(s) == 0 {
 		return s
 	}
 	r := k % len(s)
@@ -213,7 +213,7 @@ func RotateUint64Slots(s []uint64, k int) []uint64 {
 
 // RotateComplex128Slice returns a new slice corresponding to s rotated by k positions to the left.
 func RotateComplex128Slice(s []complex128, k int) []complex128 {
-	if k == 0 || len(s) == 0 {
+	if len(s) == 0 {
 		return s
 	}
 	r := k % len(s)
@@ -228,7 +228,7 @@ func RotateComplex128Slice(s []complex128, k int) []complex128 {
 
 // RotateFloat64Slice returns a new slice corresponding to s rotated by k positions to the left.
 func RotateFloat64Slice(s []float64, k int) []float64 {
-	if k == 0 || len(s) == 0 {
+	if len(s) == 0 {
 		return s
 	}
 	r := k % len(s)
-- 
2.43.0


From 271a8146a358cb3609e218422d98e9674535d40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:38 +0000
Subject: [PATCH 36/70] fix: DivRound into its denominator

---
 ring/int.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ring/int.go b/ring/int.go
index c955eb8..b2f2e8c 100644
--- a/ring/int.go
+++ b/ring/int.go
@@ -53,11 +53,12 @@ func RandInt(max *big.Int) (n *big.Int) {
 // DivRound sets the target i to round(a/b).
 func DivRound(a, b, i *big.Int) {
 	_a := new(big.Int).Set(a)
-	i.Quo(_a, b)
-	r := new(big.Int).Rem(_a, b)
+	_b := new(big.Int).Set(b)
+	i.Quo(_a, _b)
+	r := new(big.Int).Rem(_a, _b)
 	r2 := new(big.Int).Mul(r, NewInt(2))
-	if r2.CmpAbs(b) != -1.0 {
-		if _a.Sign() == b.Sign() {
+	if r2.CmpAbs(_b) != -1.0 {
+		if _a.Sign() == _b.Sign() {
 			i.Add(i, NewInt(1))
 		} else {
 			i.Sub(i, NewInt(1))
-- 
2.43.0


From 9a84e4cfffb63f17731dfef5888e0c84d60a0116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:40 +0000
Subject: [PATCH 37/70] fix: centered reconstruction of (Q-1)/2

---
 ring/ring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/ring.go b/ring/ring.go
index 740f26d..8f56b42 100644
--- a/ring/ring.go
+++ b/ring/ring.go
@@ -589,7 +589,7 @@ func (r *Ring) PolyToBigintCenteredLvl(level int, p1 *Poly, gap int, coeffsBigin
 		// Centers the coefficients
 		sign = coeffsBigint[i].Cmp(modulusBigintHalf)
 
-		if sign == 1 || sign == 0 {
+		if sign == 1 {
 			coeffsBigint[i].Sub(coeffsBigint[i], modulusBigint)
 		}
 	}
-- 
2.43.0


From ce8e46c17a69b97464c57ba6fc2027c9a61922e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:42 +0000
Subject: [PATCH 38/70] fix: Ring.Equal and Ring.EqualLvl leave their inputs
 unchanged

---
 ring/ring.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/ring/ring.go b/ring/ring.go
index 8f56b42..acee1e9 100644
--- a/ring/ring.go
+++ b/ring/ring.go
@@ -604,12 +604,10 @@ func (r *Ring) Equal(p1, p2 *Poly) bool {
 		}
 	}
 
-	r.Reduce(p1, p1)
-	r.Reduce(p2, p2)
-
 	for i := 0; i < len(r.Modulus); i++ {
+		qi, bredParams := r.Modulus[i], r.BredParams[i]
 		for j := 0; j < r.N; j++ {
-			if p1.Coeffs[i][j] != p2.Coeffs[i][j] {
+			if BRedAdd(p1.Coeffs[i][j], qi, bredParams) != BRedAdd(p2.Coeffs[i][j], qi, bredParams) {
 				return false
 			}
 		}
@@ -627,12 +625,10 @@ func (r *Ring) EqualLvl(level int, p1, p2 *Poly) bool {
 		}
 	}
 
-	r.ReduceLvl(level, p1, p1)
-	r.ReduceLvl(level, p2, p2)
-
 	for i := 0; i < level+1; i++ {
+		qi, bredParams := r.Modulus[i], r.BredParams[i]
 		for j := 0; j < r.N; j++ {
-			if p1.Coeffs[i][j] != p2.Coeffs[i][j] {
+			if BRedAdd(p1.Coeffs[i][j], qi, bredParams) != BRedAdd(p2.Coeffs[i][j], qi, bredParams) {
 				return false
 			}
 		}
-- 
2.43.0


From 4d258f4be810dd8ef271a44f3b5907a8182a1a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 39/70] fix: encoding of values that scale to exactly 2^64

---
 ckks/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ckks/utils.go b/ckks/utils.go
index 308797a..f21b1db 100644
--- a/ckks/utils.go
+++ b/ckks/utils.go
@@ -158,7 +158,7 @@ func singleFloatToFixedPointCRT(level, i int, value float64, scale float64, ring
 
 	moduli := ringQ.Modulus
 
-	if value > 1.8446744073709552e+19 {
+	if value >= 1.8446744073709552e+19 {
 		xFlo = big.NewFloat(value)
 		xFlo.Add(xFlo, big.NewFloat(0.5))
 		xInt = new(big.Int)
-- 
2.43.0


From c4b3d386dce64ef1d384cb3d86e513dabc995143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 40/70] fix: sparse encoding with fewer than 16 coefficients

---
 ckks/utils.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/ckks/utils.go b/ckks/utils.go
index f21b1db..66ee74e 100644
--- a/ckks/utils.go
+++ b/ckks/utils.go
@@ -68,6 +68,25 @@ func NttAndMontgomeryLvl(level int, logSlots int, ringQ *ring.Ring, montgomery b
 
 		N := ringQ.N
 		gap := N / n
+
+		// The NTT is not defined in dimension smaller than 16: maps Z[Y] to Z[X] first
+		if n < 16 {
+			for i := 0; i < level+1; i++ {
+				coeffs := pol.Coeffs[i]
+				for j := n; j < N; j++ {
+					coeffs[j] = 0
+				}
+				for j := n - 1; j > 0; j-- {
+					coeffs[j*gap], coeffs[j] = coeffs[j], 0
+				}
+			}
+			ringQ.NTTLvl(level, pol, pol)
+			if montgomery {
+				ringQ.MFormLvl(level, pol, pol)
+			}
+			return
+		}
+
 		for i := 0; i < level+1; i++ {
 
 			coeffs := pol.Coeffs[i]
-- 
2.43.0


From 2492bdab7bfb565cc8cdbcdc7fd93d558b99774f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 41/70] fix: EncodeCoeffs clears the coefficients without a
 value

---
 ckks/encoder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ckks/encoder.go b/ckks/encoder.go
index 949391c..fad2da8 100644
--- a/ckks/encoder.go
+++ b/ckks/encoder.go
@@ -261,6 +261,11 @@ func (ecd *encoderComplex128) EncodeCoeffs(values []float64, plaintext *Plaintex
 		panic("cannot EncodeCoeffs : too many values (maximum is N)")
 	}
 	floatToFixedPointCRT(plaintext.Level(), values, plaintext.Scale, ecd.params.RingQ(), plaintext.Value.Coeffs)
+	for _, coeffs := range plaintext.Value.Coeffs {
+		for i := len(values); i < len(coeffs); i++ {
+			coeffs[i] = 0
+		}
+	}
 	ecd.params.RingQ().NTTLvl(plaintext.Level(), plaintext.Value, plaintext.Value)
 	plaintext.Value.IsNTT = true
 }
-- 
2.43.0


From 4fa8fb794543a3073edce466c1a58140b014cd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 42/70] fix: Embed sets the domain flags of its output

---
 ckks/encoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ckks/encoder.go b/ckks/encoder.go
index fad2da8..7b93292 100644
--- a/ckks/encoder.go
+++ b/ckks/encoder.go
@@ -429,9 +429,12 @@ func (ecd *encoderComplex128) Embed(values interface{}, logSlots int, scale floa
 		complexToFixedPointCRT(p.P.Level(), ecd.values[:slots], scale, ecd.params.RingP(), p.P.Coeffs, isRingStandard)
 		NttAndMontgomeryLvl(p.Q.Level(), logSlots, ecd.params.RingQ(), montgomery, p.Q)
 		NttAndMontgomeryLvl(p.P.Level(), logSlots, ecd.params.RingP(), montgomery, p.P)
+		p.Q.IsNTT, p.Q.IsMForm = true, montgomery
+		p.P.IsNTT, p.P.IsMForm = true, montgomery
 	case *ring.Poly:
 		complexToFixedPointCRT(p.Level(), ecd.values[:slots], scale, ecd.params.RingQ(), p.Coeffs, isRingStandard)
 		NttAndMontgomeryLvl(p.Level(), logSlots, ecd.params.RingQ(), montgomery, p)
+		p.IsNTT, p.IsMForm = true, montgomery
 	default:
 		panic("invalid polyOut.(Type) must be rlwe.PolyQP or *ring.Poly")
 	}
-- 
2.43.0


From be8ff06095a275b73fb90895dfc9487444c61258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 43/70] fix: unrolled special FFT of 8 values writes past its
 buffer

---
 ckks/ckks_vector_ops.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ckks/ckks_vector_ops.go b/ckks/ckks_vector_ops.go
index b967528..e0d23d2 100644
--- a/ckks/ckks_vector_ops.go
+++ b/ckks/ckks_vector_ops.go
@@ -68,6 +68,12 @@ func SpecialFFTVec(values []complex128, N, M int, rotGroup []int, roots []comple
 // SpecialFFTUL8Vec performs the CKKS special FFT transform in place with unrolled loops of size 8.
 func SpecialFFTUL8Vec(values []complex128, N, M int, rotGroup []int, roots []complex128) {
 
+	// The unrolled loops work on blocks of 16 values
+	if N < 16 {
+		SpecialFFTVec(values, N, M, rotGroup, roots)
+		return
+	}
+
 	SliceBitReverseInPlaceComplex128(values, N)
 
 	logN := int(bits.Len64(uint64(N))) - 1
@@ -231,6 +237,12 @@ func SpecialFFTUL8Vec(values []complex128, N, M int, rotGroup []int, roots []com
 // SpecialiFFTUL8Vec performs the CKKS special inverse FFT transform in place with unrolled loops of size 8.
 func SpecialiFFTUL8Vec(values []complex128, N, M int, rotGroup []int, roots []complex128) {
 
+	// The unrolled loops work on blocks of 16 values
+	if N < 16 {
+		SpecialiFFTVec(values, N, M, rotGroup, roots)
+		return
+	}
+
 	logN := int(bits.Len64(uint64(N))) - 1
 	logM := int(bits.Len64(uint64(M))) - 1
 
-- 
2.43.0


From 195b359f5e0ea33539cb823e226d3feeeb6bd881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 44/70] fix: ComplexMultiplier keeps the precision of its first
 operands

---
 ring/complex128.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ring/complex128.go b/ring/complex128.go
index 4743125..ecc33a2 100644
--- a/ring/complex128.go
+++ b/ring/complex128.go
@@ -143,9 +143,19 @@ func NewComplexMultiplier() (cEval *ComplexMultiplier) {
 	return
 }
 
+// reset makes the temporary values take the precision of the next operands
+func (cEval *ComplexMultiplier) reset() {
+	cEval.tmp0.SetPrec(0)
+	cEval.tmp1.SetPrec(0)
+	cEval.tmp2.SetPrec(0)
+	cEval.tmp3.SetPrec(0)
+}
+
 // Mul multiplies two arbitrary precision complex numbers together
 func (cEval *ComplexMultiplier) Mul(a, b, c *Complex) {
 
+	cEval.reset()
+
 	cEval.tmp0.Mul(a[0], b[0])
 	cEval.tmp1.Mul(a[1], b[1])
 	cEval.tmp2.Mul(a[0], b[1])
@@ -162,6 +172,8 @@ func (cEval *ComplexMultiplier) Div(a, b, c *Complex) {
 	// tmp1 = (a[1] * b[0]) - (a[0] * b[0]) imag part
 	// tmp2 = (b[0] * b[0]) + (b[1] * b[1]) denominator
 
+	cEval.reset()
+
 	cEval.tmp0.Mul(a[0], b[0])
 	cEval.tmp1.Mul(a[1], b[1])
 	cEval.tmp2.Mul(a[1], b[0])
-- 
2.43.0


From d445f836b3331db718ac3464a723d0c31f1c4a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 45/70] fix: EncoderBigComplex.InvFFT of N values leaves the
 other values unchanged

---
 ckks/encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ckks/encoder.go b/ckks/encoder.go
index 7b93292..f0ebe3a 100644
--- a/ckks/encoder.go
+++ b/ckks/encoder.go
@@ -799,7 +799,7 @@ func (ecd *encoderBigComplex) InvFFT(values []*ring.Complex, N int) {
 	}
 
 	NBig := ring.NewFloat(float64(N), ecd.logPrecision)
-	for i := range values {
+	for i := range values[:N] {
 		values[i][0].Quo(values[i][0], NBig)
 		values[i][1].Quo(values[i][1], NBig)
 	}
-- 
2.43.0


From fffe02d0748ca9516b4da7b1f99fb9ec82dccad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 46/70] fix: EncoderBigComplex decodes plaintexts outside of
 the NTT domain

---
 ckks/encoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ckks/encoder.go b/ckks/encoder.go
index f0ebe3a..fcdb3a6 100644
--- a/ckks/encoder.go
+++ b/ckks/encoder.go
@@ -841,7 +841,11 @@ func (ecd *encoderBigComplex) decodePublic(plaintext *Plaintext, logSlots int, s
 		panic("cannot Decode: too many slots for the given ring degree")
 	}
 
-	ecd.params.RingQ().InvNTTLvl(plaintext.Level(), plaintext.Value, ecd.polypool)
+	if plaintext.Value.IsNTT {
+		ecd.params.RingQ().InvNTTLvl(plaintext.Level(), plaintext.Value, ecd.polypool)
+	} else {
+		ring.CopyValuesLvl(plaintext.Level(), plaintext.Value, ecd.polypool)
+	}
 
 	if sigma != 0 {
 		// B = floor(sigma * sqrt(2*pi))
-- 
2.43.0


From 692f478f749b68cc8ce8334aecc5ce44a317213c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 47/70] fix: Rotate and Conjugate in place add the first
 polynomial of the input

---
 ckks/evaluator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 546ef6e..0ec0874 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1460,10 +1460,10 @@ func (eval *evaluator) permuteNTT(ct0 *Ciphertext, galEl uint64, ctOut *Cipherte
 
 	ringQ.InvNTTLvl(level, ct0.Value[1], pool2Q)
 	pool2Q.IsNTT = false
-	eval.SwitchKeysInPlace(level, pool2Q, rtk, ctOut.Value[0], ctOut.Value[1])
+	eval.SwitchKeysInPlace(level, pool2Q, rtk, eval.Pool[3].Q, eval.Pool[4].Q)
 
-	ringQ.NTTLvl(level, ctOut.Value[0], pool2Q)
-	ringQ.NTTLvl(level, ctOut.Value[1], pool3Q)
+	ringQ.NTTLvl(level, eval.Pool[3].Q, pool2Q)
+	ringQ.NTTLvl(level, eval.Pool[4].Q, pool3Q)
 
 	ringQ.AddLvl(level, pool2Q, ct0.Value[0], pool2Q)
 
-- 
2.43.0


From dd9e095e3f8e5c8f82d09a7e2d3086196577d86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 48/70] fix: MulAndAdd and MulRelinAndAdd add both cross terms
 of the product

---
 ckks/evaluator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 0ec0874..19ca8f1 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1295,8 +1295,8 @@ func (eval *evaluator) mulRelinAndAdd(op0, op1 Operand, relin bool, ctOut *Ciphe
 		ringQ.MFormLvl(level, tmp0.Value[1], c01)
 
 		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c00, tmp1.Value[0], c0) // c0 = c[0]*c[0]
-		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c00, tmp1.Value[1], c1) // c1 = c[0]*c[1]
-		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c00, tmp1.Value[1], c1) // c1 = c[0]*c[1]
+		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c00, tmp1.Value[1], c1) // c1 = c0[0]*c1[1]
+		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c01, tmp1.Value[0], c1) // c1 = c0[0]*c1[1] + c0[1]*c1[0]
 
 		if relin {
 			c2.IsNTT = true
-- 
2.43.0


From 9f584566d03f19af376504fda0c379b1bf9a5267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 49/70] fix: MulAndAdd and MulRelinAndAdd accept a receiver
 that is an operand

---
 ckks/evaluator.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 19ca8f1..47e6d82 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1256,6 +1256,14 @@ func (eval *evaluator) mulRelinAndAdd(op0, op1 Operand, relin bool, ctOut *Ciphe
 
 	resScale := op0.ScalingFactor() * op1.ScalingFactor()
 
+	// Avoids overwriting the inputs while accumulating on the receiver
+	if op0.El() == ctOut.El() {
+		op0 = ctOut.CopyNew()
+	}
+	if op1.El() == ctOut.El() {
+		op1 = ctOut.CopyNew()
+	}
+
 	if ctOut.Scale < resScale {
 		eval.MultByConst(ctOut, math.Round(resScale/ctOut.Scale), ctOut)
 		ctOut.Scale = resScale
-- 
2.43.0


From 5b0123f73ad38be4807d7d00e65e64e246d107aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 50/70] fix: MulRelin returns coefficients reduced modulo the
 moduli

---
 ckks/evaluator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 47e6d82..15dc4fe 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1195,8 +1195,8 @@ func (eval *evaluator) mulRelin(op0, op1 Operand, relin bool, ctOut *Ciphertext)
 			eval.RingQ().InvNTTLvl(level, c2, c2)
 			eval.SwitchKeysInPlace(level, c2, eval.rlk.Keys[0], eval.Pool[1].Q, eval.Pool[2].Q)
 
-			ringQ.NTTLazyLvl(level, eval.Pool[1].Q, eval.Pool[1].Q)
-			ringQ.NTTLazyLvl(level, eval.Pool[2].Q, eval.Pool[2].Q)
+			ringQ.NTTLvl(level, eval.Pool[1].Q, eval.Pool[1].Q)
+			ringQ.NTTLvl(level, eval.Pool[2].Q, eval.Pool[2].Q)
 
 			ringQ.AddLvl(level, c0, eval.Pool[1].Q, ctOut.Value[0])
 			ringQ.AddLvl(level, c1, eval.Pool[2].Q, ctOut.Value[1])
-- 
2.43.0


From aec653ae5928ddb01b2f50da5aa7986dcc34e858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 51/70] fix: Mul and MulRelin set the degree of the receiver to
 that of the product

---
 ckks/evaluator.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 15dc4fe..6b318bf 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1158,9 +1158,7 @@ func (eval *evaluator) mulRelin(op0, op1 Operand, relin bool, ctOut *Ciphertext)
 		c1 = ctOut.Value[1]
 
 		if !relin {
-			if ctOut.Degree() < 2 {
-				ctOut.El().Resize(eval.params.Parameters, 2)
-			}
+			ctOut.El().Resize(eval.params.Parameters, 2)
 			c2 = ctOut.Value[2]
 		} else {
 			c2 = eval.poolQMul[2]
@@ -1200,6 +1198,8 @@ func (eval *evaluator) mulRelin(op0, op1 Operand, relin bool, ctOut *Ciphertext)
 
 			ringQ.AddLvl(level, c0, eval.Pool[1].Q, ctOut.Value[0])
 			ringQ.AddLvl(level, c1, eval.Pool[2].Q, ctOut.Value[1])
+
+			ctOut.El().Resize(eval.params.Parameters, 1)
 		}
 
 		// Case Plaintext (x) Ciphertext or Ciphertext (x) Plaintext
@@ -1218,6 +1218,8 @@ func (eval *evaluator) mulRelin(op0, op1 Operand, relin bool, ctOut *Ciphertext)
 		ringQ.MFormLvl(level, tmp0.Value[0], c00)
 		ringQ.MulCoeffsMontgomeryLvl(level, c00, tmp1.Value[0], ctOut.Value[0])
 		ringQ.MulCoeffsMontgomeryLvl(level, c00, tmp1.Value[1], ctOut.Value[1])
+
+		ctOut.El().Resize(eval.params.Parameters, 1)
 	}
 }
 
-- 
2.43.0


From b2122b28bf5a98cb5f4285eb79c8878b55ebfd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 52/70] fix: Rescale stops at level zero

---
 ckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 6b318bf..4ea1dbe 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1076,7 +1076,7 @@ func (eval *evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 	var nbRescales int
 	// Divides the scale by each moduli of the modulus chain as long as the scale isn't smaller than minScale/2
 	// or until the output Level() would be zero
-	for ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 && ctIn.Level()-nbRescales >= 0 {
+	for ctIn.Level()-nbRescales > 0 && ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 {
 		ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()-nbRescales]))
 		nbRescales++
 	}
-- 
2.43.0


From 24070ebabf119fd2f08ddebb9a482dac4d157808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 53/70] fix: SetScale divides by the scaling of the constant
 only

---
 ckks/evaluator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 4ea1dbe..4b1727c 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -964,8 +964,10 @@ func (eval *evaluator) ScaleUp(ct0 *Ciphertext, scale float64, ctOut *Ciphertext
 
 // SetScale sets the scale of the ciphertext to the input scale (consumes a level)
 func (eval *evaluator) SetScale(ct *Ciphertext, scale float64) {
+	ctScale := ct.Scale
 	eval.MultByConst(ct, scale/ct.Scale, ct)
-	if err := eval.Rescale(ct, scale, ct); err != nil {
+	// Removes the scaling of the constant, if there is one
+	if err := eval.Rescale(ct, ctScale, ct); err != nil {
 		panic(err)
 	}
 	ct.Scale = scale
-- 
2.43.0


From ed6bc72b5431bf1c694aaccf6a88b82f5105581b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 54/70] fix: Gaussian integers of type int64 are reduced modulo
 the moduli

---
 ckks/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ckks/utils.go b/ckks/utils.go
index 66ee74e..545abdf 100644
--- a/ckks/utils.go
+++ b/ckks/utils.go
@@ -119,9 +119,9 @@ func interfaceMod(x interface{}, qi uint64) uint64 {
 	case int64:
 
 		if x > 0 {
-			return uint64(x)
+			return uint64(x) % qi
 		} else if x < 0 {
-			return uint64(int64(qi) + x%int64(qi))
+			return uint64(int64(qi)+x%int64(qi)) % qi
 		}
 		return 0
 
-- 
2.43.0


From b83f77a1f08891984aaff34ec2b3eb3fdb2be0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 55/70] fix: the result of an evaluator operation does not keep
 limbs or polynomials of the receiver

---
 ckks/evaluator.go | 64 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 47 insertions(+), 17 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 4b1727c..30eb342 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -239,6 +239,24 @@ func (eval *evaluator) checkBinary(op0, op1, opOut Operand, opOutMinDegree int)
 	return
 }
 
+// setShape drops the level of ctOut to the given level, if it is higher, and sets its degree.
+func (eval *evaluator) setShape(ctOut *Ciphertext, degree, level int) {
+	if ctOut.Level() > level {
+		eval.DropLevel(ctOut, ctOut.Level()-level)
+	}
+	ctOut.El().Resize(eval.params.Parameters, degree)
+}
+
+// scaleInPool returns op multiplied by the given integer, stored in the ciphertext pool.
+func (eval *evaluator) scaleInPool(op Operand, constant float64) (ct *rlwe.Ciphertext) {
+	ct = &rlwe.Ciphertext{Value: make([]*ring.Poly, op.Degree()+1)}
+	for i := range ct.Value {
+		ct.Value[i] = &ring.Poly{Coeffs: eval.ctxpool.Value[i].Coeffs[:op.Level()+1], IsNTT: true}
+	}
+	eval.MultByConst(&Ciphertext{op.El(), op.ScalingFactor()}, constant, &Ciphertext{ct, 0})
+	return
+}
+
 func (eval *evaluator) newCiphertextBinary(op0, op1 Operand) (ctOut *Ciphertext) {
 
 	maxDegree := utils.MaxInt(op0.Degree(), op1.Degree())
@@ -349,9 +367,7 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 
 		if c0Scale > c1Scale && math.Floor(c0Scale/c1Scale) > 1 {
 
-			tmp1 = eval.ctxpool.El()
-
-			eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
+			tmp1 = eval.scaleInPool(c1, math.Floor(c0Scale/c1Scale))
 
 		} else if c1Scale > c0Scale && math.Floor(c1Scale/c0Scale) > 1 {
 
@@ -372,9 +388,7 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 
 		if c1Scale > c0Scale && math.Floor(c1Scale/c0Scale) > 1 {
 
-			tmp0 = eval.ctxpool.El()
-
-			eval.MultByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
+			tmp0 = eval.scaleInPool(c0, math.Floor(c1Scale/c0Scale))
 
 		} else if c0Scale > c1Scale && math.Floor(c0Scale/c1Scale) > 1 {
 
@@ -395,17 +409,13 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 
 		if c1Scale > c0Scale && math.Floor(c1Scale/c0Scale) > 1 {
 
-			tmp0 = eval.ctxpool.El()
-
-			eval.MultByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
+			tmp0 = eval.scaleInPool(c0, math.Floor(c1Scale/c0Scale))
 
 			tmp1 = c1.El()
 
 		} else if c0Scale > c1Scale && math.Floor(c0Scale/c1Scale) > 1 {
 
-			tmp1 = eval.ctxpool.El()
-
-			eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
+			tmp1 = eval.scaleInPool(c1, math.Floor(c0Scale/c1Scale))
 
 			tmp0 = c0.El()
 
@@ -444,6 +454,8 @@ func (eval *evaluator) Neg(ct0 *Ciphertext, ctOut *Ciphertext) {
 		panic("cannot Negate: invalid receiver Ciphertext does not match input Ciphertext degree")
 	}
 
+	eval.setShape(ctOut, ct0.Degree(), level)
+
 	for i := range ct0.Value {
 		eval.params.RingQ().NegLvl(level, ct0.Value[i], ctOut.Value[i])
 	}
@@ -531,6 +543,11 @@ func (eval *evaluator) AddConst(ct0 *Ciphertext, constant interface{}, ctOut *Ci
 	var level = utils.MinInt(ct0.Level(), ctOut.Level())
 	var scaledConst, scaledConstReal, scaledConstImag, qi uint64
 
+	eval.setShape(ctOut, ct0.Degree(), level)
+	for i := 1; i < ct0.Degree()+1; i++ {
+		ring.CopyValuesLvl(level, ct0.Value[i], ctOut.Value[i])
+	}
+
 	cReal, cImag, _ := eval.getConstAndScale(level, constant)
 
 	ringQ := eval.params.RingQ()
@@ -578,9 +595,7 @@ func (eval *evaluator) MultByConstAndAdd(ct0 *Ciphertext, constant interface{},
 	var level = utils.MinInt(ct0.Level(), ctOut.Level())
 
 	// Forces a drop of ctOut level to ct0 level
-	if ctOut.Level() > level {
-		eval.DropLevel(ctOut, ctOut.Level()-level)
-	}
+	eval.setShape(ctOut, utils.MaxInt(ct0.Degree(), ctOut.Degree()), level)
 
 	cReal, cImag, scale := eval.getConstAndScale(level, constant)
 
@@ -690,6 +705,8 @@ func (eval *evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 
 	var level = utils.MinInt(ct0.Level(), ctOut.Level())
 
+	eval.setShape(ctOut, ct0.Degree(), level)
+
 	cReal, cImag, scale := eval.getConstAndScale(level, constant)
 
 	// Component wise multiplication of the following vector with the ciphertext:
@@ -751,6 +768,8 @@ func (eval *evaluator) MultByGaussianInteger(ct0 *Ciphertext, cReal, cImag inter
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
 	var scaledConst, scaledConstReal, scaledConstImag uint64
 
+	eval.setShape(ctOut, ct0.Degree(), level)
+
 	ctOut.Scale = ct0.Scale
 
 	for i := 0; i < level+1; i++ {
@@ -802,6 +821,8 @@ func (eval *evaluator) MultByGaussianIntegerAndAdd(ct0 *Ciphertext, cReal, cImag
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
 	var scaledConst, scaledConstReal, scaledConstImag uint64
 
+	eval.setShape(ctOut, utils.MaxInt(ct0.Degree(), ctOut.Degree()), level)
+
 	for i := 0; i < level+1; i++ {
 
 		qi := ringQ.Modulus[i]
@@ -850,7 +871,7 @@ func (eval *evaluator) MultByiNew(ct0 *Ciphertext) (ctOut *Ciphertext) {
 		panic("method MultByi is not supported when params.RingType() == ring.ConjugateInvariant")
 	}
 
-	ctOut = NewCiphertext(eval.params, 1, ct0.Level(), ct0.Scale)
+	ctOut = NewCiphertext(eval.params, ct0.Degree(), ct0.Level(), ct0.Scale)
 	eval.MultByi(ct0, ctOut)
 	return ctOut
 }
@@ -864,6 +885,7 @@ func (eval *evaluator) MultByi(ct0 *Ciphertext, ctOut *Ciphertext) {
 	}
 
 	var level = utils.MinInt(ct0.Level(), ctOut.Level())
+	eval.setShape(ctOut, ct0.Degree(), level)
 	ctOut.Scale = ct0.Scale
 
 	ringQ := eval.params.RingQ()
@@ -902,7 +924,7 @@ func (eval *evaluator) DivByiNew(ct0 *Ciphertext) (ctOut *Ciphertext) {
 		panic("method DivByi is not supported when params.RingType() == ring.ConjugateInvariant")
 	}
 
-	ctOut = NewCiphertext(eval.params, 1, ct0.Level(), ct0.Scale)
+	ctOut = NewCiphertext(eval.params, ct0.Degree(), ct0.Level(), ct0.Scale)
 	eval.DivByi(ct0, ctOut)
 	return
 }
@@ -919,6 +941,7 @@ func (eval *evaluator) DivByi(ct0 *Ciphertext, ctOut *Ciphertext) {
 
 	ringQ := eval.params.RingQ()
 
+	eval.setShape(ctOut, ct0.Degree(), level)
 	ctOut.Scale = ct0.Scale
 
 	var imag uint64
@@ -983,6 +1006,7 @@ func (eval *evaluator) MulByPow2New(ct0 *Ciphertext, pow2 int) (ctOut *Ciphertex
 // MulByPow2 multiplies ct0 by 2^pow2 and returns the result in ctOut.
 func (eval *evaluator) MulByPow2(ct0 *Ciphertext, pow2 int, ctOut *Ciphertext) {
 	var level = utils.MinInt(ct0.Level(), ctOut.Level())
+	eval.setShape(ctOut, ct0.Degree(), level)
 	ctOut.Scale = ct0.Scale
 	for i := range ctOut.Value {
 		eval.params.RingQ().MulByPow2Lvl(level, ct0.Value[i], pow2, ctOut.Value[i])
@@ -1008,6 +1032,8 @@ func (eval *evaluator) Reduce(ct0 *Ciphertext, ctOut *Ciphertext) error {
 		return errors.New("cannot Reduce: degrees of receiver Ciphertext and input Ciphertext do not match")
 	}
 
+	eval.setShape(ctOut, ct0.Degree(), utils.MinInt(ct0.Level(), ctOut.Level()))
+
 	for i := range ct0.Value {
 		eval.params.RingQ().ReduceLvl(utils.MinInt(ct0.Level(), ctOut.Level()), ct0.Value[i], ctOut.Value[i])
 	}
@@ -1091,6 +1117,7 @@ func (eval *evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 		}
 	} else {
 		if ctIn != ctOut {
+			eval.setShape(ctOut, ctIn.Degree(), ctIn.Level())
 			ctOut.Copy(ctIn)
 		}
 	}
@@ -1391,6 +1418,7 @@ func (eval *evaluator) SwitchKeys(ct0 *Ciphertext, switchingKey *rlwe.SwitchingK
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
 	ringQ := eval.params.RingQ()
 
+	eval.setShape(ctOut, 1, level)
 	ctOut.Scale = ct0.Scale
 
 	eval.SwitchKeysInPlace(level, ct0.Value[1], switchingKey, eval.Pool[1].Q, eval.Pool[2].Q)
@@ -1416,6 +1444,7 @@ func (eval *evaluator) Rotate(ct0 *Ciphertext, k int, ctOut *Ciphertext) {
 	}
 
 	if k == 0 {
+		eval.setShape(ctOut, 1, ct0.Level())
 		ctOut.Copy(ct0)
 	} else {
 
@@ -1466,6 +1495,7 @@ func (eval *evaluator) permuteNTT(ct0 *Ciphertext, galEl uint64, ctOut *Cipherte
 	}
 
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
+	eval.setShape(ctOut, 1, level)
 	pool2Q := eval.Pool[1].Q
 	pool3Q := eval.Pool[2].Q
 	ringQ := eval.params.RingQ()
-- 
2.43.0


From f84f8a9a1406a2719354df6bc19cdaa3e7988a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 56/70] fix: scales are matched by the integer nearest to their
 ratio

---
 ckks/evaluator.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 30eb342..1e0f76b 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -365,13 +365,13 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 	// and scales properly the element before the evaluation.
 	if ctOut == c0 {
 
-		if c0Scale > c1Scale && math.Floor(c0Scale/c1Scale) > 1 {
+		if c0Scale > c1Scale && math.Round(c0Scale/c1Scale) > 1 {
 
-			tmp1 = eval.scaleInPool(c1, math.Floor(c0Scale/c1Scale))
+			tmp1 = eval.scaleInPool(c1, math.Round(c0Scale/c1Scale))
 
-		} else if c1Scale > c0Scale && math.Floor(c1Scale/c0Scale) > 1 {
+		} else if c1Scale > c0Scale && math.Round(c1Scale/c0Scale) > 1 {
 
-			eval.MultByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{c0.El(), c0Scale})
+			eval.MultByConst(&Ciphertext{c0.El(), c0Scale}, math.Round(c1Scale/c0Scale), &Ciphertext{c0.El(), c0Scale})
 
 			ctOut.SetScalingFactor(c1Scale)
 
@@ -386,13 +386,13 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 
 	} else if ctOut == c1 {
 
-		if c1Scale > c0Scale && math.Floor(c1Scale/c0Scale) > 1 {
+		if c1Scale > c0Scale && math.Round(c1Scale/c0Scale) > 1 {
 
-			tmp0 = eval.scaleInPool(c0, math.Floor(c1Scale/c0Scale))
+			tmp0 = eval.scaleInPool(c0, math.Round(c1Scale/c0Scale))
 
-		} else if c0Scale > c1Scale && math.Floor(c0Scale/c1Scale) > 1 {
+		} else if c0Scale > c1Scale && math.Round(c0Scale/c1Scale) > 1 {
 
-			eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{ctOut.El(), ctOutScale})
+			eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Round(c0Scale/c1Scale), &Ciphertext{ctOut.El(), ctOutScale})
 
 			ctOut.SetScalingFactor(c0Scale)
 
@@ -407,15 +407,15 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 
 	} else {
 
-		if c1Scale > c0Scale && math.Floor(c1Scale/c0Scale) > 1 {
+		if c1Scale > c0Scale && math.Round(c1Scale/c0Scale) > 1 {
 
-			tmp0 = eval.scaleInPool(c0, math.Floor(c1Scale/c0Scale))
+			tmp0 = eval.scaleInPool(c0, math.Round(c1Scale/c0Scale))
 
 			tmp1 = c1.El()
 
-		} else if c0Scale > c1Scale && math.Floor(c0Scale/c1Scale) > 1 {
+		} else if c0Scale > c1Scale && math.Round(c0Scale/c1Scale) > 1 {
 
-			tmp1 = eval.scaleInPool(c1, math.Floor(c0Scale/c1Scale))
+			tmp1 = eval.scaleInPool(c1, math.Round(c0Scale/c1Scale))
 
 			tmp0 = c0.El()
 
@@ -611,7 +611,7 @@ func (eval *evaluator) MultByConstAndAdd(ct0 *Ciphertext, constant interface{},
 		// then brings ctOut scale to ct0's scale.
 		if ctOut.Scale < ct0.Scale*scale {
 
-			if scale := math.Floor((scale * ct0.Scale) / ctOut.Scale); scale > 1 {
+			if scale := math.Round((scale * ct0.Scale) / ctOut.Scale); scale > 1 {
 
 				eval.MultByConst(ctOut, scale, ctOut)
 
@@ -635,7 +635,7 @@ func (eval *evaluator) MultByConstAndAdd(ct0 *Ciphertext, constant interface{},
 
 		} else if ct0.Scale > ctOut.Scale {
 
-			if scale := math.Floor(ct0.Scale / ctOut.Scale); scale > 1 {
+			if scale := math.Round(ct0.Scale / ctOut.Scale); scale > 1 {
 				eval.MultByConst(ctOut, scale, ctOut)
 			}
 
-- 
2.43.0


From 1663969d217a9c407b212a7444e8ece5b3dbc801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 57/70] fix: MultByConstAndAdd accepts a receiver that is the
 input

---
 ckks/evaluator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 1e0f76b..e35ec26 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -594,6 +594,11 @@ func (eval *evaluator) MultByConstAndAdd(ct0 *Ciphertext, constant interface{},
 
 	var level = utils.MinInt(ct0.Level(), ctOut.Level())
 
+	// Avoids overwriting the input while scaling the receiver
+	if ct0.El() == ctOut.El() {
+		ct0 = ctOut.CopyNew()
+	}
+
 	// Forces a drop of ctOut level to ct0 level
 	eval.setShape(ctOut, utils.MaxInt(ct0.Degree(), ctOut.Degree()), level)
 
-- 
2.43.0


From 80ac7ba4b299d0af69baead1ef61bb3517c6ab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 58/70] fix: integer constants of 2^63 and more are not scaled

---
 ckks/evaluator.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index e35ec26..f04c065 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -487,8 +487,7 @@ func (eval *evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		cImag = imag(constant)
 
 		if cReal != 0 {
-			valueInt := int64(cReal)
-			valueFloat := cReal - float64(valueInt)
+			valueFloat := cReal - math.Trunc(cReal)
 
 			if valueFloat != 0 {
 				scale = float64(eval.params.RingQ().Modulus[level])
@@ -496,8 +495,7 @@ func (eval *evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		}
 
 		if cImag != 0 {
-			valueInt := int64(cImag)
-			valueFloat := cImag - float64(valueInt)
+			valueFloat := cImag - math.Trunc(cImag)
 
 			if valueFloat != 0 {
 				scale = float64(eval.params.RingQ().Modulus[level])
@@ -509,8 +507,7 @@ func (eval *evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		cImag = float64(0)
 
 		if cReal != 0 {
-			valueInt := int64(cReal)
-			valueFloat := cReal - float64(valueInt)
+			valueFloat := cReal - math.Trunc(cReal)
 
 			if valueFloat != 0 {
 				scale = float64(eval.params.RingQ().Modulus[level])
-- 
2.43.0


From e25fe7856f8589fdf6052aba15eb9763ee820955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 59/70] fix: constants of unsupported types are refused

---
 ckks/evaluator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index f04c065..a326839 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -525,6 +525,9 @@ func (eval *evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 	case int:
 		cReal = float64(constant)
 		cImag = float64(0)
+
+	default:
+		panic(fmt.Sprintf("constant must either be uint64, int64, int, float64 or complex128 but is %T", constant))
 	}
 
 	if eval.params.RingType() == ring.ConjugateInvariant {
-- 
2.43.0


From d607bc9daa5bc3f75fd23e59840d6c880aaa96bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 60/70] fix: ScaleUp records the scale it multiplies by

---
 ckks/evaluator.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index a326839..2dcc88f 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -975,19 +975,24 @@ func (eval *evaluator) DivByi(ct0 *Ciphertext, ctOut *Ciphertext) {
 	}
 }
 
-// ScaleUpNew multiplies ct0 by 2^scale and sets its scale to its previous scale
-// plus 2^n. It returns the result in a newly created element.
+// ScaleUpNew multiplies ct0 by the integer nearest to scale and sets its scale to its previous scale
+// times this integer. It returns the result in a newly created element.
 func (eval *evaluator) ScaleUpNew(ct0 *Ciphertext, scale float64) (ctOut *Ciphertext) {
 	ctOut = NewCiphertext(eval.params, ct0.Degree(), ct0.Level(), ct0.Scale)
 	eval.ScaleUp(ct0, scale, ctOut)
 	return
 }
 
-// ScaleUp multiplies ct0 by 2^scale and sets its scale to its previous scale
-// plus 2^n. It returns the result in ctOut.
+// ScaleUp multiplies ct0 by the integer nearest to scale and sets its scale to its previous scale
+// times this integer. It returns the result in ctOut.
 func (eval *evaluator) ScaleUp(ct0 *Ciphertext, scale float64, ctOut *Ciphertext) {
-	eval.MultByConst(ct0, uint64(scale), ctOut)
-	ctOut.Scale = ct0.Scale * scale
+	constant := math.Round(scale)
+	if constant < 1 {
+		panic("cannot ScaleUp: scale must be at least 1")
+	}
+	ctScale := ct0.Scale
+	eval.MultByConst(ct0, constant, ctOut)
+	ctOut.Scale = ctScale * constant
 }
 
 // SetScale sets the scale of the ciphertext to the input scale (consumes a level)
-- 
2.43.0


From 8284aef525bb6c604ec6dbfefd266aa34fe906a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 61/70] fix: fckks rotation sets the scale and level of the
 receiver

---
 fckks/evaluator.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/fckks/evaluator.go b/fckks/evaluator.go
index eb99bcf..e4e8138 100644
--- a/fckks/evaluator.go
+++ b/fckks/evaluator.go
@@ -77,22 +77,26 @@ func (eval *Evaluator) RotateNew(ctIn *ckks.Ciphertext, rtk *frlwe.RotationKey)
 
 func (eval *Evaluator) Rotate(ctIn *ckks.Ciphertext, rtk *frlwe.RotationKey, ctOut *ckks.Ciphertext) {
 
+	level := utils.MinInt(ctIn.Level(), ctOut.Level())
 	ringQ := eval.params.RingQ()
 
-	ringQ.InvNTTLvl(ctOut.Level(), ctIn.Value[1], eval.polyQPool[0])
+	eval.DropLevel(ctOut, ctOut.Level()-level)
+	ctOut.Scale = ctIn.Scale
 
-	eval.ksw.SwitchKey(ctOut.Level(), eval.polyQPool[0], rtk.Value[0], rtk.Value[1], eval.polyQPool[1], eval.polyQPool[2])
+	ringQ.InvNTTLvl(level, ctIn.Value[1], eval.polyQPool[0])
 
-	ringQ.NTTLvl(ctOut.Level(), eval.polyQPool[1], eval.polyQPool[1])
-	ringQ.NTTLvl(ctOut.Level(), eval.polyQPool[2], eval.polyQPool[2])
+	eval.ksw.SwitchKey(level, eval.polyQPool[0], rtk.Value[0], rtk.Value[1], eval.polyQPool[1], eval.polyQPool[2])
+
+	ringQ.NTTLvl(level, eval.polyQPool[1], eval.polyQPool[1])
+	ringQ.NTTLvl(level, eval.polyQPool[2], eval.polyQPool[2])
 
-	ringQ.AddLvl(ctOut.Level(), ctIn.Value[0], eval.polyQPool[1], eval.polyQPool[1])
+	ringQ.AddLvl(level, ctIn.Value[0], eval.polyQPool[1], eval.polyQPool[1])
 
 	// permute ctOut
 
 	galEl := eval.params.GaloisElementForColumnRotationBy(int(rtk.Rotidx))
-	ringQ.PermuteNTTLvl(ctOut.Level(), eval.polyQPool[1], galEl, ctOut.Value[0])
-	ringQ.PermuteNTTLvl(ctOut.Level(), eval.polyQPool[2], galEl, ctOut.Value[1])
+	ringQ.PermuteNTTLvl(level, eval.polyQPool[1], galEl, ctOut.Value[0])
+	ringQ.PermuteNTTLvl(level, eval.polyQPool[2], galEl, ctOut.Value[1])
 }
 
 func (eval *Evaluator) SwitchKeys(ct0 *ckks.Ciphertext, swk [2]*frlwe.SwitchingKey, ctOut *ckks.Ciphertext) {
-- 
2.43.0


From 191efd398f3ac7e68c45be123a36b090ba5ad917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 62/70] fix: fckks key switching of ciphertexts in the NTT
 domain

---
 fckks/evaluator.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fckks/evaluator.go b/fckks/evaluator.go
index e4e8138..212c70d 100644
--- a/fckks/evaluator.go
+++ b/fckks/evaluator.go
@@ -104,12 +104,17 @@ func (eval *Evaluator) SwitchKeys(ct0 *ckks.Ciphertext, swk [2]*frlwe.SwitchingK
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
 	ringQ := eval.params.RingQ()
 
+	eval.DropLevel(ctOut, ctOut.Level()-level)
 	ctOut.Scale = ct0.Scale
 
-	eval.ksw.SwitchKey(level, ct0.Value[1], swk[0], swk[1], eval.polyQPool[1], eval.polyQPool[2])
+	ringQ.InvNTTLvl(level, ct0.Value[1], eval.polyQPool[0])
+
+	eval.ksw.SwitchKey(level, eval.polyQPool[0], swk[0], swk[1], eval.polyQPool[1], eval.polyQPool[2])
+
+	ringQ.NTTLvl(level, eval.polyQPool[1], eval.polyQPool[1])
+	ringQ.NTTLvl(level, eval.polyQPool[2], ctOut.Value[1])
 
 	ringQ.AddLvl(level, ct0.Value[0], eval.polyQPool[1], ctOut.Value[0])
-	ring.CopyValuesLvl(level, eval.polyQPool[2], ctOut.Value[1])
 }
 
 func (eval *Evaluator) SwitchKeysNew(ct0 *ckks.Ciphertext, swk [2]*frlwe.SwitchingKey) (ctOut *ckks.Ciphertext) {
-- 
2.43.0


From 7ece4887191cef038bc25b30b2e9ed992e9354c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 63/70] fix: DecryptToMsg keeps all the moduli of its plaintext

---
 fckks/decryptor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fckks/decryptor.go b/fckks/decryptor.go
index a1e1227..6604fde 100644
--- a/fckks/decryptor.go
+++ b/fckks/decryptor.go
@@ -27,6 +27,7 @@ func (dec *Decryptor) Decrypt(ctIn *ckks.Ciphertext, ptOut *ckks.Plaintext) {
 }
 
 func (dec *Decryptor) DecryptToMsg(ctIn *ckks.Ciphertext, msgOut *Message) {
+	dec.ptxtPool.Value.Coeffs = dec.ptxtPool.Value.Coeffs[:dec.params.MaxLevel()+1]
 	dec.Decrypt(ctIn, dec.ptxtPool)
 	msgOut.Value = dec.encoder.Decode(dec.ptxtPool, dec.params.LogSlots())
 }
-- 
2.43.0


From 078771470160ad6706782c380502ec0a3024f96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:56 +0000
Subject: [PATCH 64/70] fix: SetScale refuses invalid requests before it
 changes the ciphertext

---
 ckks/evaluator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 2dcc88f..9021d48 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -997,6 +997,12 @@ func (eval *evaluator) ScaleUp(ct0 *Ciphertext, scale float64, ctOut *Ciphertext
 
 // SetScale sets the scale of the ciphertext to the input scale (consumes a level)
 func (eval *evaluator) SetScale(ct *Ciphertext, scale float64) {
+	if !(scale > 0) {
+		panic("cannot SetScale: scale must be greater than 0")
+	}
+	if ct.Level() == 0 {
+		panic("cannot SetScale: ciphertext already at level 0")
+	}
 	ctScale := ct.Scale
 	eval.MultByConst(ct, scale/ct.Scale, ct)
 	// Removes the scaling of the constant, if there is one
-- 
2.43.0


From e3137021263be4751fa73077378ab1c3d0c632df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 65/70] fix: DropLevel refuses negative and too large numbers
 of levels

---
 ckks/evaluator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 9021d48..3708714 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1071,6 +1071,9 @@ func (eval *evaluator) DropLevelNew(ct0 *Ciphertext, levels int) (ctOut *Ciphert
 // No rescaling is applied during this procedure.
 func (eval *evaluator) DropLevel(ct0 *Ciphertext, levels int) {
 	level := ct0.Level()
+	if levels < 0 || levels > level {
+		panic("cannot DropLevel: number of levels must be between 0 and the level of the ciphertext")
+	}
 	for i := range ct0.Value {
 		ct0.Value[i].Coeffs = ct0.Value[i].Coeffs[:level+1-levels]
 	}
-- 
2.43.0


From b738209650132a52d2a2c8b58c7fce560880bca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:58 +0000
Subject: [PATCH 66/70] fix: Rescale returns the documented errors

---
 ckks/evaluator.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 3708714..8864e38 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1097,7 +1097,7 @@ func (eval *evaluator) RescaleNew(ct0 *Ciphertext, threshold float64) (ctOut *Ci
 // in ctOut. Since all the moduli in the moduli chain are generated to be close to the
 // original scale, this procedure is equivalent to dividing the input element by the scale and adding
 // some error.
-// Returns an error if "minScale <= 0", ct.Scale = 0, ct.Level() = 0, ct.IsNTT() != true or if ct.Leve() != ctOut.Level()
+// Returns an error if "minScale <= 0", ct.Scale = 0, ct.Level() = 0, ct.IsNTT() != true or if ctOut.Level() < ct.Level()
 func (eval *evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Ciphertext) (err error) {
 
 	ringQ := eval.params.RingQ()
@@ -1118,6 +1118,16 @@ func (eval *evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 		return errors.New("cannot Rescale : ctIn.Degree() != ctOut.Degree()")
 	}
 
+	if ctOut.Level() < ctIn.Level() {
+		return errors.New("cannot Rescale: ctOut.Level() < ctIn.Level()")
+	}
+
+	for i := range ctIn.Value {
+		if !ctIn.Value[i].IsNTT {
+			return errors.New("cannot Rescale: input Ciphertext is not in the NTT domain")
+		}
+	}
+
 	ctOut.Scale = ctIn.Scale
 
 	var nbRescales int
-- 
2.43.0


From bb9cebf97ec8eaf3d2590c58d7c4cb85dd11d7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:59 +0000
Subject: [PATCH 67/70] fix: random ckks ciphertexts are in the NTT domain

---
 ckks/ciphertext.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ckks/ciphertext.go b/ckks/ciphertext.go
index 04cc722..4dbceb6 100644
--- a/ckks/ciphertext.go
+++ b/ckks/ciphertext.go
@@ -44,7 +44,11 @@ func NewCiphertext(params Parameters, degree, level int, scale float64) (ciphert
 
 // NewCiphertextRandom generates a new uniformly distributed Ciphertext of degree, level and scale.
 func NewCiphertextRandom(prng utils.PRNG, params Parameters, degree, level int, scale float64) (ciphertext *Ciphertext) {
-	return &Ciphertext{rlwe.NewCiphertextRandom(prng, params.Parameters, degree, level), scale}
+	ciphertext = &Ciphertext{rlwe.NewCiphertextRandom(prng, params.Parameters, degree, level), scale}
+	for _, pol := range ciphertext.Value {
+		pol.IsNTT = true
+	}
+	return ciphertext
 }
 
 // NewCiphertextAtLevelFromPoly construct a new Ciphetext at a specific level
-- 
2.43.0


From 98c09d05b27ed49d716c04e3dd8835b8e91ffe2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:35 +0000
Subject: [PATCH 68/70] fix: ring PadDefaultRingToConjuateInvariant fills the
 upper half of its output

---
 ring/conjugate_invariant.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ring/conjugate_invariant.go b/ring/conjugate_invariant.go
index 0c6e267..75d500c 100644
--- a/ring/conjugate_invariant.go
+++ b/ring/conjugate_invariant.go
@@ -79,12 +79,15 @@ func PadDefaultRingToConjuateInvariant(p1 *Poly, ringQ *Ring, p2 *Poly) {
 		tmp := p2.Coeffs[i]
 		if p1.IsNTT {
 			for j := 0; j < n; j++ {
-				tmp[n-j-1] = tmp[j]
+				tmp[2*n-j-1] = tmp[j]
 			}
 		} else {
-			tmp[0] = 0
+			tmp[n] = 0
 			for j := 1; j < n; j++ {
-				tmp[n-j] = qi - tmp[j]
+				tmp[2*n-j] = 0
+				if tmp[j] != 0 {
+					tmp[2*n-j] = qi - tmp[j]
+				}
 			}
 		}
 	}
-- 
2.43.0


From 6167d83fa849c5505ea111510d479563ab77e8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:37 +0000
Subject: [PATCH 69/70] fix: ring ConjugateInvariantRing refuses a degree below
 the smallest supported one

---
 ring/ring.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ring/ring.go b/ring/ring.go
index acee1e9..64d5d13 100644
--- a/ring/ring.go
+++ b/ring/ring.go
@@ -167,6 +167,9 @@ func (r *Ring) ConjugateInvariantRing() (*Ring, error) {
 	if r.Type() == ConjugateInvariant {
 		return r, nil
 	}
+	if r.N < 32 {
+		return nil, errors.New("cannot ConjugateInvariantRing: invalid ring degree (must be at least 32)")
+	}
 	cr := *r
 	cr.N = r.N >> 1
 	cr.NumberTheoreticTransformer = NumberTheoreticTransformerConjugateInvariant{}
-- 
2.43.0


From 7d7e33226dd84da3fa93708b9b317de9c337ac7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:37 +0000
Subject: [PATCH 70/70] fix: multiply a ciphertext with itself in place when it
 comes in two wrappers

The squaring case of Mul and MulRelin compared the wrappers of the operands; when both wrap
the same element and it is also the output, the general case overwrote an operand.
---
 ckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 8864e38..99f83a0 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1233,7 +1233,7 @@ func (eval *evaluator) mulRelin(op0, op1 Operand, relin bool, ctOut *Ciphertext)
 		ringQ.MFormLvl(level, tmp0.Value[0], c00)
 		ringQ.MFormLvl(level, tmp0.Value[1], c01)
 
-		if op0 == op1 { // squaring case
+		if op0.El() == op1.El() { // squaring case
 			ringQ.MulCoeffsMontgomeryLvl(level, c00, tmp1.Value[0], c0) // c0 = c[0]*c[0]
 			ringQ.MulCoeffsMontgomeryLvl(level, c01, tmp1.Value[1], c2) // c2 = c[1]*c[1]
 			ringQ.MulCoeffsMontgomeryLvl(level, c00, tmp1.Value[1], c1) // c1 = 2*c[0]*c[1]
-- 
2.43.0

