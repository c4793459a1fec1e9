From 84e115dd48531f9c3e568175f14e1859d8a5a498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:01 +0000
Subject: [PATCH 01/11] fix: Rescale stops at level 0 instead of indexing past
 the modulus chain

---
 mkckks/evaluator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 3bd8a1f..b33fa99 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -376,8 +376,8 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 
 	var nbRescales int
 	// Divides the scale by each moduli of the modulus chain as long as the scale isn't smaller than minScale/2
-	// or until the output Level() would be zero
-	for ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 && ctIn.Level()-nbRescales >= 0 {
+	// or until the output Level() is zero
+	for ctIn.Level()-nbRescales > 0 && ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 {
 		ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()-nbRescales]))
 		nbRescales++
 	}
-- 
2.43.0


From 53d4cf8f1f46d4aa37339b257e3053ec06d81cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:01 +0000
Subject: [PATCH 02/11] fix: Rescale copies the input into the receiver when
 nothing is dropped

---
 mkckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index b33fa99..bfff858 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -390,7 +390,7 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 		}
 	} else {
 		if ctIn != ctOut {
-			ctOut = ctIn.CopyNew()
+			ctOut.Ciphertext.Copy(ctIn.Ciphertext)
 		}
 	}
 
-- 
2.43.0


From 5b16d79754e7e638977f7964b4aafcfccbaff639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:01 +0000
Subject: [PATCH 03/11] fix: Conjugate permutes only the moduli of the output
 level

---
 mkrlwe/keyswitch.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/mkrlwe/keyswitch.go b/mkrlwe/keyswitch.go
index 59b2a35..7c38658 100644
--- a/mkrlwe/keyswitch.go
+++ b/mkrlwe/keyswitch.go
@@ -297,6 +297,26 @@ func (ks *KeySwitcher) Rotate(ctIn *Ciphertext, rotidx int, rkSet *RotationKeySe
 
 }
 
+// permuteLvl applies the automorphism X -> X^galEl on polIn for the moduli from q_0 up to q_level
+// and returns the result in polOut. Input should be in InvNTT form.
+func permuteLvl(ringQ *ring.Ring, level int, polIn *ring.Poly, galEl uint64, polOut *ring.Poly) {
+
+	mask := uint64(ringQ.N - 1)
+	logN := uint64(bits.Len64(mask))
+
+	for i := uint64(0); i < uint64(ringQ.N); i++ {
+
+		indexRaw := i * galEl
+		index := indexRaw & mask
+		tmp := (indexRaw >> logN) & 1
+
+		for j := 0; j < level+1; j++ {
+			qi := ringQ.Modulus[j]
+			polOut.Coeffs[j][index] = polIn.Coeffs[j][i]*(tmp^1) | (qi-polIn.Coeffs[j][i])*tmp
+		}
+	}
+}
+
 // Conjugate conjugate ctIn with ctOut with ConjugationKeySet and returns the result in ctOut.
 // Input ciphertext should be in NTT form
 func (ks *KeySwitcher) Conjugate(ctIn *Ciphertext, ckSet *ConjugationKeySet, ctOut *Ciphertext) {
@@ -313,7 +333,7 @@ func (ks *KeySwitcher) Conjugate(ctIn *Ciphertext, ckSet *ConjugationKeySet, ctO
 
 	// permute ctIn and put it to ctOut
 	for id := range ctIn.Value {
-		ringQ.Permute(ctIn.Value[id], galEl, ctOut.Value[id])
+		permuteLvl(ringQ, level, ctIn.Value[id], galEl, ctOut.Value[id])
 	}
 
 	// c0 <- c0 + IP(c_i, rk_i)
-- 
2.43.0


From 79c95444010a0a52ded34c7e7af42da2ed03a82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:01 +0000
Subject: [PATCH 04/11] fix: Decrypt restores the level of its plaintext pool
 before each decryption

---
 mkckks/decryptor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mkckks/decryptor.go b/mkckks/decryptor.go
index d567ba9..5aca095 100644
--- a/mkckks/decryptor.go
+++ b/mkckks/decryptor.go
@@ -34,6 +34,9 @@ func (dec *Decryptor) PartialDecrypt(ct *Ciphertext, sk *mkrlwe.SecretKey) {
 func (dec *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *mkrlwe.SecretKeySet) (msg *Message) {
 	ctTmp := ciphertext.CopyNew()
 
+	// the previous decryption might have truncated the pool to a lower level
+	dec.ptxtPool.Value.Coeffs = dec.ptxtPool.Value.Coeffs[:dec.params.MaxLevel()+1]
+
 	dec.Decryptor.Decrypt(ctTmp.Ciphertext, skSet, dec.ptxtPool.Plaintext)
 	dec.ptxtPool.Scale = ctTmp.Scale
 	msg = new(Message)
-- 
2.43.0


From e51decd140f6e553a1d52615896f208f00449f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:01 +0000
Subject: [PATCH 05/11] fix: ModDownQPtoP divides by the product of the moduli
 up to levelQ

---
 mkrlwe/basis_extension.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkrlwe/basis_extension.go b/mkrlwe/basis_extension.go
index 23574d3..e6514dd 100644
--- a/mkrlwe/basis_extension.go
+++ b/mkrlwe/basis_extension.go
@@ -309,7 +309,7 @@ func (basisextender *FastBasisExtender) ModDownQPtoP(levelQ, levelP int, p1Q, p1
 		p1tmp := p1P.Coeffs[i]
 		p2tmp := p2P.Coeffs[i]
 		p3tmp := polypool.Coeffs[i]
-		params := qi - modDownParams[levelP][i]
+		params := qi - modDownParams[levelQ][i]
 		mredParams := ringP.MredParams[i]
 
 		// Then for each coefficient we compute (P^-1) * (p1[i][j] - polypool[i][j]) mod qi
-- 
2.43.0


From 17e841cf580751ef68701fb99c70e7e793dcd34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:01 +0000
Subject: [PATCH 06/11] fix: GenRotationKey normalises the rotation amount
 before looking up its CRS

---
 mkrlwe/keygen.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index b93b422..3937b25 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -198,17 +198,17 @@ func (keygen *KeyGenerator) GenRotationKey(rotidx int, sk *SecretKey) (rk *Rotat
 	beta := params.Beta(levelQ)
 	ringQP := params.RingQP()
 
+	// adjust rotidx
+	for rotidx < 0 {
+		rotidx += (params.N() / 2)
+	}
+
 	// check CRS for given rot idx exists
 	_, in := params.CRS[rotidx]
 	if !in {
 		panic("Cannot GenRotationKey: CRS for given rot idx is not generated")
 	}
 
-	// adjust rotidx
-	for rotidx < 0 {
-		rotidx += (params.N() / 2)
-	}
-
 	galEl := keygen.params.GaloisElementForColumnRotationBy(rotidx)
 	galEl = keygen.params.InverseGaloisElement(galEl)
 	index := ring.PermuteNTTIndex(galEl, uint64(params.N()))
-- 
2.43.0


From 6f1e9754d06b9273b7c5b5c73164b2121f59d6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:01 +0000
Subject: [PATCH 07/11] fix: GenKeyPairSparse takes the party id instead of
 dereferencing a nil key

---
 mkrlwe/keygen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index 3937b25..fa0b361 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -115,8 +115,8 @@ func (keygen *KeyGenerator) GenKeyPair(id string) (sk *SecretKey, pk *PublicKey)
 }
 
 // GenKeyPairSparse generates a new SecretKey with exactly hw non zero coefficients [1/2, 0, 1/2].
-func (keygen *KeyGenerator) GenKeyPairSparse(hw int) (sk *SecretKey, pk *PublicKey) {
-	sk = keygen.GenSecretKeySparse(hw, sk.ID)
+func (keygen *KeyGenerator) GenKeyPairSparse(hw int, id string) (sk *SecretKey, pk *PublicKey) {
+	sk = keygen.GenSecretKeySparse(hw, id)
 	return sk, keygen.GenPublicKey(sk)
 }
 
-- 
2.43.0


From a2ced91cb1d82f0bc8045c6d043ac16b93a8cc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:38 +0000
Subject: [PATCH 08/11] fix: Rescale divides a copy so that its input
 ciphertext is left unchanged

---
 mkckks/evaluator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index bfff858..f1e27c5 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -385,7 +385,9 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 	if nbRescales > 0 {
 		level := ctIn.Level()
 		for i := range ctOut.Value {
-			ringQ.DivRoundByLastModulusManyLvl(level, nbRescales, ctIn.Value[i], eval.polyQPool, ctOut.Value[i])
+			// the division overwrites the last moduli of its input, so it runs on a copy
+			ring.CopyValuesLvl(level, ctIn.Value[i], eval.polyQPool)
+			ringQ.DivRoundByLastModulusManyLvl(level, nbRescales, eval.polyQPool, eval.polyQPool, ctOut.Value[i])
 			ctOut.Value[i].Coeffs = ctOut.Value[i].Coeffs[:level+1-nbRescales]
 		}
 	} else {
-- 
2.43.0


From fb9799ba93ddb42a5d0c41cb7692991da182f2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:13 +0000
Subject: [PATCH 09/11] fix: MultByConst multiplies by a complex constant
 outside of the NTT domain

---
 mkckks/evaluator.go | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index f1e27c5..bfd0732 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -120,35 +120,46 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 
 	cReal, cImag, scale := eval.getConstAndScale(level, constant)
 
-	// Component wise multiplication of the following vector with the ciphertext:
-	// [a + b*psi_qi^2, ....., a + b*psi_qi^2, a - b*psi_qi^2, ...., a - b*psi_qi^2] mod Qi
-	// [{                  N/2                }{                N/2               }]
-	// Which is equivalent outside of the NTT domain to adding a to the first coefficient of ct0 and b to the N/2-th coefficient of ct0.
+	// Ciphertexts are outside of the NTT domain, where the constant a + bi is the polynomial a + b*X^{N/2}:
+	// a real constant multiplies every coefficient, an imaginary one also mixes the coefficients j and j + N/2.
 	ringQ := eval.params.RingQ()
-	var scaledConst, scaledConstReal, scaledConstImag uint64
+	var scaledConst, scaledConstImag uint64
 	for i := 0; i < level+1; i++ {
 
 		qi := ringQ.Modulus[i]
 		bredParams := ringQ.BredParams[i]
 		mredParams := ringQ.MredParams[i]
 
-		scaledConstReal = 0
 		scaledConstImag = 0
 		scaledConst = 0
 
 		if cReal != 0 {
-			scaledConstReal = scaleUpExact(cReal, scale, qi)
-			scaledConst = scaledConstReal
+			scaledConst = scaleUpExact(cReal, scale, qi)
 		}
 
 		if cImag != 0 {
 			scaledConstImag = scaleUpExact(cImag, scale, qi)
-			scaledConstImag = ring.MRed(scaledConstImag, ringQ.NttPsi[i][1], qi, mredParams)
-			scaledConst = ring.CRed(scaledConst+scaledConstImag, qi)
+			scaledConstImag = ring.MForm(scaledConstImag, qi, bredParams)
 		}
 
 		scaledConst = ring.MForm(scaledConst, qi, bredParams)
 
+		if cImag != 0 {
+			for u := range ct0.Value {
+				p0tmp := ct0.Value[u].Coeffs[i]
+				p1tmp := ctOut.Value[u].Coeffs[i]
+
+				// (x + y*X^{N/2}) * (a + b*X^{N/2}) = (a*x - b*y) + (a*y + b*x)*X^{N/2}
+				for j, k := 0, ringQ.N>>1; j < ringQ.N>>1; j, k = j+1, k+1 {
+					x, y := p0tmp[j], p0tmp[k]
+					p1tmp[j] = ring.CRed(ring.MRed(x, scaledConst, qi, mredParams)+qi-ring.MRed(y, scaledConstImag, qi, mredParams), qi)
+					p1tmp[k] = ring.CRed(ring.MRed(y, scaledConst, qi, mredParams)+ring.MRed(x, scaledConstImag, qi, mredParams), qi)
+				}
+			}
+
+			continue
+		}
+
 		for u := range ct0.Value {
 			p0tmp := ct0.Value[u].Coeffs[i]
 			p1tmp := ctOut.Value[u].Coeffs[i]
@@ -169,11 +180,6 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 			}
 		}
 
-		if cImag != 0 {
-			scaledConst = ring.CRed(scaledConstReal+(qi-scaledConstImag), qi)
-			scaledConst = ring.MForm(scaledConst, qi, bredParams)
-		}
-
 		for u := range ct0.Value {
 			p0tmp := ct0.Value[u].Coeffs[i]
 			p1tmp := ctOut.Value[u].Coeffs[i]
-- 
2.43.0


From aa54bcd97969ab0d89594306ec181f65e7aab57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:44 +0000
Subject: [PATCH 10/11] fix: Decomposer supports numbers of auxiliary moduli
 that gamma does not divide

---
 mkrlwe/basis_extension.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mkrlwe/basis_extension.go b/mkrlwe/basis_extension.go
index e6514dd..17b54af 100644
--- a/mkrlwe/basis_extension.go
+++ b/mkrlwe/basis_extension.go
@@ -379,7 +379,11 @@ func NewDecomposer(ringQ, ringP *ring.Ring, gamma int) (decomposer *Decomposer)
 
 		P := ringP.Modulus[:lvlP+2]
 
-		alpha := int(math.Ceil(float64(len(P)) / float64(gamma)))
+		// size of the digits, as in Parameters.Alpha
+		alpha := len(P) / gamma
+		if alpha == 0 {
+			alpha = 1
+		}
 		beta := int(math.Ceil(float64(len(Q)) / float64(alpha)))
 
 		xalpha := make([]int, beta)
@@ -453,7 +457,7 @@ func (decomposer *Decomposer) DecomposeAndSplit(levelQ, levelP, alpha, beta, gam
 		// Otherwise, we apply a fast exact base conversion for the reconstruction
 	} else {
 
-		params := decomposer.modUpParams[gamma*alpha-2][beta][decompLvl]
+		params := decomposer.modUpParams[levelP-1][beta][decompLvl]
 
 		var v [8]uint64
 		var vi [8]float64
-- 
2.43.0


From 4c1dbb5f478a1c12421f0c1c3f7bc7679604bef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:09 +0000
Subject: [PATCH 11/11] fix: MultByConst recognises integer constants beyond
 the range of int64

---
 mkckks/evaluator.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index bfd0732..3ca0663 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -47,8 +47,7 @@ func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		cImag = imag(constant)
 
 		if cReal != 0 {
-			valueInt := int64(cReal)
-			valueFloat := cReal - float64(valueInt)
+			valueFloat := cReal - math.Trunc(cReal)
 
 			if valueFloat != 0 {
 				scale = float64(eval.params.RingQ().Modulus[level])
@@ -56,8 +55,7 @@ func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		}
 
 		if cImag != 0 {
-			valueInt := int64(cImag)
-			valueFloat := cImag - float64(valueInt)
+			valueFloat := cImag - math.Trunc(cImag)
 
 			if valueFloat != 0 {
 				scale = float64(eval.params.RingQ().Modulus[level])
@@ -69,8 +67,7 @@ func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		cImag = float64(0)
 
 		if cReal != 0 {
-			valueInt := int64(cReal)
-			valueFloat := cReal - float64(valueInt)
+			valueFloat := cReal - math.Trunc(cReal)
 
 			if valueFloat != 0 {
 				scale = float64(eval.params.RingQ().Modulus[level])
-- 
2.43.0

