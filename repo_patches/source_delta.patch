From 813cefdf92bc8f056fa7f152dca9e7636068f857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 01/13] fix: GenKeyPairSparse always dereferenced its own nil
 result; take the id as the other generators do

---
 mkrlwe/keygen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index b93b422..3e13268 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -115,8 +115,8 @@ func (keygen *KeyGenerator) GenKeyPair(id string) (sk *SecretKey, pk *PublicKey)
 }
 
 // GenKeyPairSparse generates a new SecretKey with exactly hw non zero coefficients [1/2, 0, 1/2].
-func (keygen *KeyGenerator) GenKeyPairSparse(hw int) (sk *SecretKey, pk *PublicKey) {
-	sk = keygen.GenSecretKeySparse(hw, sk.ID)
+func (keygen *KeyGenerator) GenKeyPairSparse(hw int, id string) (sk *SecretKey, pk *PublicKey) {
+	sk = keygen.GenSecretKeySparse(hw, id)
 	return sk, keygen.GenPublicKey(sk)
 }
 
-- 
2.43.0


From 042b2ee514aaf24593ccb27b28e0deb86bdbb188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 02/13] fix: Rescale into another ciphertext left it empty when
 nothing was to be divided and altered its input otherwise

---
 mkckks/evaluator.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 0fd7c22..f7a9335 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -382,16 +382,17 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 		nbRescales++
 	}
 
+	// the division below modifies its input, so it always runs on ctOut
+	level := ctIn.Level()
+	if ctIn != ctOut {
+		ctOut.Ciphertext.Copy(ctIn.Ciphertext)
+	}
+
 	if nbRescales > 0 {
-		level := ctIn.Level()
 		for i := range ctOut.Value {
-			ringQ.DivRoundByLastModulusManyLvl(level, nbRescales, ctIn.Value[i], eval.polyQPool, ctOut.Value[i])
+			ringQ.DivRoundByLastModulusManyLvl(level, nbRescales, ctOut.Value[i], eval.polyQPool, ctOut.Value[i])
 			ctOut.Value[i].Coeffs = ctOut.Value[i].Coeffs[:level+1-nbRescales]
 		}
-	} else {
-		if ctIn != ctOut {
-			ctOut = ctIn.CopyNew()
-		}
 	}
 
 	return nil
-- 
2.43.0


From dd2106f75e3e3fe2876cc0b5ee6f03bee1602bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 03/13] fix: Rescale went below level 0 and indexed the moduli
 out of range when the scale stayed above the wanted one

---
 mkckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index f7a9335..3b1845a 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -377,7 +377,7 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 	var nbRescales int
 	// Divides the scale by each moduli of the modulus chain as long as the scale isn't smaller than minScale/2
 	// or until the output Level() would be zero
-	for ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 && ctIn.Level()-nbRescales >= 0 {
+	for ctIn.Level()-nbRescales > 0 && ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 {
 		ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()-nbRescales]))
 		nbRescales++
 	}
-- 
2.43.0


From b3b06a9b3aa27e5672c77721cc5816ca1a31b717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 04/13] fix: Conjugate indexed out of range for ciphertexts
 below the top level

---
 mkrlwe/keyswitch.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/mkrlwe/keyswitch.go b/mkrlwe/keyswitch.go
index 59b2a35..e292370 100644
--- a/mkrlwe/keyswitch.go
+++ b/mkrlwe/keyswitch.go
@@ -297,6 +297,23 @@ func (ks *KeySwitcher) Rotate(ctIn *Ciphertext, rotidx int, rkSet *RotationKeySe
 
 }
 
+// permuteLvl applies the automorphism X -> X^galEl on polIn for the moduli from 0 to level
+// and writes the result on polOut. polIn should be in InvNTT form and differ from polOut.
+func permuteLvl(ringQ *ring.Ring, level int, polIn *ring.Poly, galEl uint64, polOut *ring.Poly) {
+	mask := uint64(ringQ.N - 1)
+	logN := uint64(bits.Len64(mask))
+
+	for i := uint64(0); i < uint64(ringQ.N); i++ {
+		indexRaw := i * galEl
+		index := indexRaw & mask
+		tmp := (indexRaw >> logN) & 1
+
+		for j, qi := range ringQ.Modulus[:level+1] {
+			polOut.Coeffs[j][index] = polIn.Coeffs[j][i]*(tmp^1) | (qi-polIn.Coeffs[j][i])*tmp
+		}
+	}
+}
+
 // Conjugate conjugate ctIn with ctOut with ConjugationKeySet and returns the result in ctOut.
 // Input ciphertext should be in NTT form
 func (ks *KeySwitcher) Conjugate(ctIn *Ciphertext, ckSet *ConjugationKeySet, ctOut *Ciphertext) {
@@ -313,7 +330,7 @@ func (ks *KeySwitcher) Conjugate(ctIn *Ciphertext, ckSet *ConjugationKeySet, ctO
 
 	// permute ctIn and put it to ctOut
 	for id := range ctIn.Value {
-		ringQ.Permute(ctIn.Value[id], galEl, ctOut.Value[id])
+		permuteLvl(ringQ, level, ctIn.Value[id], galEl, ctOut.Value[id])
 	}
 
 	// c0 <- c0 + IP(c_i, rk_i)
-- 
2.43.0


From c5b317b0dcf29adb68a09032a87249c450de5731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 05/13] fix: MultByConst by a constant with an imaginary part
 assumed NTT form and gave garbage

---
 mkckks/evaluator.go | 65 +++++++++++++++------------------------------
 1 file changed, 22 insertions(+), 43 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 3b1845a..1d96ea8 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -120,12 +120,11 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 
 	cReal, cImag, scale := eval.getConstAndScale(level, constant)
 
-	// Component wise multiplication of the following vector with the ciphertext:
-	// [a + b*psi_qi^2, ....., a + b*psi_qi^2, a - b*psi_qi^2, ...., a - b*psi_qi^2] mod Qi
-	// [{                  N/2                }{                N/2               }]
-	// Which is equivalent outside of the NTT domain to adding a to the first coefficient of ct0 and b to the N/2-th coefficient of ct0.
+	// Multiplication by a + b*X^(N/2), which evaluates to a + b*i in every slot. Since ct0 is outside of the NTT domain,
+	// coefficient j is mapped to a*c[j] - b*c[j+N/2] and coefficient j+N/2 to a*c[j+N/2] + b*c[j].
 	ringQ := eval.params.RingQ()
-	var scaledConst, scaledConstReal, scaledConstImag uint64
+	half := ringQ.N >> 1
+	var scaledConstReal, scaledConstImag uint64
 	for i := 0; i < level+1; i++ {
 
 		qi := ringQ.Modulus[i]
@@ -134,62 +133,42 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 
 		scaledConstReal = 0
 		scaledConstImag = 0
-		scaledConst = 0
 
 		if cReal != 0 {
-			scaledConstReal = scaleUpExact(cReal, scale, qi)
-			scaledConst = scaledConstReal
+			scaledConstReal = ring.MForm(scaleUpExact(cReal, scale, qi), qi, bredParams)
 		}
 
 		if cImag != 0 {
-			scaledConstImag = scaleUpExact(cImag, scale, qi)
-			scaledConstImag = ring.MRed(scaledConstImag, ringQ.NttPsi[i][1], qi, mredParams)
-			scaledConst = ring.CRed(scaledConst+scaledConstImag, qi)
+			scaledConstImag = ring.MForm(scaleUpExact(cImag, scale, qi), qi, bredParams)
 		}
 
-		scaledConst = ring.MForm(scaledConst, qi, bredParams)
-
 		for u := range ct0.Value {
 			p0tmp := ct0.Value[u].Coeffs[i]
 			p1tmp := ctOut.Value[u].Coeffs[i]
 
-			for j := 0; j < ringQ.N>>1; j = j + 8 {
-
-				x := (*[8]uint64)(unsafe.Pointer(&p0tmp[j]))
-				z := (*[8]uint64)(unsafe.Pointer(&p1tmp[j]))
+			if cImag != 0 {
+				for j := 0; j < half; j++ {
+					x, y := p0tmp[j], p0tmp[j+half]
 
-				z[0] = ring.MRed(x[0], scaledConst, qi, mredParams)
-				z[1] = ring.MRed(x[1], scaledConst, qi, mredParams)
-				z[2] = ring.MRed(x[2], scaledConst, qi, mredParams)
-				z[3] = ring.MRed(x[3], scaledConst, qi, mredParams)
-				z[4] = ring.MRed(x[4], scaledConst, qi, mredParams)
-				z[5] = ring.MRed(x[5], scaledConst, qi, mredParams)
-				z[6] = ring.MRed(x[6], scaledConst, qi, mredParams)
-				z[7] = ring.MRed(x[7], scaledConst, qi, mredParams)
+					p1tmp[j] = ring.CRed(ring.MRed(x, scaledConstReal, qi, mredParams)+qi-ring.MRed(y, scaledConstImag, qi, mredParams), qi)
+					p1tmp[j+half] = ring.CRed(ring.MRed(y, scaledConstReal, qi, mredParams)+ring.MRed(x, scaledConstImag, qi, mredParams), qi)
+				}
+				continue
 			}
-		}
 
-		if cImag != 0 {
-			scaledConst = ring.CRed(scaledConstReal+(qi-scaledConstImag), qi)
-			scaledConst = ring.MForm(scaledConst, qi, bredParams)
-		}
-
-		for u := range ct0.Value {
-			p0tmp := ct0.Value[u].Coeffs[i]
-			p1tmp := ctOut.Value[u].Coeffs[i]
-			for j := ringQ.N >> 1; j < ringQ.N; j = j + 8 {
+			for j := 0; j < ringQ.N; j = j + 8 {
 
 				x := (*[8]uint64)(unsafe.Pointer(&p0tmp[j]))
 				z := (*[8]uint64)(unsafe.Pointer(&p1tmp[j]))
 
-				z[0] = ring.MRed(x[0], scaledConst, qi, mredParams)
-				z[1] = ring.MRed(x[1], scaledConst, qi, mredParams)
-				z[2] = ring.MRed(x[2], scaledConst, qi, mredParams)
-				z[3] = ring.MRed(x[3], scaledConst, qi, mredParams)
-				z[4] = ring.MRed(x[4], scaledConst, qi, mredParams)
-				z[5] = ring.MRed(x[5], scaledConst, qi, mredParams)
-				z[6] = ring.MRed(x[6], scaledConst, qi, mredParams)
-				z[7] = ring.MRed(x[7], scaledConst, qi, mredParams)
+				z[0] = ring.MRed(x[0], scaledConstReal, qi, mredParams)
+				z[1] = ring.MRed(x[1], scaledConstReal, qi, mredParams)
+				z[2] = ring.MRed(x[2], scaledConstReal, qi, mredParams)
+				z[3] = ring.MRed(x[3], scaledConstReal, qi, mredParams)
+				z[4] = ring.MRed(x[4], scaledConstReal, qi, mredParams)
+				z[5] = ring.MRed(x[5], scaledConstReal, qi, mredParams)
+				z[6] = ring.MRed(x[6], scaledConstReal, qi, mredParams)
+				z[7] = ring.MRed(x[7], scaledConstReal, qi, mredParams)
 			}
 		}
 	}
-- 
2.43.0


From 1ae129ed4d2f429fd35b7ebb705126c952de980b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 06/13] fix: MultByConst took integers of 2^63 and more for
 fractions and inflated the scale

---
 mkckks/evaluator.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 1d96ea8..9d41ec1 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -47,8 +47,7 @@ func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		cImag = imag(constant)
 
 		if cReal != 0 {
-			valueInt := int64(cReal)
-			valueFloat := cReal - float64(valueInt)
+			valueFloat := cReal - math.Trunc(cReal)
 
 			if valueFloat != 0 {
 				scale = float64(eval.params.RingQ().Modulus[level])
@@ -56,8 +55,7 @@ func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		}
 
 		if cImag != 0 {
-			valueInt := int64(cImag)
-			valueFloat := cImag - float64(valueInt)
+			valueFloat := cImag - math.Trunc(cImag)
 
 			if valueFloat != 0 {
 				scale = float64(eval.params.RingQ().Modulus[level])
@@ -69,8 +67,7 @@ func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		cImag = float64(0)
 
 		if cReal != 0 {
-			valueInt := int64(cReal)
-			valueFloat := cReal - float64(valueInt)
+			valueFloat := cReal - math.Trunc(cReal)
 
 			if valueFloat != 0 {
 				scale = float64(eval.params.RingQ().Modulus[level])
-- 
2.43.0


From 7ad6f661702eefbb06c849d4362d9b3b549702a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 07/13] fix: a CKKS decryptor stayed at the lowest level it had
 ever decrypted

---
 mkckks/decryptor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mkckks/decryptor.go b/mkckks/decryptor.go
index 9bec0fd..0653f2a 100644
--- a/mkckks/decryptor.go
+++ b/mkckks/decryptor.go
@@ -34,6 +34,8 @@ func (dec *Decryptor) PartialDecrypt(ct *Ciphertext, sk *mkrlwe.SecretKey) {
 func (dec *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *mkrlwe.SecretKeySet) (msg *Message) {
 	ctTmp := ciphertext.CopyNew()
 
+	// the pooled plaintext keeps the level of the previous decryption
+	dec.ptxtPool.Value.Coeffs = dec.ptxtPool.Value.Coeffs[:ctTmp.Level()+1]
 	dec.Decryptor.Decrypt(ctTmp.Ciphertext, skSet, dec.ptxtPool.Plaintext)
 	dec.ptxtPool.Scale = ctTmp.Scale
 	msg = new(Message)
-- 
2.43.0


From f60df4281ffd3363eef309f41c91febb710080dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 08/13] fix: the BFV decryptor decoded garbage instead of
 refusing when a secret key is missing

---
 mkbfv/decryptor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mkbfv/decryptor.go b/mkbfv/decryptor.go
index 6624c83..c649912 100644
--- a/mkbfv/decryptor.go
+++ b/mkbfv/decryptor.go
@@ -49,6 +49,10 @@ func (dec *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *mkrlwe.SecretKeySet
 		}
 	}
 
+	if len(ctTmp.Value) > 1 {
+		panic("Cannot Decrypt: there is a missing secretkey")
+	}
+
 	msg = NewMessage(dec.params)
 	dec.ptxtPool.Value = ctTmp.Value["0"]
 	dec.encoder.DecodeInt(dec.ptxtPool, msg.Value)
-- 
2.43.0


From a18947619f475b172158b83fc73ab0e13ce59610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 09/13] fix: GenRotationKey looked the CRS up before
 normalising the rotation index

---
 mkrlwe/keygen.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index 3e13268..7125ee9 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -198,17 +198,20 @@ func (keygen *KeyGenerator) GenRotationKey(rotidx int, sk *SecretKey) (rk *Rotat
 	beta := params.Beta(levelQ)
 	ringQP := params.RingQP()
 
+	// adjust rotidx
+	for rotidx < 0 {
+		rotidx += (params.N() / 2)
+	}
+	for rotidx >= params.N()/2 {
+		rotidx -= (params.N() / 2)
+	}
+
 	// check CRS for given rot idx exists
 	_, in := params.CRS[rotidx]
 	if !in {
 		panic("Cannot GenRotationKey: CRS for given rot idx is not generated")
 	}
 
-	// adjust rotidx
-	for rotidx < 0 {
-		rotidx += (params.N() / 2)
-	}
-
 	galEl := keygen.params.GaloisElementForColumnRotationBy(rotidx)
 	galEl = keygen.params.InverseGaloisElement(galEl)
 	index := ring.PermuteNTTIndex(galEl, uint64(params.N()))
-- 
2.43.0


From aa2f5c8f9fcfa2737c730ff4a03c46e643a3611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 10/13] fix: AddCRS replaced reserved and already used
 reference strings

---
 mkrlwe/params.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mkrlwe/params.go b/mkrlwe/params.go
index a4431a2..2d82740 100644
--- a/mkrlwe/params.go
+++ b/mkrlwe/params.go
@@ -76,6 +76,13 @@ func (params Parameters) Gamma() int {
 
 func (params *Parameters) AddCRS(idx int) {
 
+	// rotations are taken modulo N/2; the negative indexes are reserved for the other CRSs
+	idx &= params.N()/2 - 1
+	if _, in := params.CRS[idx]; in {
+		// keys may have been generated from the existing CRS
+		return
+	}
+
 	prng, err := utils.NewPRNG()
 	if err != nil {
 		panic(err)
-- 
2.43.0


From ff765e7df3085cb94c5e49f968b0727287139aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 11/13] fix: relinearization key sets held scratch memory
 shared by every evaluator using them

---
 mkbfv/evaluator.go  | 50 +++++++++++++++++++++++++++++++++++++--------
 mkbfv/keys.go       | 27 ------------------------
 mkckks/evaluator.go | 43 +++++++++++++++++++-------------------
 mkrlwe/keys.go      | 10 ++-------
 4 files changed, 66 insertions(+), 64 deletions(-)

diff --git a/mkbfv/evaluator.go b/mkbfv/evaluator.go
index 155ea71..7936f20 100644
--- a/mkbfv/evaluator.go
+++ b/mkbfv/evaluator.go
@@ -8,6 +8,12 @@ type Evaluator struct {
 	params Parameters
 	ksw    *KeySwitcher
 	conv   *FastBasisExtender
+
+	polyRPool1 map[string]*ring.Poly
+	polyRPool2 map[string]*ring.Poly
+
+	hoistPool1 [2]*mkrlwe.HoistedCiphertext
+	hoistPool2 [2]*mkrlwe.HoistedCiphertext
 }
 
 // NewEvaluator creates a new Evaluator, that can be used to do homomorphic
@@ -19,9 +25,33 @@ func NewEvaluator(params Parameters) *Evaluator {
 	eval.ksw = NewKeySwitcher(params)
 	eval.conv = NewFastBasisExtender(params.RingP(), params.RingQ(), params.RingQMul(), params.RingR())
 
+	eval.polyRPool1 = make(map[string]*ring.Poly)
+	eval.polyRPool2 = make(map[string]*ring.Poly)
+
+	for i := range eval.hoistPool1 {
+		eval.hoistPool1[i] = mkrlwe.NewHoistedCiphertext()
+		eval.hoistPool2[i] = mkrlwe.NewHoistedCiphertext()
+	}
+
 	return eval
 }
 
+// allocatePools makes sure that eval's pools have an entry for given id.
+// The pools belong to the evaluator: the key sets may be shared between evaluators.
+func (eval *Evaluator) allocatePools(id string) {
+	if _, in := eval.polyRPool1[id]; in {
+		return
+	}
+
+	for i := range eval.hoistPool1 {
+		eval.hoistPool1[i].Value[id] = mkrlwe.NewSwitchingKey(eval.params.Parameters)
+		eval.hoistPool2[i].Value[id] = mkrlwe.NewSwitchingKey(eval.params.Parameters)
+	}
+
+	eval.polyRPool2[id] = eval.params.RingR().NewPoly()
+	eval.polyRPool1[id] = eval.params.RingR().NewPoly()
+}
+
 func (eval *Evaluator) newCiphertextBinary(op0, op1 *Ciphertext) (ctOut *Ciphertext) {
 	idset := op0.IDSet().Union(op1.IDSet())
 	return NewCiphertext(eval.params, idset)
@@ -99,12 +129,14 @@ func (eval *Evaluator) mulRelin(ct0, ct1 *Ciphertext, rlkSet *RelinearizationKey
 	ct1R.Value = make(map[string]*ring.Poly)
 
 	for id := range ct0.Value {
-		ct0R.Value[id] = rlkSet.PolyRPool1[id]
+		eval.allocatePools(id)
+		ct0R.Value[id] = eval.polyRPool1[id]
 		eval.conv.ModUpQtoR(ct0.Value[id], ct0R.Value[id])
 	}
 
 	for id := range ct1.Value {
-		ct1R.Value[id] = rlkSet.PolyRPool2[id]
+		eval.allocatePools(id)
+		ct1R.Value[id] = eval.polyRPool2[id]
 		eval.conv.Rescale(ct1.Value[id], ct1R.Value[id])
 	}
 
@@ -123,12 +155,14 @@ func (eval *Evaluator) mulRelinHoisted(ct0, ct1 *Ciphertext, rlkSet *Relineariza
 	ct1R.Value = make(map[string]*ring.Poly)
 
 	for id := range ct0.Value {
-		ct0R.Value[id] = rlkSet.PolyRPool1[id]
+		eval.allocatePools(id)
+		ct0R.Value[id] = eval.polyRPool1[id]
 		eval.conv.ModUpQtoR(ct0.Value[id], ct0R.Value[id])
 	}
 
 	for id := range ct1.Value {
-		ct1R.Value[id] = rlkSet.PolyRPool2[id]
+		eval.allocatePools(id)
+		ct1R.Value[id] = eval.polyRPool2[id]
 		eval.conv.Rescale(ct1.Value[id], ct1R.Value[id])
 	}
 
@@ -136,16 +170,16 @@ func (eval *Evaluator) mulRelinHoisted(ct0, ct1 *Ciphertext, rlkSet *Relineariza
 	idset1 := ct1.IDSet()
 
 	for id := range idset0.Value {
-		eval.ksw.DecomposeBFV(ct0.Level(), ct0R.Value[id], rlkSet.HoistPool1[0].Value[id], rlkSet.HoistPool2[0].Value[id])
+		eval.ksw.DecomposeBFV(ct0.Level(), ct0R.Value[id], eval.hoistPool1[0].Value[id], eval.hoistPool2[0].Value[id])
 	}
 
 	for id := range idset1.Value {
-		eval.ksw.DecomposeBFV(ct1.Level(), ct1R.Value[id], rlkSet.HoistPool1[1].Value[id], rlkSet.HoistPool2[1].Value[id])
+		eval.ksw.DecomposeBFV(ct1.Level(), ct1R.Value[id], eval.hoistPool1[1].Value[id], eval.hoistPool2[1].Value[id])
 	}
 
 	eval.ksw.MulAndRelinBFVHoisted(ct0R, ct1R,
-		rlkSet.HoistPool1[0], rlkSet.HoistPool2[0],
-		rlkSet.HoistPool1[1], rlkSet.HoistPool2[1],
+		eval.hoistPool1[0], eval.hoistPool2[0],
+		eval.hoistPool1[1], eval.hoistPool2[1],
 		rlkSet, ctOut.Ciphertext)
 }
 
diff --git a/mkbfv/keys.go b/mkbfv/keys.go
index e0a2452..a94eb8f 100644
--- a/mkbfv/keys.go
+++ b/mkbfv/keys.go
@@ -1,7 +1,6 @@
 package mkbfv
 
 import "mk-lattigo/mkrlwe"
-import "github.com/ldsec/lattigo/v2/ring"
 
 type RelinearizationKey struct {
 	Value [2]*mkrlwe.RelinearizationKey
@@ -12,12 +11,6 @@ type RelinearizationKey struct {
 type RelinearizationKeySet struct {
 	Value map[string]*RelinearizationKey
 
-	PolyRPool1 map[string]*ring.Poly
-	PolyRPool2 map[string]*ring.Poly
-
-	HoistPool1 [2]*mkrlwe.HoistedCiphertext
-	HoistPool2 [2]*mkrlwe.HoistedCiphertext
-
 	params Parameters
 }
 
@@ -38,32 +31,12 @@ func NewRelinearizationKeyKeySet(params Parameters) *RelinearizationKeySet {
 	rlkSet.Value = make(map[string]*RelinearizationKey)
 	rlkSet.params = params
 
-	rlkSet.PolyRPool1 = make(map[string]*ring.Poly)
-	rlkSet.PolyRPool2 = make(map[string]*ring.Poly)
-
-	rlkSet.PolyRPool1["0"] = params.RingR().NewPoly()
-	rlkSet.PolyRPool2["0"] = params.RingR().NewPoly()
-
-	rlkSet.HoistPool1[0] = mkrlwe.NewHoistedCiphertext()
-	rlkSet.HoistPool1[1] = mkrlwe.NewHoistedCiphertext()
-
-	rlkSet.HoistPool2[0] = mkrlwe.NewHoistedCiphertext()
-	rlkSet.HoistPool2[1] = mkrlwe.NewHoistedCiphertext()
-
 	return rlkSet
 }
 
 // AddRelinearizationKey insert new publickey into RelinearizationKeySet with its id
 func (rlkSet *RelinearizationKeySet) AddRelinearizationKey(rlk *RelinearizationKey) {
 	rlkSet.Value[rlk.ID] = rlk
-	rlkSet.PolyRPool1[rlk.ID] = rlkSet.params.RingR().NewPoly()
-	rlkSet.PolyRPool2[rlk.ID] = rlkSet.params.RingR().NewPoly()
-
-	rlkSet.HoistPool1[0].Value[rlk.ID] = mkrlwe.NewSwitchingKey(rlkSet.params.Parameters)
-	rlkSet.HoistPool1[1].Value[rlk.ID] = mkrlwe.NewSwitchingKey(rlkSet.params.Parameters)
-
-	rlkSet.HoistPool2[0].Value[rlk.ID] = mkrlwe.NewSwitchingKey(rlkSet.params.Parameters)
-	rlkSet.HoistPool2[1].Value[rlk.ID] = mkrlwe.NewSwitchingKey(rlkSet.params.Parameters)
 }
 
 // DelRelinearizationKey delete publickey of given id from SecretKeySet
diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 9d41ec1..a4677dd 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -15,6 +15,7 @@ type Evaluator struct {
 	ksw       *mkrlwe.KeySwitcher
 	ctxtPool  *mkrlwe.Ciphertext
 	polyQPool *ring.Poly
+	hoistPool [2]*mkrlwe.HoistedCiphertext
 }
 
 // NewEvaluator creates a new Evaluator, that can be used to do homomorphic
@@ -34,6 +35,9 @@ func NewEvaluator(params Parameters) *Evaluator {
 	eval.polyQPool = ringQ.NewPoly()
 	eval.polyQPool.IsNTT = true
 
+	eval.hoistPool[0] = mkrlwe.NewHoistedCiphertext()
+	eval.hoistPool[1] = mkrlwe.NewHoistedCiphertext()
+
 	return eval
 }
 
@@ -387,6 +391,19 @@ func (eval *Evaluator) RescaleNew(ct0 *Ciphertext, threshold float64) (ctOut *Ci
 	return ctOut, eval.Rescale(ct0, threshold, ctOut)
 }
 
+// decomposeToPool saves the decomposition of ct at eval's pool of given index.
+// The pool belongs to the evaluator: the key sets may be shared between evaluators.
+func (eval *Evaluator) decomposeToPool(ct *Ciphertext, index int) *mkrlwe.HoistedCiphertext {
+	pool := eval.hoistPool[index]
+	for id := range ct.IDSet().Value {
+		if _, in := pool.Value[id]; !in {
+			pool.Value[id] = mkrlwe.NewSwitchingKey(eval.params.Parameters)
+		}
+		eval.ksw.Decompose(ct.Level(), ct.Value[id], pool.Value[id])
+	}
+	return pool
+}
+
 // MulRelinNew multiplies ct0 by ct1 with relinearization and returns the result in a newly created element.
 // The procedure will panic if either op0.Degree or op1.Degree > 1.
 // The procedure will panic if the evaluator was not created with an relinearization key.
@@ -394,29 +411,13 @@ func (eval *Evaluator) MulRelinNew(op0, op1 *Ciphertext, rlkSet *mkrlwe.Relinear
 
 	//case of square
 	if op0 == op1 {
-		idset := op0.IDSet()
-		// Save decomposed ciphertext at rlkSet's pool
-		for id := range idset.Value {
-			eval.ksw.Decompose(op0.Level(), op0.Value[id], rlkSet.HoistPool[0].Value[id])
-		}
-
-		return eval.MulRelinHoistedNew(op0, op1, rlkSet.HoistPool[0], rlkSet.HoistPool[0], rlkSet)
-
-	} else {
-		idset0 := op0.IDSet()
-		idset1 := op1.IDSet()
-
-		for id := range idset0.Value {
-			eval.ksw.Decompose(op0.Level(), op0.Value[id], rlkSet.HoistPool[0].Value[id])
-		}
-
-		for id := range idset1.Value {
-			eval.ksw.Decompose(op1.Level(), op1.Value[id], rlkSet.HoistPool[1].Value[id])
-		}
-
-		return eval.MulRelinHoistedNew(op0, op1, rlkSet.HoistPool[0], rlkSet.HoistPool[1], rlkSet)
+		pool := eval.decomposeToPool(op0, 0)
+		return eval.MulRelinHoistedNew(op0, op1, pool, pool, rlkSet)
 	}
 
+	pool0 := eval.decomposeToPool(op0, 0)
+	pool1 := eval.decomposeToPool(op1, 1)
+	return eval.MulRelinHoistedNew(op0, op1, pool0, pool1, rlkSet)
 }
 
 // MulRelin multiplies op0 with op1 with relinearization and returns the result in ctOut.
diff --git a/mkrlwe/keys.go b/mkrlwe/keys.go
index 8e5b5b9..74081f8 100644
--- a/mkrlwe/keys.go
+++ b/mkrlwe/keys.go
@@ -51,9 +51,8 @@ type ConjugationKey struct {
 
 // RelinearizationKeySet is a type for a set of multikey RLWE relinearization keys.
 type RelinearizationKeySet struct {
-	params    Parameters
-	Value     map[string]*RelinearizationKey
-	HoistPool [2]*HoistedCiphertext
+	params Parameters
+	Value  map[string]*RelinearizationKey
 }
 
 //RotationKeysSet is a type for a set of multikey RLWE rotation keys.
@@ -166,9 +165,6 @@ func NewRelinearizationKeyKeySet(params Parameters) *RelinearizationKeySet {
 	rlkSet := new(RelinearizationKeySet)
 	rlkSet.Value = make(map[string]*RelinearizationKey)
 
-	rlkSet.HoistPool[0] = NewHoistedCiphertext()
-	rlkSet.HoistPool[1] = NewHoistedCiphertext()
-
 	rlkSet.params = params
 
 	return rlkSet
@@ -177,8 +173,6 @@ func NewRelinearizationKeyKeySet(params Parameters) *RelinearizationKeySet {
 // AddRelinearizationKey insert new publickey into RelinearizationKeySet with its id
 func (rlkSet *RelinearizationKeySet) AddRelinearizationKey(rlk *RelinearizationKey) {
 	rlkSet.Value[rlk.ID] = rlk
-	rlkSet.HoistPool[0].Value[rlk.ID] = NewSwitchingKey(rlkSet.params)
-	rlkSet.HoistPool[1].Value[rlk.ID] = NewSwitchingKey(rlkSet.params)
 }
 
 // DelRelinearizationKey delete publickey of given id from SecretKeySet
-- 
2.43.0


From 1fd1d1dc8d215f1637d119d227d157ae989f52a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:45 +0000
Subject: [PATCH 12/13] fix: Rescale accepted a receiver of another level,
 although it documents an error, and could leave stale residues in it

---
 mkckks/evaluator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index a4677dd..ee38442 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -352,6 +352,10 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 		return errors.New("cannot Rescale: input Ciphertext already at level 0")
 	}
 
+	if ctIn.Level() != ctOut.Level() {
+		return errors.New("cannot Rescale: input and output Ciphertexts have different levels")
+	}
+
 	ctOut.Scale = ctIn.Scale
 
 	var nbRescales int
-- 
2.43.0


From 911b36b0a21f32008acb50f5c6e5b9497cc511f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:45 +0000
Subject: [PATCH 13/13] fix: decryption ignored the domain (NTT or not) of the
 ciphertext

---
 mkbfv/decryptor.go  | 6 ++++++
 mkrlwe/decryptor.go | 8 +++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/mkbfv/decryptor.go b/mkbfv/decryptor.go
index c649912..e932f3c 100644
--- a/mkbfv/decryptor.go
+++ b/mkbfv/decryptor.go
@@ -53,6 +53,12 @@ func (dec *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *mkrlwe.SecretKeySet
 		panic("Cannot Decrypt: there is a missing secretkey")
 	}
 
+	// the encoder expects a plaintext out of the NTT domain
+	if ctTmp.Value["0"].IsNTT {
+		dec.params.RingQ().InvNTT(ctTmp.Value["0"], ctTmp.Value["0"])
+		ctTmp.Value["0"].IsNTT = false
+	}
+
 	msg = NewMessage(dec.params)
 	dec.ptxtPool.Value = ctTmp.Value["0"]
 	dec.encoder.DecodeInt(dec.ptxtPool, msg.Value)
diff --git a/mkrlwe/decryptor.go b/mkrlwe/decryptor.go
index 0566c76..f811f6d 100644
--- a/mkrlwe/decryptor.go
+++ b/mkrlwe/decryptor.go
@@ -62,5 +62,11 @@ func (decryptor *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *SecretKeySet,
 		panic("Cannot Decrypt: there is a missing secretkey")
 	}
 
-	ringQ.ReduceLvl(level, ctTmp.Value["0"], plaintext.Value)
+	if ctTmp.Value["0"].IsNTT && !plaintext.Value.IsNTT {
+		ringQ.InvNTTLvl(level, ctTmp.Value["0"], plaintext.Value)
+	} else if !ctTmp.Value["0"].IsNTT && plaintext.Value.IsNTT {
+		ringQ.NTTLvl(level, ctTmp.Value["0"], plaintext.Value)
+	} else {
+		ringQ.ReduceLvl(level, ctTmp.Value["0"], plaintext.Value)
+	}
 }
-- 
2.43.0

