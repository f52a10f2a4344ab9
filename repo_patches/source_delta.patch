From 2d49b9dcb9e1f7bb8609f0d1d66862912c9ce2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 01/33] Add verif-tagged hooks to the provers

---
 buckler/hook.go       |  6 ++++++
 buckler/hook_verif.go | 14 ++++++++++++++
 buckler/prover.go     | 11 +++++++++++
 jindo/hook.go         |  6 ++++++
 jindo/hook_verif.go   | 14 ++++++++++++++
 jindo/prover.go       |  2 ++
 6 files changed, 53 insertions(+)
 create mode 100644 buckler/hook.go
 create mode 100644 buckler/hook_verif.go
 create mode 100644 jindo/hook.go
 create mode 100644 jindo/hook_verif.go

diff --git a/buckler/hook.go b/buckler/hook.go
new file mode 100644
index 0000000..e8e80bf
--- /dev/null
+++ b/buckler/hook.go
@@ -0,0 +1,6 @@
+//go:build !verif
+
+package buckler
+
+// verifHook does nothing, unless built with tag verif.
+func verifHook(stage string, args ...any) {}
diff --git a/buckler/hook_verif.go b/buckler/hook_verif.go
new file mode 100644
index 0000000..687175d
--- /dev/null
+++ b/buckler/hook_verif.go
@@ -0,0 +1,14 @@
+//go:build verif
+
+package buckler
+
+// VerifHook is called at certain stages of proving, when built with tag verif.
+// It can inspect and replace the intermediate values of the prover.
+var VerifHook func(stage string, args ...any)
+
+// verifHook calls [VerifHook] if it is set.
+func verifHook(stage string, args ...any) {
+	if VerifHook != nil {
+		VerifHook(stage, args...)
+	}
+}
diff --git a/buckler/prover.go b/buckler/prover.go
index 4d2a4c1..78aecc5 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -110,6 +110,8 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 		}
 	}
 
+	verifHook("witness", wData.pw, wData.w)
+
 	chalNames := []string{
 		"projConst",
 		"arithBatchConst",
@@ -192,6 +194,8 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 		}
 	}
 
+	verifHook("project", wData.pw, wData.w)
+
 	for _, w := range p.ctx.wSecond {
 		i := witnessToID(w)
 		wData.wEcd[i] = p.ecd.RandEncode(wData.w[i])
@@ -211,6 +215,7 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 	var linCheckMaskSum E
 	if p.ctx.HasLinearCheck() {
 		linCheckMask, linCheckMaskSum = p.sumCheckMask(2 * p.ctx.rank)
+		verifHook("linMask", linCheckMask, linCheckMaskSum)
 
 		comPolys[roundComIdx] = linCheckMask.Coeffs[:2*p.ctx.rank]
 		coms[roundComIdx], opens[roundComIdx] = p.polyProver.Commit(comPolys[roundComIdx])
@@ -227,6 +232,7 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 	var sumCheckMaskSum E
 	if p.ctx.HasSumCheck() {
 		sumCheckMask, sumCheckMaskSum = p.sumCheckMask(p.ctx.sumCheckMaxRank)
+		verifHook("sumMask", sumCheckMask, sumCheckMaskSum)
 
 		comPolys[roundComIdx] = sumCheckMask.Coeffs[:p.ctx.sumCheckMaxRank]
 		coms[roundComIdx], opens[roundComIdx] = p.polyProver.Commit(comPolys[roundComIdx])
@@ -248,6 +254,7 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 		batchConst := z.New().SetBytes(arithBatchConstBytes)
 
 		quo := p.arithCheck(batchConst, wData)
+		verifHook("arith", &quo)
 
 		comPolys[roundComIdx] = quo
 		coms[roundComIdx], opens[roundComIdx] = p.polyProver.Commit(quo)
@@ -274,6 +281,7 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 		linCheckConst := z.New().SetBytes(linCheckConstBytes)
 
 		quo, remLo, remHi := p.linCheck(batchConst, linCheckConst, linCheckMask, wData)
+		verifHook("lin", &quo, &remLo, &remHi)
 
 		comPolys[roundComIdx] = quo
 		coms[roundComIdx], opens[roundComIdx] = p.polyProver.Commit(quo)
@@ -308,6 +316,7 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 		batchConst := z.New().SetBytes(sumCheckBatchConstBytes)
 
 		quo, remLo, remHi := p.sumCheck(batchConst, sumCheckMask, wData)
+		verifHook("sum", &quo, &remLo, &remHi)
 
 		comPolys[roundComIdx] = quo
 		coms[roundComIdx], opens[roundComIdx] = p.polyProver.Commit(quo)
@@ -441,6 +450,7 @@ func (p *Prover[E]) linCheck(batchConst, linCheckConst E, linCheckMask *bigpoly.
 	p.polyEval.AddTo(eval, eval, linCheckMask)
 
 	quoPoly, remPoly := p.polyEval.QuoRemByVanishing(eval, p.ctx.rank)
+	verifHook("linRem", quoPoly, remPoly)
 
 	remLo = make([]E, p.ctx.rank-1)
 	for i := 0; i < p.ctx.rank-1; i++ {
@@ -467,6 +477,7 @@ func (p *Prover[E]) sumCheck(batchConst E, sumCheckMask *bigpoly.Poly[E], wData
 	p.polyEval.AddTo(eval, eval, sumCheckMask)
 
 	quoPoly, remPoly := p.polyEval.QuoRemByVanishing(eval, p.ctx.rank)
+	verifHook("sumRem", quoPoly, remPoly)
 
 	remLo = make([]E, p.ctx.rank-1)
 	for i := 0; i < p.ctx.rank-1; i++ {
diff --git a/jindo/hook.go b/jindo/hook.go
new file mode 100644
index 0000000..fbad46a
--- /dev/null
+++ b/jindo/hook.go
@@ -0,0 +1,6 @@
+//go:build !verif
+
+package jindo
+
+// verifHook does nothing, unless built with tag verif.
+func verifHook(stage string, args ...any) {}
diff --git a/jindo/hook_verif.go b/jindo/hook_verif.go
new file mode 100644
index 0000000..8150a14
--- /dev/null
+++ b/jindo/hook_verif.go
@@ -0,0 +1,14 @@
+//go:build verif
+
+package jindo
+
+// VerifHook is called at certain stages of proving, when built with tag verif.
+// It can inspect and replace the intermediate values of the prover.
+var VerifHook func(stage string, args ...any)
+
+// verifHook calls [VerifHook] if it is set.
+func verifHook(stage string, args ...any) {
+	if VerifHook != nil {
+		VerifHook(stage, args...)
+	}
+}
diff --git a/jindo/prover.go b/jindo/prover.go
index 1e9642e..1585dfc 100644
--- a/jindo/prover.go
+++ b/jindo/prover.go
@@ -288,6 +288,8 @@ func (p *Prover[E]) Evaluate(x E, v [][]E, com []*Commitment, open []*Opening) (
 		p.params.ringQ.MulCoeffsMontgomeryThenAdd(left[j], openBatch.Encode[p.params.cols][j], pf.PartialMask)
 	}
 
+	verifHook("partial", pf)
+
 	for i := range pf.Partial {
 		pf.Partial[i].WriteTo(oracle)
 	}
-- 
2.43.0


From 757997769bc3a6fd403b53c61c3fb1abc899f0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 02/33] fix: commit to the zero polynomial given as an empty
 slice

genFirstLastRow read v[0] unconditionally, so committing an empty
polynomial panicked although Commit documents zero padding.
---
 jindo/prover.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jindo/prover.go b/jindo/prover.go
index 1585dfc..b5a372f 100644
--- a/jindo/prover.go
+++ b/jindo/prover.go
@@ -72,7 +72,10 @@ func (p *Prover[E]) genFirstLastRow(v []E) (firstRow, lastRow []E) {
 	lastRow[p.params.cols*p.params.slots-1] = z.New()
 
 	firstRow = make([]E, p.params.cols*p.params.slots)
-	firstRow[0] = z.New().Set(v[0])
+	firstRow[0] = z.New()
+	if len(v) > 0 {
+		firstRow[0].Set(v[0])
+	}
 	for i := 1; i < p.params.cols*p.params.slots; i++ {
 		firstRow[i] = z.New()
 		if i < len(v) {
-- 
2.43.0


From 0c4039dda0f8311d0d194c1d0c2b3cd552da1a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 03/33] fix: bind the claimed evaluations before deriving the
 batch challenges

The evaluations are combined with challenges that did not depend on
them, so a prover could choose two false values whose errors cancel in
the combination and have the opening accepted.
---
 jindo/prover.go   | 16 +++++++++++-----
 jindo/verifier.go |  6 ++++++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/jindo/prover.go b/jindo/prover.go
index b5a372f..a1059a4 100644
--- a/jindo/prover.go
+++ b/jindo/prover.go
@@ -220,12 +220,20 @@ func (p *Prover[E]) Evaluate(x E, v [][]E, com []*Commitment, open []*Opening) (
 		}
 	}
 
+	evals := make([]E, p.params.batch)
+	for i := 0; i < p.params.batch; i++ {
+		evals[i] = (&bigpoly.Poly[E]{Coeffs: v[i]}).Evaluate(x)
+	}
+
 	oracle := sha3.NewSHAKE128()
 	p.ck.WriteRawTo(oracle)
 	for i := range p.params.batch {
 		com[i].WriteRawTo(oracle)
 	}
 	oracle.Write(x.Marshal())
+	for i := range p.params.batch {
+		oracle.Write(evals[i].Marshal())
+	}
 
 	var batchOut, batch []ring.Poly
 
@@ -248,6 +256,9 @@ func (p *Prover[E]) Evaluate(x E, v [][]E, com []*Commitment, open []*Opening) (
 			com[i].WriteRawTo(oracle)
 		}
 		oracle.Write(x.Marshal())
+		for i := range p.params.batch {
+			oracle.Write(evals[i].Marshal())
+		}
 		oracle.Write(batchBytes)
 
 		openBatch = NewOpening(p.params)
@@ -320,11 +331,6 @@ func (p *Prover[E]) Evaluate(x E, v [][]E, com []*Commitment, open []*Opening) (
 		}
 	}
 
-	evals := make([]E, p.params.batch)
-	for i := 0; i < p.params.batch; i++ {
-		evals[i] = (&bigpoly.Poly[E]{Coeffs: v[i]}).Evaluate(x)
-	}
-
 	return evals, pf
 }
 
diff --git a/jindo/verifier.go b/jindo/verifier.go
index d54ff81..03652cc 100644
--- a/jindo/verifier.go
+++ b/jindo/verifier.go
@@ -59,6 +59,9 @@ func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
 		com[i].WriteRawTo(oracle)
 	}
 	oracle.Write(x.Marshal())
+	for i := 0; i < v.params.batch; i++ {
+		oracle.Write(y[i].Marshal())
+	}
 
 	var batch, batchOut []ring.Poly
 	if v.params.batch > 1 {
@@ -79,6 +82,9 @@ func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
 			com[i].WriteRawTo(oracle)
 		}
 		oracle.Write(x.Marshal())
+		for i := 0; i < v.params.batch; i++ {
+			oracle.Write(y[i].Marshal())
+		}
 		oracle.Write(batchBytes)
 	}
 
-- 
2.43.0


From c00b51fb4b4a1113f69a11e60aa9cd3d548015ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 04/33] fix: draw challenge coefficients from the whole
 challenge range

Coefficients were reduced modulo the infinity-norm bound instead of the
length 2*bound+1 of the range it allows. For exponents above 60 the
bound is one, so that every challenge was zero and any opening was
accepted.
---
 jindo/utils.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jindo/utils.go b/jindo/utils.go
index c9784a0..739354f 100644
--- a/jindo/utils.go
+++ b/jindo/utils.go
@@ -28,9 +28,9 @@ func encodeChallengeTo(params Parameters, ringQ *ring.Ring, pOut ring.Poly, chal
 
 	cInfNm := uint64(params.ChallengeBound())
 	for i := 0; i < params.ecd.exp; i++ {
-		r := divMod64(c, cInfNm)
-		if r > cInfNm/2 {
-			r = cInfNm - r
+		r := divMod64(c, 2*cInfNm+1)
+		if r > cInfNm {
+			r = 2*cInfNm + 1 - r
 			for k := 0; k <= pOut.Level(); k++ {
 				pOut.Coeffs[k][i*params.slots] = ringQ.SubRings[k].Modulus - r
 			}
-- 
2.43.0


From 52867409e5bad1821d55d38050febce544d16b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:50 +0000
Subject: [PATCH 05/33] fix: exclude zero from the COSAC proposal distribution

Zero is already handled with its own probability in Sample; proposing it
again (with acceptance ratios above one) made it far too frequent.
---
 math/csprng/gaussian_cosac.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/csprng/gaussian_cosac.go b/math/csprng/gaussian_cosac.go
index ea64185..985611c 100644
--- a/math/csprng/gaussian_cosac.go
+++ b/math/csprng/gaussian_cosac.go
@@ -29,10 +29,10 @@ func (s *COSACSampler) sampleRound(cFrac, stdDev float64) int64 {
 		var cmp bool
 		if b == 0 {
 			yRound = math.Round(y) - 1
-			cmp = yRound <= 0.5
+			cmp = yRound <= -0.5
 		} else {
 			yRound = math.Round(y) + 1
-			cmp = yRound >= -0.5
+			cmp = yRound >= 0.5
 		}
 
 		if cmp {
-- 
2.43.0


From ae83a0599438fb4d4ad9f2afffc7d94f43ee56b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 06/33] fix: set the density at the top of the ziggurat

fn[0] stayed zero, so every candidate of the topmost layer was accepted.
---
 math/csprng/gaussian_rounded.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/math/csprng/gaussian_rounded.go b/math/csprng/gaussian_rounded.go
index a289c73..7887caa 100644
--- a/math/csprng/gaussian_rounded.go
+++ b/math/csprng/gaussian_rounded.go
@@ -34,6 +34,7 @@ func init() {
 		wn[i] = xn[i] / scale
 		fn[i] = normal(xn[i])
 	}
+	fn[0] = 1
 	kn[0] = uint64((rn * normal(rn) / v) * scale)
 	wn[0] = (v / normal(rn)) / scale
 }
-- 
2.43.0


From 360672fcf8ff46ab953e7131587e4875d69c5f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 07/33] fix: twin-CDT sampling between centers

The cumulative sum deciding between the two candidates ran over table
indices instead of values, so the lower table was always used; centers
within 1/128 below an integer used the table of that integer unshifted,
and centers whose fractional part rounds to one came out one too low.
---
 math/csprng/gaussian_twin_cdt.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/math/csprng/gaussian_twin_cdt.go b/math/csprng/gaussian_twin_cdt.go
index 34f8214..6e4789d 100644
--- a/math/csprng/gaussian_twin_cdt.go
+++ b/math/csprng/gaussian_twin_cdt.go
@@ -22,7 +22,7 @@ func computeCDT(center, sigma float64) []uint64 {
 		xf := float64(x)
 		rho := math.Exp(-(xf-center)*(xf-center)/(2*sigma*sigma)) / norm
 		cdf += rho
-		if cdf > 1 {
+		if cdf >= 1 {
 			table[i] = math.MaxUint64
 		} else {
 			table[i] = uint64(math.Round(cdf * math.Exp2(64)))
@@ -78,27 +78,31 @@ func (s *TwinCDTGaussianSampler) Sample(center float64) int64 {
 	cFloor := math.Floor(center)
 	cFrac := center - cFloor
 
-	c0 := int64(math.Floor(blockSize*cFrac)) % blockSize
-	c1 := int64(math.Ceil(blockSize*cFrac)) % blockSize
+	c0 := int(math.Floor(blockSize * cFrac))
+	c1 := int(math.Ceil(blockSize * cFrac))
 
 	u := s.baseSampler.Sample()
 
-	v0, ok := slices.BinarySearch(s.tables[c0], u)
+	v0, ok := slices.BinarySearch(s.tables[c0%blockSize], u)
 	if ok {
 		v0 -= 1
 	}
-	v1, ok := slices.BinarySearch(s.tables[c1], u)
+	v1, ok := slices.BinarySearch(s.tables[c1%blockSize], u)
 	if ok {
 		v1 -= 1
 	}
 
+	// Center one uses the table for center zero, shifted by one.
+	v0 += c0 / blockSize
+	v1 += c1 / blockSize
+
 	if v0 == v1 {
 		return int64(v0) + int64(cFloor) + s.tailLo
 	}
 
 	cdf := 0.0
 	norm := math.Sqrt(2*math.Pi) * s.stdDev
-	for x := s.tailLo; x <= int64(v0); x++ {
+	for x := s.tailLo; x <= int64(v0)+s.tailLo; x++ {
 		xf := float64(x)
 		cdf += math.Exp(-(xf-cFrac)*(xf-cFrac)/(2*s.stdDev*s.stdDev)) / norm
 	}
-- 
2.43.0


From b805d9e69a4dec12a7a22b7d2f700a8a66683e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 08/33] fix: keep polynomial copies within their operands for
 every rank

---
 math/bigpoly/ntt.go  | 68 +++++++++++---------------------------------
 math/bigpoly/poly.go | 16 +----------
 math/bigpoly/vec.go  | 26 +++++++++++++++++
 3 files changed, 43 insertions(+), 67 deletions(-)

diff --git a/math/bigpoly/ntt.go b/math/bigpoly/ntt.go
index d95489c..41636cf 100644
--- a/math/bigpoly/ntt.go
+++ b/math/bigpoly/ntt.go
@@ -96,41 +96,23 @@ func NewCyclicTransformer[E bignum.Uint[E]](rank int) *CyclicTransformer[E] {
 
 // FwdNTTTo computes vOut = NTT(v).
 func (ntt *CyclicTransformer[E]) FwdNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
-		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
-		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
-
-		cOut[0].Set(c0[0])
-		cOut[1].Set(c0[1])
-		cOut[2].Set(c0[2])
-		cOut[3].Set(c0[3])
-
-		cOut[4].Set(c0[4])
-		cOut[5].Set(c0[5])
-		cOut[6].Set(c0[6])
-		cOut[7].Set(c0[7])
+	if len(vOut) != ntt.rank {
+		panic("inconsistent input(s)")
 	}
 
+	copyVecTo(vOut, v)
+
 	nttInPlace(vOut, ntt.tw)
 }
 
 // InvNTTTo computes vOut = INTT(v).
 func (ntt *CyclicTransformer[E]) InvNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
-		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
-		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
-
-		cOut[0].Set(c0[0])
-		cOut[1].Set(c0[1])
-		cOut[2].Set(c0[2])
-		cOut[3].Set(c0[3])
-
-		cOut[4].Set(c0[4])
-		cOut[5].Set(c0[5])
-		cOut[6].Set(c0[6])
-		cOut[7].Set(c0[7])
+	if len(vOut) != ntt.rank {
+		panic("inconsistent input(s)")
 	}
 
+	copyVecTo(vOut, v)
+
 	inttInPlace(vOut, ntt.twInv)
 	scalarMulVecTo(vOut, vOut, ntt.rankInv)
 }
@@ -204,41 +186,23 @@ func NewCyclotomicTransformer[E bignum.Uint[E]](rank int) *CyclotomicTransformer
 
 // FwdNTTTo computes vOut = NTT(v).
 func (ntt *CyclotomicTransformer[E]) FwdNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
-		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
-		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
-
-		cOut[0].Set(c0[0])
-		cOut[1].Set(c0[1])
-		cOut[2].Set(c0[2])
-		cOut[3].Set(c0[3])
-
-		cOut[4].Set(c0[4])
-		cOut[5].Set(c0[5])
-		cOut[6].Set(c0[6])
-		cOut[7].Set(c0[7])
+	if len(vOut) != ntt.rank {
+		panic("inconsistent input(s)")
 	}
 
+	copyVecTo(vOut, v)
+
 	nttInPlace(vOut, ntt.tw)
 }
 
 // InvNTTTo computes vOut = INTT(v).
 func (ntt *CyclotomicTransformer[E]) InvNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
-		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
-		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
-
-		cOut[0].Set(c0[0])
-		cOut[1].Set(c0[1])
-		cOut[2].Set(c0[2])
-		cOut[3].Set(c0[3])
-
-		cOut[4].Set(c0[4])
-		cOut[5].Set(c0[5])
-		cOut[6].Set(c0[6])
-		cOut[7].Set(c0[7])
+	if len(vOut) != ntt.rank {
+		panic("inconsistent input(s)")
 	}
 
+	copyVecTo(vOut, v)
+
 	inttInPlace(vOut, ntt.twInv)
 	scalarMulVecTo(vOut, vOut, ntt.rankInv)
 }
diff --git a/math/bigpoly/poly.go b/math/bigpoly/poly.go
index 8674f9e..80ac9f5 100644
--- a/math/bigpoly/poly.go
+++ b/math/bigpoly/poly.go
@@ -2,7 +2,6 @@ package bigpoly
 
 import (
 	"bytes"
-	"unsafe"
 
 	"github.com/sp301415/ringo-snark/math/bignum"
 )
@@ -42,20 +41,7 @@ func (p *Poly[E]) Marshal() []byte {
 
 // CopyFrom copies p0 to p.
 func (p *Poly[E]) CopyFrom(p0 *Poly[E]) {
-	for i := 0; i < len(p.Coeffs); i += 8 {
-		cOut := (*[8]E)(unsafe.Pointer(&p.Coeffs[i]))
-		c0 := (*[8]E)(unsafe.Pointer(&p0.Coeffs[i]))
-
-		cOut[0].Set(c0[0])
-		cOut[1].Set(c0[1])
-		cOut[2].Set(c0[2])
-		cOut[3].Set(c0[3])
-
-		cOut[4].Set(c0[4])
-		cOut[5].Set(c0[5])
-		cOut[6].Set(c0[6])
-		cOut[7].Set(c0[7])
-	}
+	copyVecTo(p.Coeffs, p0.Coeffs)
 
 	p.IsNTT = p0.IsNTT
 }
diff --git a/math/bigpoly/vec.go b/math/bigpoly/vec.go
index 8c39c46..d9b0270 100644
--- a/math/bigpoly/vec.go
+++ b/math/bigpoly/vec.go
@@ -6,6 +6,32 @@ import (
 	"github.com/sp301415/ringo-snark/math/bignum"
 )
 
+func copyVecTo[E bignum.Uint[E]](xOut, x0 []E) {
+	if len(xOut) != len(x0) {
+		panic("inconsistent input(s)")
+	}
+
+	M := (len(xOut) >> 3) << 3
+	for i := 0; i < M; i += 8 {
+		wOut := (*[8]E)(unsafe.Pointer(&xOut[i]))
+		w0 := (*[8]E)(unsafe.Pointer(&x0[i]))
+
+		wOut[0].Set(w0[0])
+		wOut[1].Set(w0[1])
+		wOut[2].Set(w0[2])
+		wOut[3].Set(w0[3])
+
+		wOut[4].Set(w0[4])
+		wOut[5].Set(w0[5])
+		wOut[6].Set(w0[6])
+		wOut[7].Set(w0[7])
+	}
+
+	for i := M; i < len(xOut); i++ {
+		xOut[i].Set(x0[i])
+	}
+}
+
 func addVecTo[E bignum.Uint[E]](xOut, x0, x1 []E) {
 	M := (len(xOut) >> 3) << 3
 	for i := 0; i < M; i += 8 {
-- 
2.43.0


From 3efa5ec326f53aae6adc2cc0f9a2d840f8eb018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 09/33] fix: support the cyclic transform of rank one

---
 math/bigpoly/ntt.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/math/bigpoly/ntt.go b/math/bigpoly/ntt.go
index 41636cf..064c05d 100644
--- a/math/bigpoly/ntt.go
+++ b/math/bigpoly/ntt.go
@@ -42,8 +42,8 @@ func NewCyclicTransformer[E bignum.Uint[E]](rank int) *CyclicTransformer[E] {
 
 	gBig := new(big.Int)
 	gPowBig := new(big.Int)
-	g := z.New()
-	for x := big.NewInt(2); x.Cmp(pBig) < 0; x.Add(x, big.NewInt(1)) {
+	g := z.New().SetUint64(1)
+	for x := big.NewInt(2); rank > 1 && x.Cmp(pBig) < 0; x.Add(x, big.NewInt(1)) {
 		gBig.Exp(x, t1, pBig)
 		gPowBig.Exp(gBig, t2, pBig)
 		if gPowBig.Cmp(big.NewInt(1)) != 0 {
@@ -53,8 +53,8 @@ func NewCyclicTransformer[E bignum.Uint[E]](rank int) *CyclicTransformer[E] {
 	}
 	gInv := z.New().Inverse(g)
 
-	twRef := make([]E, rank/2)
-	twInvRef := make([]E, rank/2)
+	twRef := make([]E, max(rank/2, 1))
+	twInvRef := make([]E, max(rank/2, 1))
 	twRef[0] = z.New().SetUint64(1)
 	twInvRef[0] = z.New().SetUint64(1)
 	for i := 1; i < rank/2; i++ {
-- 
2.43.0


From 25986c9a89a1ea21c1b637c314f32107351f35dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 10/33] fix: batch constraints by distinct powers of the
 challenge

---
 buckler/prover.go   | 2 +-
 buckler/verifier.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/buckler/prover.go b/buckler/prover.go
index 78aecc5..c84f8d0 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -380,7 +380,7 @@ func (p *Prover[E]) evalCircuit(batchConst E, constraints []ArithmeticConstraint
 			}
 			p.polyEval.AddTo(eval, eval, term)
 		}
-		p.polyEval.ScalarMulTo(eval, eval, batchConst)
+		p.polyEval.ScalarMulTo(pOut, pOut, batchConst)
 		p.polyEval.AddTo(pOut, pOut, eval)
 	}
 
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 8f6558d..a28631e 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -232,7 +232,7 @@ func (v *Verifier[E]) evalCircuit(batchConst E, constraints []ArithmeticConstrai
 			}
 			eval.Add(eval, term)
 		}
-		eval.Mul(eval, batchConst)
+		out.Mul(out, batchConst)
 		out.Add(out, eval)
 	}
 
-- 
2.43.0


From a909135aa4f16726b81c72e993b843958571b60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:17 +0000
Subject: [PATCH 11/33] fix: enforce the declared sums of sum constraints

---
 buckler/verifier.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/buckler/verifier.go b/buckler/verifier.go
index a28631e..add9445 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -310,6 +310,23 @@ func (v *Verifier[E]) sumCheck(batchConst, sumCheckMaskEval, evalPoint, vanishEv
 	rem := z.New().Mul(remLoEval, evalPoint)
 	test.Add(test, rem)
 	test.Add(test, sumCheckMaskSum)
+	test.Add(test, v.sumCheckMean(batchConst))
 
 	return eval.Cmp(test) == 0
 }
+
+// sumCheckMean returns the batched declared sums, divided by the rank.
+func (v *Verifier[E]) sumCheckMean(batchConst E) E {
+	var z E
+
+	out := z.New()
+	for _, sum := range v.ctx.sumCheckSums {
+		out.Mul(out, batchConst)
+		out.Add(out, z.New().SetBigInt(sum))
+	}
+	out.Mul(out, batchConst)
+
+	rankInv := z.New().SetUint64(uint64(v.ctx.rank))
+	rankInv.Inverse(rankInv)
+	return out.Mul(out, rankInv)
+}
-- 
2.43.0


From 3dce2813335c512e62f3360709dd9c2701d317a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:17 +0000
Subject: [PATCH 12/33] fix: leave room for encoded witnesses in circuits of
 low degree

---
 buckler/context.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/buckler/context.go b/buckler/context.go
index 8a4edef..c437414 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -59,6 +59,10 @@ func newContext[E bignum.Uint[E]](rank int, walker *walker[E]) *Context[E] {
 
 		circType: walker.circuitType,
 
+		// Encoded witnesses have rank + 1 coefficients.
+		arithCheckMaxRank: rank + 1,
+		sumCheckMaxRank:   rank + 1,
+
 		linCheckConstraints: make(map[LinearChecker[E]][][2]uint64),
 
 		infDcmpBound:   make(map[uint64]*big.Int),
@@ -251,8 +255,8 @@ func (ctx *Context[E]) commitRank() int {
 		rank = ctx.rank + 1
 	}
 
-	for i := range ctx.arithConstraints {
-		quoRank := ctx.arithConstraints[i].maxRank(ctx.rank) - ctx.rank
+	if len(ctx.arithConstraints) > 0 {
+		quoRank := ctx.arithCheckMaxRank - ctx.rank
 		rank = max(rank, quoRank)
 	}
 
@@ -261,8 +265,8 @@ func (ctx *Context[E]) commitRank() int {
 		rank = max(rank, maskRank)
 	}
 
-	for i := range ctx.sumCheckConstraints {
-		maskRank := ctx.sumCheckConstraints[i].maxRank(ctx.rank) + ctx.rank + 1
+	if len(ctx.sumCheckConstraints) > 0 {
+		maskRank := ctx.sumCheckMaxRank + ctx.rank + 1
 		rank = max(rank, maskRank)
 	}
 
-- 
2.43.0


From 26fe6863ce349fee755cffe94875bbd06338dfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 13/33] fix: decompose bounds that are zero, one or powers of
 two

---
 buckler/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/buckler/utils.go b/buckler/utils.go
index 54f2fcf..9f7730a 100644
--- a/buckler/utils.go
+++ b/buckler/utils.go
@@ -8,8 +8,8 @@ func decomposeBase(x *big.Int) []*big.Int {
 	one := big.NewInt(1)
 
 	dcmpLen := x.BitLen()
-	if new(big.Int).Lsh(one, x.TrailingZeroBits()).Cmp(x) == 0 {
-		dcmpLen -= 1
+	if dcmpLen == 0 {
+		return nil
 	}
 
 	base := make([]*big.Int, dcmpLen)
-- 
2.43.0


From c9aed54a2eb70ac7cb227f3dc2d09f9b639b4a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 14/33] fix: compute each two-norm separately

---
 buckler/prover.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/buckler/prover.go b/buckler/prover.go
index c84f8d0..f97ec44 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -96,6 +96,7 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 			wData.pw[pwMaskID][i].SetInt64(1)
 		}
 
+		sqNm.SetUint64(0)
 		for i := range p.ctx.rank {
 			wData.w[id][i].BigInt(bigCoeff)
 			mul.Mul(bigCoeff, bigCoeff)
-- 
2.43.0


From d55c9cb11612cd55defe461905a85fa145ccc7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 15/33] fix: decompose two-norms above half of the modulus

---
 buckler/prover.go |  8 +++++---
 buckler/utils.go  | 14 +++++++++-----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/buckler/prover.go b/buckler/prover.go
index f97ec44..909ca98 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -78,7 +78,8 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 		base := decomposeBase(p.ctx.infDcmpBound[id])
 		for i := range p.ctx.rank {
 			wData.w[id][i].BigInt(bigCoeff)
-			dcmp := decomposeBig(bigCoeff, base, mod)
+			centerBig(bigCoeff, mod)
+			dcmp := decomposeBig(bigCoeff, base)
 			for j, wDcmp := range wDcmps {
 				wData.w[witnessToID(wDcmp)][i].SetInt64(dcmp[j])
 			}
@@ -104,7 +105,7 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 		}
 		sqNm.Mod(sqNm, mod)
 
-		dcmp := decomposeBig(sqNm, base, mod)
+		dcmp := decomposeBig(sqNm, base)
 		wDcmpID := witnessToID(p.ctx.twoDcmpWitness[id])
 		for i := range dcmp {
 			wData.w[wDcmpID][i].SetInt64(dcmp[i])
@@ -187,7 +188,8 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 			wDcmpID := witnessToID(wDcmp)
 			for i := range 128 {
 				wData.w[id][i].BigInt(bigCoeff)
-				dcmp := decomposeBig(bigCoeff, base, mod)
+				centerBig(bigCoeff, mod)
+				dcmp := decomposeBig(bigCoeff, base)
 				for j := range base {
 					wData.w[wDcmpID][i*len(base)+j].SetInt64(dcmp[j])
 				}
diff --git a/buckler/utils.go b/buckler/utils.go
index 9f7730a..db4455e 100644
--- a/buckler/utils.go
+++ b/buckler/utils.go
@@ -31,12 +31,16 @@ func decomposeBase(x *big.Int) []*big.Int {
 	return base
 }
 
-func decomposeBig(x *big.Int, base []*big.Int, q *big.Int) []int64 {
-	xSigned := new(big.Int).Set(x)
-	qHalf := new(big.Int).Rsh(q, 1)
-	if xSigned.Cmp(qHalf) > 0 {
-		xSigned.Sub(xSigned, q)
+// centerBig reduces x modulo q to the range (-q/2, q/2].
+func centerBig(x, q *big.Int) {
+	x.Mod(x, q)
+	if x.Cmp(new(big.Int).Rsh(q, 1)) > 0 {
+		x.Sub(x, q)
 	}
+}
+
+func decomposeBig(x *big.Int, base []*big.Int) []int64 {
+	xSigned := new(big.Int).Set(x)
 
 	dcmpOut := make([]int64, len(base))
 	for i := range base {
-- 
2.43.0


From 69d556a4df5392eca48e4c059e0e055eba4b0e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 16/33] fix: keep every norm constraint on the same witness

---
 buckler/context.go  | 80 ++++++++++++++++++++++++++-------------------
 buckler/prover.go   | 33 +++++++++----------
 buckler/verifier.go |  8 ++---
 3 files changed, 67 insertions(+), 54 deletions(-)

diff --git a/buckler/context.go b/buckler/context.go
index c437414..386030d 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -35,18 +35,35 @@ type Context[E bignum.Uint[E]] struct {
 	linCheckers         []LinearChecker[E]
 	linCheckConstraints map[LinearChecker[E]][][2]uint64
 
-	infDcmpBound   map[uint64]*big.Int
-	infDcmpWitness map[uint64][]Witness[E]
-
-	twoDcmpBound   map[uint64]*big.Int
-	twoDcmpBase    map[uint64]PublicWitness[E]
-	twoDcmpMask    map[uint64]PublicWitness[E]
-	twoDcmpWitness map[uint64]Witness[E]
-
-	projChecker        LinearChecker[E]
-	projWitness        map[uint64]Witness[E]
-	projInfDcmpBound   map[uint64]*big.Int
-	projInfDcmpWitness map[uint64]Witness[E]
+	infNorms []infNormConstraint[E]
+	twoNorms []twoNormConstraint[E]
+
+	projChecker LinearChecker[E]
+	projNorms   []projNormConstraint[E]
+}
+
+// infNormConstraint is the infinity-norm constraint on a witness.
+type infNormConstraint[E bignum.Uint[E]] struct {
+	id          uint64
+	bound       *big.Int
+	dcmpWitness []Witness[E]
+}
+
+// twoNormConstraint is the two-norm constraint on a witness.
+type twoNormConstraint[E bignum.Uint[E]] struct {
+	id          uint64
+	bound       *big.Int
+	dcmpBase    PublicWitness[E]
+	dcmpMask    PublicWitness[E]
+	dcmpWitness Witness[E]
+}
+
+// projNormConstraint is the approximate infinity-norm constraint on a witness.
+type projNormConstraint[E bignum.Uint[E]] struct {
+	id          uint64
+	bound       *big.Int
+	witness     Witness[E]
+	dcmpWitness Witness[E]
 }
 
 // newContext creates a new [Context].
@@ -64,18 +81,6 @@ func newContext[E bignum.Uint[E]](rank int, walker *walker[E]) *Context[E] {
 		sumCheckMaxRank:   rank + 1,
 
 		linCheckConstraints: make(map[LinearChecker[E]][][2]uint64),
-
-		infDcmpBound:   make(map[uint64]*big.Int),
-		infDcmpWitness: make(map[uint64][]Witness[E]),
-
-		twoDcmpBound:   make(map[uint64]*big.Int),
-		twoDcmpBase:    make(map[uint64]PublicWitness[E]),
-		twoDcmpMask:    make(map[uint64]PublicWitness[E]),
-		twoDcmpWitness: make(map[uint64]Witness[E]),
-
-		projWitness:        make(map[uint64]Witness[E]),
-		projInfDcmpBound:   make(map[uint64]*big.Int),
-		projInfDcmpWitness: make(map[uint64]Witness[E]),
 	}
 }
 
@@ -144,8 +149,11 @@ func (ctx *Context[E]) AddInfNormConstraintBig(w Witness[E], bound *big.Int) {
 	for i := ctx.wCnt; i < ctx.wCnt+uint64(len(dcmpBase)); i++ {
 		wDcmp = append(wDcmp, idToWitness[E, Witness[E]](i))
 	}
-	ctx.infDcmpWitness[id] = wDcmp
-	ctx.infDcmpBound[id] = bound
+	ctx.infNorms = append(ctx.infNorms, infNormConstraint[E]{
+		id:          id,
+		bound:       bound,
+		dcmpWitness: wDcmp,
+	})
 	ctx.wCnt += uint64(len(dcmpBase))
 
 	for i := range wDcmp {
@@ -183,10 +191,13 @@ func (ctx *Context[E]) AddSqNormConstraintBig(w Witness[E], bound *big.Int) {
 	pwMask := idToWitness[E, PublicWitness[E]](ctx.pwCnt + 1)
 	ctx.pwCnt += 2
 
-	ctx.twoDcmpBound[id] = bound
-	ctx.twoDcmpBase[id] = pwBase
-	ctx.twoDcmpMask[id] = pwMask
-	ctx.twoDcmpWitness[id] = wDcmp
+	ctx.twoNorms = append(ctx.twoNorms, twoNormConstraint[E]{
+		id:          id,
+		bound:       bound,
+		dcmpBase:    pwBase,
+		dcmpMask:    pwMask,
+		dcmpWitness: wDcmp,
+	})
 
 	var binConstraint ArithmeticConstraint[E]
 	binConstraint.AddTermWithConst(z.New().SetInt64(1), nil, wDcmp, wDcmp)
@@ -216,15 +227,18 @@ func (ctx *Context[E]) AddApproxInfNormConstraintBig(w Witness[E], bound *big.In
 	ctx.wCnt++
 
 	ctx.AddLinearConstraint(wProj, w, ctx.projChecker)
-	ctx.projWitness[witnessToID(w)] = wProj
 
 	wProjDcmp := idToWitness[E, Witness[E]](ctx.wCnt)
 	ctx.wCnt++
 
 	slackBound := new(big.Int).SetUint64(uint64(ctx.rank))
 	slackBound.Mul(slackBound, bound)
-	ctx.projInfDcmpBound[witnessToID(wProj)] = slackBound
-	ctx.projInfDcmpWitness[witnessToID(wProj)] = wProjDcmp
+	ctx.projNorms = append(ctx.projNorms, projNormConstraint[E]{
+		id:          witnessToID(w),
+		bound:       slackBound,
+		witness:     wProj,
+		dcmpWitness: wProjDcmp,
+	})
 	ctx.AddLinearConstraint(wProj, wProjDcmp, newProjRecomposeChecker[E](slackBound))
 	// ctx.AddInfNormConstraint(wProjDcmp, 1)
 
diff --git a/buckler/prover.go b/buckler/prover.go
index 909ca98..e91df3e 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -74,24 +74,24 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 
 	bigCoeff := new(big.Int)
 
-	for id, wDcmps := range p.ctx.infDcmpWitness {
-		base := decomposeBase(p.ctx.infDcmpBound[id])
+	for _, c := range p.ctx.infNorms {
+		base := decomposeBase(c.bound)
 		for i := range p.ctx.rank {
-			wData.w[id][i].BigInt(bigCoeff)
+			wData.w[c.id][i].BigInt(bigCoeff)
 			centerBig(bigCoeff, mod)
 			dcmp := decomposeBig(bigCoeff, base)
-			for j, wDcmp := range wDcmps {
+			for j, wDcmp := range c.dcmpWitness {
 				wData.w[witnessToID(wDcmp)][i].SetInt64(dcmp[j])
 			}
 		}
 	}
 
 	sqNm, mul := new(big.Int), new(big.Int)
-	for id, bound := range p.ctx.twoDcmpBound {
-		base := decomposeBase(bound)
+	for _, c := range p.ctx.twoNorms {
+		base := decomposeBase(c.bound)
 
-		pwBaseID := witnessToID(p.ctx.twoDcmpBase[id])
-		pwMaskID := witnessToID(p.ctx.twoDcmpMask[id])
+		pwBaseID := witnessToID(c.dcmpBase)
+		pwMaskID := witnessToID(c.dcmpMask)
 		for i := range base {
 			wData.pw[pwBaseID][i].SetBigInt(base[i])
 			wData.pw[pwMaskID][i].SetInt64(1)
@@ -99,14 +99,14 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 
 		sqNm.SetUint64(0)
 		for i := range p.ctx.rank {
-			wData.w[id][i].BigInt(bigCoeff)
+			wData.w[c.id][i].BigInt(bigCoeff)
 			mul.Mul(bigCoeff, bigCoeff)
 			sqNm.Add(sqNm, mul)
 		}
 		sqNm.Mod(sqNm, mod)
 
 		dcmp := decomposeBig(sqNm, base)
-		wDcmpID := witnessToID(p.ctx.twoDcmpWitness[id])
+		wDcmpID := witnessToID(c.dcmpWitness)
 		for i := range dcmp {
 			wData.w[wDcmpID][i].SetInt64(dcmp[i])
 		}
@@ -179,15 +179,14 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 			}
 		}
 
-		for id, wProj := range p.ctx.projWitness {
-			chk.TransformTo(wData.w[witnessToID(wProj)], wData.w[id])
-		}
+		for _, c := range p.ctx.projNorms {
+			wProjID := witnessToID(c.witness)
+			chk.TransformTo(wData.w[wProjID], wData.w[c.id])
 
-		for id, wDcmp := range p.ctx.projInfDcmpWitness {
-			base := decomposeBase(p.ctx.projInfDcmpBound[id])
-			wDcmpID := witnessToID(wDcmp)
+			base := decomposeBase(c.bound)
+			wDcmpID := witnessToID(c.dcmpWitness)
 			for i := range 128 {
-				wData.w[id][i].BigInt(bigCoeff)
+				wData.w[wProjID][i].BigInt(bigCoeff)
 				centerBig(bigCoeff, mod)
 				dcmp := decomposeBig(bigCoeff, base)
 				for j := range base {
diff --git a/buckler/verifier.go b/buckler/verifier.go
index add9445..7a17bef 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -46,11 +46,11 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 		}
 	}
 
-	for id, bound := range v.ctx.twoDcmpBound {
-		base := decomposeBase(bound)
+	for _, c := range v.ctx.twoNorms {
+		base := decomposeBase(c.bound)
 
-		pwBaseID := witnessToID(v.ctx.twoDcmpBase[id])
-		pwMaskID := witnessToID(v.ctx.twoDcmpMask[id])
+		pwBaseID := witnessToID(c.dcmpBase)
+		pwMaskID := witnessToID(c.dcmpMask)
 		for i := range base {
 			pw[pwBaseID][i].SetBigInt(base[i])
 			pw[pwMaskID][i].SetInt64(1)
-- 
2.43.0


From e53c5298ef227afa4fe89de70622ca86a98912ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 17/33] fix: constrain the digits of random projections to be
 ternary

---
 buckler/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buckler/context.go b/buckler/context.go
index 386030d..8f5ea1c 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -240,7 +240,7 @@ func (ctx *Context[E]) AddApproxInfNormConstraintBig(w Witness[E], bound *big.In
 		dcmpWitness: wProjDcmp,
 	})
 	ctx.AddLinearConstraint(wProj, wProjDcmp, newProjRecomposeChecker[E](slackBound))
-	// ctx.AddInfNormConstraint(wProjDcmp, 1)
+	ctx.AddInfNormConstraint(wProjDcmp, 1)
 
 	ctx.wSecond = append(ctx.wSecond, wProj, wProjDcmp)
 }
-- 
2.43.0


From e31937b4f12ac039304f9df53215ec194a4a7b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 18/33] fix: accept zero as bound of approximate norms

---
 buckler/context.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/buckler/context.go b/buckler/context.go
index 8f5ea1c..fc59a19 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -219,6 +219,11 @@ func (ctx *Context[E]) AddApproxInfNormConstraint(w Witness[E], bound uint64) {
 // AddApproxInfNormConstraint adds a approximate inf-norm constraint to the context.
 // The slack is around rank.
 func (ctx *Context[E]) AddApproxInfNormConstraintBig(w Witness[E], bound *big.Int) {
+	if bound.Sign() <= 0 {
+		ctx.AddInfNormConstraintBig(w, bound)
+		return
+	}
+
 	if ctx.projChecker == nil {
 		ctx.projChecker = newProjChecker[E](ctx.rank)
 	}
-- 
2.43.0


From 6a2936bdb6d4a5d7953dd6cb68328280ae2b29e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 19/33] fix: copy the coefficients, sums and bounds of
 constraints

---
 buckler/constraint.go | 2 +-
 buckler/context.go    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/buckler/constraint.go b/buckler/constraint.go
index 5f5711c..41a9255 100644
--- a/buckler/constraint.go
+++ b/buckler/constraint.go
@@ -31,7 +31,7 @@ func (c *ArithmeticConstraint[E]) SubTerm(coeffPublicWitness PublicWitness[E], w
 // Specifically, it adds coeff * coeffPublicWitness * witness[0] * ... * witness[n] to the constraint.
 // If coeffPublicWitness is nil, it is ignored.
 func (c *ArithmeticConstraint[E]) AddTermWithConst(coeff E, coeffPublicWitness PublicWitness[E], witness ...Witness[E]) {
-	c.coeffs = append(c.coeffs, coeff)
+	c.coeffs = append(c.coeffs, coeff.New().Set(coeff))
 
 	if coeffPublicWitness != nil {
 		c.hasCoeffPublicWitness = append(c.hasCoeffPublicWitness, true)
diff --git a/buckler/context.go b/buckler/context.go
index fc59a19..97c30bf 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -98,7 +98,7 @@ func (ctx *Context[E]) AddSumCheckConstraint(c ArithmeticConstraint[E], sum uint
 // AddSumCheckConstraintBig adds a sumcheck constraint to the context.
 func (ctx *Context[E]) AddSumCheckConstraintBig(c ArithmeticConstraint[E], sum *big.Int) {
 	ctx.sumCheckConstraints = append(ctx.sumCheckConstraints, c)
-	ctx.sumCheckSums = append(ctx.sumCheckSums, sum)
+	ctx.sumCheckSums = append(ctx.sumCheckSums, new(big.Int).Set(sum))
 	ctx.sumCheckMaxRank = max(ctx.sumCheckMaxRank, c.maxRank(ctx.rank))
 }
 
@@ -151,7 +151,7 @@ func (ctx *Context[E]) AddInfNormConstraintBig(w Witness[E], bound *big.Int) {
 	}
 	ctx.infNorms = append(ctx.infNorms, infNormConstraint[E]{
 		id:          id,
-		bound:       bound,
+		bound:       new(big.Int).Set(bound),
 		dcmpWitness: wDcmp,
 	})
 	ctx.wCnt += uint64(len(dcmpBase))
@@ -193,7 +193,7 @@ func (ctx *Context[E]) AddSqNormConstraintBig(w Witness[E], bound *big.Int) {
 
 	ctx.twoNorms = append(ctx.twoNorms, twoNormConstraint[E]{
 		id:          id,
-		bound:       bound,
+		bound:       new(big.Int).Set(bound),
 		dcmpBase:    pwBase,
 		dcmpMask:    pwMask,
 		dcmpWitness: wDcmp,
-- 
2.43.0


From f3b6fc18dbf06fd3ea4a8c0349e3ce7a3e51fca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 20/33] fix: bind the public inputs to the transcript

---
 buckler/prover.go   | 8 ++++++++
 buckler/verifier.go | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/buckler/prover.go b/buckler/prover.go
index e91df3e..e7f62d5 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -132,6 +132,14 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 		wData.pwEcdNTT[i] = p.polyEval.NTT(wData.pwEcd[i])
 	}
 
+	for i := range wData.pw {
+		for j := range wData.pw[i] {
+			oracleBuf.Write(wData.pw[i][j].Marshal())
+		}
+	}
+	oracle.Bind("projConst", oracleBuf.Bytes())
+	oracleBuf.Reset()
+
 	wData.wEcd = make([]*bigpoly.Poly[E], p.ctx.wCnt)
 	wData.wEcdNTT = make([]*bigpoly.Poly[E], p.ctx.wCnt)
 	coms := make([]*jindo.Commitment, p.ctx.batch())
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 7a17bef..f1878b6 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -73,6 +73,14 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 		pwEcd[i] = v.ecd.Encode(pw[i])
 	}
 
+	for i := range pw {
+		for j := range pw[i] {
+			oracleBuf.Write(pw[i][j].Marshal())
+		}
+	}
+	oracle.Bind("projConst", oracleBuf.Bytes())
+	oracleBuf.Reset()
+
 	for i := range v.ctx.wCnt {
 		isFirstRound := true
 		for j := range v.ctx.wSecond {
-- 
2.43.0


From dc42092bee760b056e183d91c937cf140afbc46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:53 +0000
Subject: [PATCH 21/33] fix: report malformed circuits and assignments

---
 buckler/compile.go  | 48 +++++++++++++++++++++++++++++++++++----------
 buckler/context.go  |  8 ++++++++
 buckler/prover.go   |  7 +++++--
 buckler/verifier.go |  7 +++++--
 4 files changed, 56 insertions(+), 14 deletions(-)

diff --git a/buckler/compile.go b/buckler/compile.go
index 6fe2285..b1bf7ef 100644
--- a/buckler/compile.go
+++ b/buckler/compile.go
@@ -13,6 +13,7 @@ import (
 var (
 	errReadOnly     = fmt.Errorf("cannot set value")
 	errRankMismatch = fmt.Errorf("witness rank mismatch")
+	errCntMismatch  = fmt.Errorf("witness count mismatch")
 )
 
 func idToWitness[E bignum.Uint[E], W Witness[E] | PublicWitness[E]](id uint64) W {
@@ -68,15 +69,21 @@ func (w *walker[E]) firstWalk(v reflect.Value) error {
 	switch v.Kind() {
 	case reflect.Pointer, reflect.Interface:
 		if !v.IsNil() {
-			w.firstWalk(v.Elem())
+			if err := w.firstWalk(v.Elem()); err != nil {
+				return err
+			}
 		}
 	case reflect.Struct:
 		for i := range v.NumField() {
-			w.firstWalk(v.Field(i))
+			if err := w.firstWalk(v.Field(i)); err != nil {
+				return err
+			}
 		}
 	case reflect.Slice, reflect.Array:
 		for i := range v.Len() {
-			w.firstWalk(v.Index(i))
+			if err := w.firstWalk(v.Index(i)); err != nil {
+				return err
+			}
 		}
 	case reflect.Invalid:
 		return fmt.Errorf("walk: invalid kind")
@@ -89,6 +96,9 @@ func (w *walker[E]) firstWalk(v reflect.Value) error {
 func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[E], sw []Witness[E]) error {
 	switch v.Type() {
 	case reflect.TypeOf(PublicWitness[E]{}):
+		if w.pwCnt >= uint64(len(pw)) {
+			return errCntMismatch
+		}
 		pw[w.pwCnt] = v.Interface().(PublicWitness[E])
 		if len(pw[w.pwCnt]) != prv.ctx.rank {
 			return errRankMismatch
@@ -97,6 +107,9 @@ func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[
 		return nil
 
 	case reflect.TypeOf(Witness[E]{}):
+		if w.wCnt >= uint64(len(sw)) {
+			return errCntMismatch
+		}
 		sw[w.wCnt] = v.Interface().(Witness[E])
 		if len(sw[w.wCnt]) != prv.ctx.rank {
 			return errRankMismatch
@@ -108,15 +121,21 @@ func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[
 	switch v.Kind() {
 	case reflect.Pointer, reflect.Interface:
 		if !v.IsNil() {
-			w.prvWalk(prv, v.Elem(), pw, sw)
+			if err := w.prvWalk(prv, v.Elem(), pw, sw); err != nil {
+				return err
+			}
 		}
 	case reflect.Struct:
 		for i := range v.NumField() {
-			w.prvWalk(prv, v.Field(i), pw, sw)
+			if err := w.prvWalk(prv, v.Field(i), pw, sw); err != nil {
+				return err
+			}
 		}
 	case reflect.Slice, reflect.Array:
 		for i := range v.Len() {
-			w.prvWalk(prv, v.Index(i), pw, sw)
+			if err := w.prvWalk(prv, v.Index(i), pw, sw); err != nil {
+				return err
+			}
 		}
 	case reflect.Invalid:
 		return fmt.Errorf("walk: invalid kind")
@@ -129,6 +148,9 @@ func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[
 func (w *walker[E]) vrfWalk(vrf *Verifier[E], v reflect.Value, pw []PublicWitness[E]) error {
 	switch v.Type() {
 	case reflect.TypeOf(PublicWitness[E]{}):
+		if w.pwCnt >= uint64(len(pw)) {
+			return errCntMismatch
+		}
 		pw[w.pwCnt] = v.Interface().(PublicWitness[E])
 		if len(pw[w.pwCnt]) != vrf.ctx.rank {
 			return errRankMismatch
@@ -140,15 +162,21 @@ func (w *walker[E]) vrfWalk(vrf *Verifier[E], v reflect.Value, pw []PublicWitnes
 	switch v.Kind() {
 	case reflect.Pointer, reflect.Interface:
 		if !v.IsNil() {
-			w.vrfWalk(vrf, v.Elem(), pw)
+			if err := w.vrfWalk(vrf, v.Elem(), pw); err != nil {
+				return err
+			}
 		}
 	case reflect.Struct:
 		for i := range v.NumField() {
-			w.vrfWalk(vrf, v.Field(i), pw)
+			if err := w.vrfWalk(vrf, v.Field(i), pw); err != nil {
+				return err
+			}
 		}
 	case reflect.Slice, reflect.Array:
 		for i := range v.Len() {
-			w.vrfWalk(vrf, v.Index(i), pw)
+			if err := w.vrfWalk(vrf, v.Index(i), pw); err != nil {
+				return err
+			}
 		}
 	case reflect.Invalid:
 		return fmt.Errorf("walk: invalid kind")
@@ -162,7 +190,7 @@ func (w *walker[E]) vrfWalk(vrf *Verifier[E], v reflect.Value, pw []PublicWitnes
 // For correct compilation, the [PublicWitness] and [Witness] field must be empty.
 // Moreover, all other fields must be set correctly.
 func Compile[E bignum.Uint[E]](witnessRank int, c Circuit[E], crs []byte) (*Prover[E], *Verifier[E], error) {
-	if reflect.TypeOf(c).Kind() != reflect.Pointer {
+	if c == nil || reflect.TypeOf(c).Kind() != reflect.Pointer {
 		return nil, nil, fmt.Errorf("circuit must be defined with a pointer receiver")
 	}
 
diff --git a/buckler/context.go b/buckler/context.go
index 97c30bf..a42561f 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -17,6 +17,11 @@ type Context[E bignum.Uint[E]] struct {
 	// wCnt is the number of witnesses.
 	wCnt uint64
 
+	// circPwCnt is the number of public witnesses in the circuit.
+	circPwCnt uint64
+	// circWCnt is the number of witnesses in the circuit.
+	circWCnt uint64
+
 	// wSecond are the witnesses in the second round.
 	wSecond []Witness[E]
 
@@ -74,6 +79,9 @@ func newContext[E bignum.Uint[E]](rank int, walker *walker[E]) *Context[E] {
 		pwCnt: walker.pwCnt,
 		wCnt:  walker.wCnt,
 
+		circPwCnt: walker.pwCnt,
+		circWCnt:  walker.wCnt,
+
 		circType: walker.circuitType,
 
 		// Encoded witnesses have rank + 1 coefficients.
diff --git a/buckler/prover.go b/buckler/prover.go
index e7f62d5..f455d46 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -40,7 +40,7 @@ type witnessData[E bignum.Uint[E]] struct {
 
 // Prove generates a proof for the given circuit and witnesses.
 func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
-	if p.ctx.circType != reflect.TypeOf(c).Elem() {
+	if reflect.TypeOf(c) != reflect.PointerTo(p.ctx.circType) {
 		return nil, fmt.Errorf("circuit type mismatch")
 	}
 
@@ -52,9 +52,12 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 	}
 
 	wk := &walker[E]{}
-	if err := wk.prvWalk(p, reflect.ValueOf(c), wData.pw, wData.w); err != nil {
+	if err := wk.prvWalk(p, reflect.ValueOf(c), wData.pw[:p.ctx.circPwCnt], wData.w[:p.ctx.circWCnt]); err != nil {
 		return nil, err
 	}
+	if wk.pwCnt != p.ctx.circPwCnt || wk.wCnt != p.ctx.circWCnt {
+		return nil, errCntMismatch
+	}
 
 	for i := wk.pwCnt; i < p.ctx.pwCnt; i++ {
 		wData.pw[i] = make(PublicWitness[E], p.ctx.rank)
diff --git a/buckler/verifier.go b/buckler/verifier.go
index f1878b6..230eb5d 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -27,7 +27,7 @@ type Verifier[E bignum.Uint[E]] struct {
 
 // Verify verifies the proof for the given public assignment.
 func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
-	if v.ctx.circType != reflect.TypeOf(c).Elem() {
+	if reflect.TypeOf(c) != reflect.PointerTo(v.ctx.circType) {
 		return false
 	}
 
@@ -35,7 +35,10 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 
 	pw := make([]PublicWitness[E], v.ctx.pwCnt)
 	wk := &walker[E]{}
-	if err := wk.vrfWalk(v, reflect.ValueOf(c), pw); err != nil {
+	if err := wk.vrfWalk(v, reflect.ValueOf(c), pw[:v.ctx.circPwCnt]); err != nil {
+		return false
+	}
+	if wk.pwCnt != v.ctx.circPwCnt {
 		return false
 	}
 
-- 
2.43.0


From 1ea74f1c8d623d6328c335cf3bdc7d7731055d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 22/33] fix: keep the random projection local to each proof

---
 buckler/context.go  |  1 +
 buckler/prover.go   | 14 ++++++++++----
 buckler/verifier.go | 14 ++++++++++----
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/buckler/context.go b/buckler/context.go
index a42561f..a91168c 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -43,6 +43,7 @@ type Context[E bignum.Uint[E]] struct {
 	infNorms []infNormConstraint[E]
 	twoNorms []twoNormConstraint[E]
 
+	// projChecker stands for the random projection, which differs for each proof.
 	projChecker LinearChecker[E]
 	projNorms   []projNormConstraint[E]
 }
diff --git a/buckler/prover.go b/buckler/prover.go
index f455d46..a0dfebb 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -180,8 +180,10 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 	xofProj := sha3.NewSHAKE128()
 	xofProj.Write(projConstBytes)
 
+	var projChk LinearChecker[E]
 	if p.ctx.projChecker != nil {
-		chk := p.ctx.projChecker.(*projChecker[E])
+		projChk = newProjChecker[E](p.ctx.rank)
+		chk := projChk.(*projChecker[E])
 		var projBuf [32]byte
 		for j := 0; j < p.ctx.rank; j++ {
 			xofProj.Read(projBuf[:])
@@ -293,7 +295,7 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 		batchConst := z.New().SetBytes(linCheckBatchConstBytes)
 		linCheckConst := z.New().SetBytes(linCheckConstBytes)
 
-		quo, remLo, remHi := p.linCheck(batchConst, linCheckConst, linCheckMask, wData)
+		quo, remLo, remHi := p.linCheck(batchConst, linCheckConst, linCheckMask, projChk, wData)
 		verifHook("lin", &quo, &remLo, &remHi)
 
 		comPolys[roundComIdx] = quo
@@ -425,7 +427,7 @@ func (p *Prover[E]) arithCheck(batchConst E, wData witnessData[E]) (quo []E) {
 	return quoPoly.Coeffs[:p.ctx.arithCheckMaxRank-p.ctx.rank]
 }
 
-func (p *Prover[E]) linCheck(batchConst, linCheckConst E, linCheckMask *bigpoly.Poly[E], wData witnessData[E]) (quo, remLo, remHi []E) {
+func (p *Prover[E]) linCheck(batchConst, linCheckConst E, linCheckMask *bigpoly.Poly[E], projChk LinearChecker[E], wData witnessData[E]) (quo, remLo, remHi []E) {
 	var z E
 
 	linCheckVec := make([]E, p.ctx.rank)
@@ -447,7 +449,11 @@ func (p *Prover[E]) linCheck(batchConst, linCheckConst E, linCheckMask *bigpoly.
 	eval := p.polyEval.NewPoly(true)
 	term := p.polyEval.NewPoly(true)
 	for _, tr := range p.ctx.linCheckers {
-		tr.TransposeTo(linCheckVecTr, linCheckVec)
+		if tr == p.ctx.projChecker {
+			projChk.TransposeTo(linCheckVecTr, linCheckVec)
+		} else {
+			tr.TransposeTo(linCheckVecTr, linCheckVec)
+		}
 		p.ecd.EncodeTo(linCheckEcdTr, linCheckVecTr)
 		p.polyEval.NTTTo(linCheckEcdTr, linCheckEcdTr)
 		for _, wIDs := range p.ctx.linCheckConstraints[tr] {
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 230eb5d..07f1643 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -110,8 +110,10 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 	xofProj := sha3.NewSHAKE128()
 	xofProj.Write(projConstBytes)
 
+	var projChk LinearChecker[E]
 	if v.ctx.projChecker != nil {
-		chk := v.ctx.projChecker.(*projChecker[E])
+		projChk = newProjChecker[E](v.ctx.rank)
+		chk := projChk.(*projChecker[E])
 		var projBuf [32]byte
 		for j := 0; j < v.ctx.rank; j++ {
 			xofProj.Read(projBuf[:])
@@ -208,7 +210,7 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 		linCheckConst := z.New().SetBytes(linCheckConstBytes)
 
 		quoEval, remLoEval, remHiEval := pf.Evals[roundComIdx], pf.Evals[roundComIdx+1], pf.Evals[roundComIdx+2]
-		if !v.linCheck(batchConst, linCheckConst, linCheckMaskEval, evalPoint, vanishEval, pf.LinCheckMaskSum, quoEval, remLoEval, remHiEval, pf.Evals) {
+		if !v.linCheck(projChk, batchConst, linCheckConst, linCheckMaskEval, evalPoint, vanishEval, pf.LinCheckMaskSum, quoEval, remLoEval, remHiEval, pf.Evals) {
 			return false
 		}
 		roundComIdx += 3
@@ -257,7 +259,7 @@ func (v *Verifier[E]) arithCheck(batchConst, vanishEval, quoEval E, evals []E, p
 	return eval.Cmp(test) == 0
 }
 
-func (v *Verifier[E]) linCheck(batchConst, linCheckConst, linCheckMaskEval, evalPoint, vanishEval, linCheckMaskSum, quoEval, remLoEval, remHiEval E, evals []E) bool {
+func (v *Verifier[E]) linCheck(projChk LinearChecker[E], batchConst, linCheckConst, linCheckMaskEval, evalPoint, vanishEval, linCheckMaskSum, quoEval, remLoEval, remHiEval E, evals []E) bool {
 	var z E
 
 	remLoShiftEval := bignum.Exp(evalPoint, uint64(v.JindoParams.Rank()-(v.ctx.rank-1)))
@@ -281,7 +283,11 @@ func (v *Verifier[E]) linCheck(batchConst, linCheckConst, linCheckMaskEval, eval
 
 	eval, term, termMul := z.New(), z.New(), z.New()
 	for _, tr := range v.ctx.linCheckers {
-		tr.TransposeTo(linCheckVecTr, linCheckVec)
+		if tr == v.ctx.projChecker {
+			projChk.TransposeTo(linCheckVecTr, linCheckVec)
+		} else {
+			tr.TransposeTo(linCheckVecTr, linCheckVec)
+		}
 		v.ecd.EncodeTo(linCheckEcdTr, linCheckVecTr)
 		linCheckTrEval := linCheckEcdTr.Evaluate(evalPoint)
 		for _, wIDs := range v.ctx.linCheckConstraints[tr] {
-- 
2.43.0


From 2cc1004a905ef8e94c754d346696a8ca45e9da73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:48 +0000
Subject: [PATCH 23/33] Add a verif-tagged hook to the arithmetic check

---
 buckler/prover.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/buckler/prover.go b/buckler/prover.go
index a0dfebb..5bc0d8f 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -423,7 +423,8 @@ func (p *Prover[E]) sumCheckMask(maskRank int) (*bigpoly.Poly[E], E) {
 func (p *Prover[E]) arithCheck(batchConst E, wData witnessData[E]) (quo []E) {
 	eval := p.evalCircuit(batchConst, p.ctx.arithConstraints, wData)
 	p.polyEval.InvNTTTo(eval, eval)
-	quoPoly, _ := p.polyEval.QuoRemByVanishing(eval, p.ctx.rank)
+	quoPoly, remPoly := p.polyEval.QuoRemByVanishing(eval, p.ctx.rank)
+	verifHook("arithRem", quoPoly, remPoly)
 	return quoPoly.Coeffs[:p.ctx.arithCheckMaxRank-p.ctx.rank]
 }
 
-- 
2.43.0


From 018f5887c4838c8d450a0b28bde6b5c909dc6d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 24/33] fix: keep openings of small parameter sets within the
 rank

With a single data row, the last entry of the blinding row is the
coefficient of X^rank, so that polynomials of one degree above the rank
could be committed and opened.
---
 jindo/params.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jindo/params.go b/jindo/params.go
index d5d94f0..2ae95c8 100644
--- a/jindo/params.go
+++ b/jindo/params.go
@@ -146,7 +146,8 @@ func NewParameters[E bignum.Uint[E]](targetN, batch int) Parameters {
 	minSize := math.Inf(1)
 	for nn := 1; nn <= maxCols; nn <<= 1 {
 		n := float64(nn)
-		m := math.Ceil(float64(targetN) / (n * l))
+		// With a single data row, the blinding row would reach one degree above the rank.
+		m := max(2, math.Ceil(float64(targetN)/(n*l)))
 
 		xOne := math.Sqrt(k) * b
 		cOne := math.Sqrt(k) * min(b, math.Exp2(120/k)) / 2
-- 
2.43.0


From f9efbf51f1545245b8881c4b5a6d0a1f0870516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:27 +0000
Subject: [PATCH 25/33] fix: keep sampled bytes independent of the buffer they
 are read into

---
 math/csprng/uniform.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/math/csprng/uniform.go b/math/csprng/uniform.go
index bdb915e..f1d06de 100644
--- a/math/csprng/uniform.go
+++ b/math/csprng/uniform.go
@@ -56,6 +56,7 @@ func NewUniformSamplerWithSeed(seed []byte) *UniformSampler {
 // Read implements the [io.Reader] interface.
 // It always succeeds, with n == len(p) and err == nil.
 func (s *UniformSampler) Read(p []byte) (n int, err error) {
+	clear(p)
 	s.prng.XORKeyStream(p, p)
 	return len(p), nil
 }
-- 
2.43.0


From 996792d6a8494048450e251f64b04e1c2030dc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 26/33] fix: reject malformed proofs instead of crashing

---
 buckler/verifier.go | 27 +++++++++++++++++++++++++++
 jindo/verifier.go   | 37 +++++++++++++++++++++++++++++++++++++
 2 files changed, 64 insertions(+)

diff --git a/buckler/verifier.go b/buckler/verifier.go
index 07f1643..951af7c 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -41,6 +41,9 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 	if wk.pwCnt != v.ctx.circPwCnt {
 		return false
 	}
+	if !v.isWellFormed(pf) {
+		return false
+	}
 
 	for i := wk.pwCnt; i < v.ctx.pwCnt; i++ {
 		pw[i] = make(PublicWitness[E], v.ctx.rank)
@@ -229,6 +232,30 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 	return true
 }
 
+// isWellFormed checks that the proof has the parts that the circuit asks for.
+func (v *Verifier[E]) isWellFormed(pf *Proof[E]) bool {
+	var z E
+
+	if pf == nil || len(pf.Witness) != v.ctx.batch() || len(pf.Evals) != v.ctx.batch() {
+		return false
+	}
+	for i := range pf.Evals {
+		if any(pf.Evals[i]) == any(z) {
+			return false
+		}
+	}
+	if !v.polyVerifier.IsWellFormed(pf.Witness, pf.EvalProof) {
+		return false
+	}
+	if v.ctx.HasLinearCheck() && any(pf.LinCheckMaskSum) == any(z) {
+		return false
+	}
+	if v.ctx.HasSumCheck() && any(pf.SumCheckMaskSum) == any(z) {
+		return false
+	}
+	return true
+}
+
 func (v *Verifier[E]) evalCircuit(batchConst E, constraints []ArithmeticConstraint[E], evals []E, pwEvals []E) E {
 	var z E
 
diff --git a/jindo/verifier.go b/jindo/verifier.go
index 03652cc..30eafde 100644
--- a/jindo/verifier.go
+++ b/jindo/verifier.go
@@ -52,6 +52,9 @@ func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
 	case len(com) != v.params.batch || len(y) != v.params.batch:
 		panic("len(v) != params.batch")
 	}
+	if !v.IsWellFormed(com, pf) {
+		return false
+	}
 
 	oracle := sha3.NewSHAKE128()
 	v.ck.WriteRawTo(oracle)
@@ -138,6 +141,40 @@ func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
 	return true
 }
 
+// IsWellFormed checks that the commitments and the proof have the shape that the parameters ask for.
+func (v *Verifier[E]) IsWellFormed(com []*Commitment, pf *Proof) bool {
+	for i := range com {
+		if com[i] == nil || !isWellFormed(v.params.ringQOut, com[i].Value, v.params.outMSISRank) {
+			return false
+		}
+	}
+
+	return pf != nil &&
+		isWellFormed(v.params.ringQOut, pf.InCommit, v.params.inComDcmpLen) &&
+		isWellFormed(v.params.ringQ, pf.Partial, v.params.cols) &&
+		isWellFormed(v.params.ringQ, []ring.Poly{pf.PartialMask}, 1) &&
+		isWellFormed(v.params.ringQ, pf.Encode, v.params.rows) &&
+		isWellFormed(v.params.ringQ, pf.MLWE, v.params.mlweRank+v.params.inMSISRank)
+}
+
+// isWellFormed checks that p consists of cnt polynomials over the given ring.
+func isWellFormed(ringQ *ring.Ring, p []ring.Poly, cnt int) bool {
+	if len(p) != cnt {
+		return false
+	}
+	for i := range p {
+		if len(p[i].Coeffs) < ringQ.ModuliChainLength() {
+			return false
+		}
+		for j := range p[i].Coeffs {
+			if len(p[i].Coeffs[j]) != ringQ.N() {
+				return false
+			}
+		}
+	}
+	return true
+}
+
 // verifyOuterCommitment verfies the outer commitment.
 func (v *Verifier[E]) verifyOuterCommitment(batch []ring.Poly, com []*Commitment, pf, pfInv *Proof) bool {
 	inDcmpInv := append(pfInv.InCommit, make([]ring.Poly, v.params.outMSISRank)...)
-- 
2.43.0


From 754187c8b9dcbf9a7e92cdb07df7641fbc2a7550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 27/33] fix: keep copies of an arithmetic constraint
 independent

---
 buckler/constraint.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/buckler/constraint.go b/buckler/constraint.go
index 41a9255..cf7c69d 100644
--- a/buckler/constraint.go
+++ b/buckler/constraint.go
@@ -1,6 +1,10 @@
 package buckler
 
-import "github.com/sp301415/ringo-snark/math/bignum"
+import (
+	"slices"
+
+	"github.com/sp301415/ringo-snark/math/bignum"
+)
 
 // ArithmeticConstraint is the arithmetic constraint for the circuit.
 type ArithmeticConstraint[E bignum.Uint[E]] struct {
@@ -31,7 +35,10 @@ func (c *ArithmeticConstraint[E]) SubTerm(coeffPublicWitness PublicWitness[E], w
 // Specifically, it adds coeff * coeffPublicWitness * witness[0] * ... * witness[n] to the constraint.
 // If coeffPublicWitness is nil, it is ignored.
 func (c *ArithmeticConstraint[E]) AddTermWithConst(coeff E, coeffPublicWitness PublicWitness[E], witness ...Witness[E]) {
-	c.coeffs = append(c.coeffs, coeff.New().Set(coeff))
+	// Copies of a constraint must not share the terms added to them.
+	c.coeffs = append(slices.Clip(c.coeffs), coeff.New().Set(coeff))
+	c.hasCoeffPublicWitness = slices.Clip(c.hasCoeffPublicWitness)
+	c.coeffsPublicWitness = slices.Clip(c.coeffsPublicWitness)
 
 	if coeffPublicWitness != nil {
 		c.hasCoeffPublicWitness = append(c.hasCoeffPublicWitness, true)
@@ -45,7 +52,7 @@ func (c *ArithmeticConstraint[E]) AddTermWithConst(coeff E, coeffPublicWitness P
 	for i := range witness {
 		witnessID[i] = witnessToID(witness[i])
 	}
-	c.witness = append(c.witness, witnessID)
+	c.witness = append(slices.Clip(c.witness), witnessID)
 
 	if len(witness) > c.wRank {
 		c.wRank = len(witness)
-- 
2.43.0


From 7ada53f0b4f64e960b2bb19d52c249c8666cb319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 28/33] fix: end the search for moduli at the largest base

---
 jindo-modulus/main.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/jindo-modulus/main.go b/jindo-modulus/main.go
index c188ea0..0e02b56 100644
--- a/jindo-modulus/main.go
+++ b/jindo-modulus/main.go
@@ -42,7 +42,7 @@ func findModulus(bitStart, bitEnd int) (p *big.Int, b uint64, k uint64) {
 			continue
 		}
 
-		for b := bStart; b <= min(math.MaxUint64, bEnd); b++ {
+		for b := bStart; b <= min(baseBound, bEnd); b++ {
 			bBig := big.NewInt(int64(b))
 			bExpBig := new(big.Int).Exp(bBig, kBig, nil)
 			p.Add(bExpBig, big.NewInt(1))
@@ -59,10 +59,6 @@ func findModulus(bitStart, bitEnd int) (p *big.Int, b uint64, k uint64) {
 				continue
 			}
 
-			if b > baseBound {
-				continue
-			}
-
 			return p, b, k
 		}
 	}
-- 
2.43.0


From 98c9275b5719c0564310a707a61074e9b655ae81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 29/33] fix: refuse moduli whose elements have no 64-bit limbs

---
 jindo-modulus/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jindo-modulus/main.go b/jindo-modulus/main.go
index 0e02b56..21557ee 100644
--- a/jindo-modulus/main.go
+++ b/jindo-modulus/main.go
@@ -113,6 +113,12 @@ func main() {
 			fmt.Println("modulus not prime")
 			os.Exit(1)
 		}
+
+		// Elements of smaller fields do not consist of 64-bit limbs.
+		if p.BitLen() < 32 {
+			fmt.Println("modulus too small")
+			os.Exit(1)
+		}
 	}
 
 	fmt.Printf("[*] Using %v-bit modulus: %v = %v^%v + 1\n", p.BitLen(), p, b, k)
-- 
2.43.0


From cb513857e05f8c3ec8d76b7c924f7d69493ac9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:26 +0000
Subject: [PATCH 30/33] fix: refuse configurations for which no secure
 parameters exist

---
 jindo/params.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jindo/params.go b/jindo/params.go
index 2ae95c8..e749d57 100644
--- a/jindo/params.go
+++ b/jindo/params.go
@@ -207,8 +207,9 @@ func NewParameters[E bignum.Uint[E]](targetN, batch int) Parameters {
 			qBits := int(math.Ceil(logQ / float64(qLimbs)))
 			q = math.Exp2(float64(qBits * qLimbs))
 
+			// The modulus only grows with the rank.
 			if math.Log2(q) > maxLogQ {
-				continue
+				break
 			}
 
 			if findMSISRank(d, q, inMSISBeta) == mu {
@@ -217,6 +218,10 @@ func NewParameters[E bignum.Uint[E]](targetN, batch int) Parameters {
 			}
 		}
 
+		if inMSISRank == 0 {
+			continue
+		}
+
 		inCutOffInf := inCutOffTwo / ((1 + math.Sqrt(n)*cOne) * math.Sqrt(inMSISRank*d))
 		if t > 1 {
 			inCutOffInf /= math.Sqrt(t) * cOne
@@ -317,6 +322,10 @@ func NewParameters[E bignum.Uint[E]](targetN, batch int) Parameters {
 		}
 	}
 
+	if params.ringQOut == nil {
+		panic("NewParameters: no secure parameters exist")
+	}
+
 	return params
 }
 
-- 
2.43.0


From 47c5acc9db275aad040727bd4df35d4601808901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:33 +0000
Subject: [PATCH 31/33] fix: refuse noise that exceeds 64-bit integers

---
 jindo/params.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jindo/params.go b/jindo/params.go
index e749d57..d460e57 100644
--- a/jindo/params.go
+++ b/jindo/params.go
@@ -156,6 +156,10 @@ func NewParameters[E bignum.Uint[E]](targetN, batch int) Parameters {
 		ecdBlindStdDev := 2 * xOne / (b - 1) * (b + 1) * eta
 		maskStdDev := 2 * cOne / (b - 1) * (b + 1) * eta
 		maskBlindStdDev := 2 * cOne * xOne / (b - 1) * (b + 1) * eta
+		// Noise is sampled as 64-bit integers.
+		if tailCut*maskBlindStdDev > math.MaxInt64 {
+			continue
+		}
 
 		mlweStdDev := 2 * math.Sqrt2 * eta
 		maskMLWEStdDev := 2 * cOne * math.Sqrt2 * eta
-- 
2.43.0


From adefbb69ed3ad7428b61621a422bcfe043437796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:16 +0000
Subject: [PATCH 32/33] fix: multiply by a scalar that is a coefficient of the
 output

---
 math/bigpoly/base_op.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math/bigpoly/base_op.go b/math/bigpoly/base_op.go
index ce855bc..1b3bb45 100644
--- a/math/bigpoly/base_op.go
+++ b/math/bigpoly/base_op.go
@@ -94,7 +94,8 @@ func (op *baseOperator[E]) ScalarMul(p *Poly[E], c E) *Poly[E] {
 func (op *baseOperator[E]) ScalarMulTo(pOut, p *Poly[E], c E) {
 	checkUnaryOperable(op.rank, pOut, p)
 
-	scalarMulVecTo(pOut.Coeffs, p.Coeffs, c)
+	// c may be a coefficient of pOut.
+	scalarMulVecTo(pOut.Coeffs, p.Coeffs, c.New().Set(c))
 	pOut.IsNTT = p.IsNTT
 }
 
-- 
2.43.0


From 9b34a01ca46781d12d336ab20ef9abb1016cd511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:26 +0000
Subject: [PATCH 33/33] fix: accept linear checkers of types that are not
 comparable

---
 buckler/context.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/buckler/context.go b/buckler/context.go
index a91168c..43ebc66 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -117,6 +117,11 @@ func (ctx *Context[E]) AddLinearConstraint(wOut, wIn Witness[E], chker LinearChe
 		ctx.arithCheckMaxRank = 2*ctx.rank - 1
 	}
 
+	// Checkers are keys of a map; box those that cannot be.
+	if !reflect.ValueOf(chker).Comparable() {
+		chker = &struct{ LinearChecker[E] }{chker}
+	}
+
 	if _, ok := ctx.linCheckConstraints[chker]; !ok {
 		ctx.linCheckers = append(ctx.linCheckers, chker)
 	}
-- 
2.43.0

