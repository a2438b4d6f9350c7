From 095951ef732bf85f05686d7e27b04261ee78739f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:01 +0000
Subject: [PATCH 01/19] fix: ECPoint.Equal compares the y coordinates of both
 points

Equal compared p2.Y with itself, so P.Equal(-P) was true and every verifier
accepted a point and its inverse as the same point.
---
 crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto.go b/crypto.go
index 26e8d07..a06b3e7 100644
--- a/crypto.go
+++ b/crypto.go
@@ -76,7 +76,7 @@ var Zero ECPoint // initialized in init()
 
 // Equal returns true if points p (self) and p2 (arg) are the same.
 func (p ECPoint) Equal(p2 ECPoint) bool {
-	if p.X.Cmp(p2.X) == 0 && p2.Y.Cmp(p2.Y) == 0 {
+	if p.X.Cmp(p2.X) == 0 && p.Y.Cmp(p2.Y) == 0 {
 		return true
 	}
 	return false
-- 
2.43.0


From 814d5d17c3cc229580fdbe2130d114f20a582204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:02 +0000
Subject: [PATCH 02/19] fix: TestCurve.H is the generator ScalarBaseMultH
 multiplies

TestCurve.H was a multiple of G with a publicly known factor, and differed
from the point the precomputed H table is built on, so Mult(H, s) was not
s times H and Pedersen commitments under (G, H) were not binding.
---
 zksigma.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/zksigma.go b/zksigma.go
index 77ec75e..87e7b62 100644
--- a/zksigma.go
+++ b/zksigma.go
@@ -16,7 +16,6 @@ More info on Github
 package zksigma
 
 import (
-	"crypto/sha256"
 	"math/big"
 
 	"github.com/mit-dci/zksigma/btcec"
@@ -47,9 +46,9 @@ func generateH2tothe() []ECPoint {
 }
 
 func init() {
-	s256 := sha256.New()
-	hashedString := s256.Sum([]byte("This is the new random point in zksigma"))
-	HX, HY := btcec.S256().ScalarMult(btcec.S256().Gx, btcec.S256().Gy, hashedString)
+	// H is the generator that btcec's precomputed table for ScalarBaseMultH is
+	// built on, so that Mult(H, s) and ScalarMult(H, s) agree.
+	HX, HY := btcec.S256().ScalarBaseMultH([]byte{1})
 	TestCurve = ZKPCurveParams{
 		C: btcec.S256(),
 		G: ECPoint{btcec.S256().Gx, btcec.S256().Gy},
-- 
2.43.0


From 65ce97863b36f1d2a35c1343a773c9d321f118a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:48 +0000
Subject: [PATCH 03/19] fix: reduce the disjunctive proof's response modulo the
 group order

The unreduced u1 + c*x is published: its quotient by c reveals x.
---
 disjunctive.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/disjunctive.go b/disjunctive.go
index a9e1a87..c695f77 100644
--- a/disjunctive.go
+++ b/disjunctive.go
@@ -128,6 +128,7 @@ func NewDisjunctiveProof(
 	deltaC.Mod(deltaC, zkpcp.C.Params().N)
 
 	s := new(big.Int).Add(u1, new(big.Int).Mul(deltaC, modValue))
+	s.Mod(s, zkpcp.C.Params().N)
 
 	// Look at mapping given in block comment above
 	if option == Left {
-- 
2.43.0


From 703b9605bd2ab3cc76c9d43b391beeecf92f6c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:50 +0000
Subject: [PATCH 04/19] fix: reduce the ABC proof's response l modulo the group
 order

The unreduced u3 + (uc - v*ub)*c is published: its quotient by c reveals
uc - v*ub as an integer, and with it the size of the committed value.
---
 abc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/abc.go b/abc.go
index f39f5b5..c5fea04 100644
--- a/abc.go
+++ b/abc.go
@@ -157,6 +157,7 @@ func NewABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk *big.Int, op
 	// l = u3 + (uc - v * ub) * chal
 	temp1 := new(big.Int).Sub(uc, new(big.Int).Mul(value, ub))
 	l := new(big.Int).Add(u3, new(big.Int).Mul(temp1, Challenge))
+	l = new(big.Int).Mod(l, zkpcp.C.Params().N)
 
 	return &ABCProof{
 		B,
-- 
2.43.0


From a4d5ae2fc13ba863f68bb3c39ea7ce015e19d42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:51 +0000
Subject: [PATCH 05/19] fix: reduce the range proof's scalars modulo the group
 order

The published S was three 256-bit factors long for a 0 bit and two for a 1
bit, so its length alone revealed every bit of the hidden value.
---
 rangeproof.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rangeproof.go b/rangeproof.go
index 4d7da9c..0a68ccf 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -139,12 +139,14 @@ func proofGenB(zkpcp ZKPCurveParams,
 		// s = k + (kValues[i] * e0) * inverse ei
 		data.kScalars[idx] = j.Add(
 			j, new(big.Int).Mul(data.kScalars[idx], new(big.Int).Mul(e0, inverseEI)))
+		data.kScalars[idx].Mod(data.kScalars[idx], zkpcp.C.Params().N)
 
 	} else { // bit is 1, don't do anything
 		// s is k + e0*v
 
 		data.kScalars[idx] = new(big.Int).Add(
 			data.kScalars[idx], new(big.Int).Mul(e0, data.vScalars[idx]))
+		data.kScalars[idx].Mod(data.kScalars[idx], zkpcp.C.Params().N)
 	}
 
 	return nil
-- 
2.43.0


From fb1dd00ac5594871dc0375c45e3bba05fbc03ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:52 +0000
Subject: [PATCH 06/19] fix: the GSPFS challenge covers the base point

The documented challenge is HASH(G, A, T1), but the base was left out, so a
forger could pick the proof's Base after the challenge was fixed.
---
 gspfs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gspfs.go b/gspfs.go
index a0d27a3..3e93952 100644
--- a/gspfs.go
+++ b/gspfs.go
@@ -59,7 +59,7 @@ func NewGSPFSProofBase(zkpcp ZKPCurveParams, base, A ECPoint, x *big.Int) (*GSPF
 	uG := zkpcp.Mult(base, u)
 
 	// generate hashed string challenge
-	c := GenerateChallenge(zkpcp, A.Bytes(), uG.Bytes())
+	c := GenerateChallenge(zkpcp, base.Bytes(), A.Bytes(), uG.Bytes())
 
 	// v = u - c * x
 	v := new(big.Int).Sub(u, new(big.Int).Mul(c, modValue))
@@ -76,7 +76,7 @@ func (proof *GSPFSProof) Verify(zkpcp ZKPCurveParams, A ECPoint) (bool, error) {
 	}
 
 	// A = xG and RandCommit = uG
-	testC := GenerateChallenge(zkpcp, A.Bytes(), proof.RandCommit.Bytes())
+	testC := GenerateChallenge(zkpcp, proof.Base.Bytes(), A.Bytes(), proof.RandCommit.Bytes())
 
 	if testC.Cmp(proof.Challenge) != 0 {
 		return false, &errorProof{"GSPFSProof.Verify", "calculated challenge and proof's challenge do not agree!"}
-- 
2.43.0


From 5cccdf457c91d73a46b800817886f8ec1dce28ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:53 +0000
Subject: [PATCH 07/19] fix: ABCProof.Verify rejects a nil proof instead of
 panicking

---
 abc.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/abc.go b/abc.go
index c5fea04..61155b0 100644
--- a/abc.go
+++ b/abc.go
@@ -173,6 +173,10 @@ func NewABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk *big.Int, op
 // Verify checks if ABCProof aProof with appropriate commits CM and CMTok is correct
 func (aProof *ABCProof) Verify(zkpcp ZKPCurveParams, CM, CMTok ECPoint) (bool, error) {
 
+	if aProof == nil {
+		return false, &errorProof{"ABCProof.Verify", "passed proof is nil"}
+	}
+
 	// Notes in ABCProof talk about why the Disjunc takes in this specific input even though it looks non-intuitive
 	// Here it is important that you subtract exactly 1 G from the aProof.C because that only allows for you to prove c = 1!
 	_, status := aProof.disjuncAC.Verify(zkpcp, CM, CMTok, zkpcp.H, zkpcp.Sub(aProof.C, zkpcp.G))
-- 
2.43.0


From c1284cacb9c6db0d06d8a9401844042138e12a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:54 +0000
Subject: [PATCH 08/19] fix: NewABCProof refuses values and keys that have no
 inverse

A secret key or non-zero value that is a multiple of the group order made
ModInverse return nil and the prover panic (also through
NewInequalityProof with a = b modulo the group order).
---
 abc.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/abc.go b/abc.go
index 61155b0..ac6e9fb 100644
--- a/abc.go
+++ b/abc.go
@@ -62,6 +62,14 @@ func NewABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk *big.Int, op
 
 	// We cannot check that CM log is actually the value, but the verification should catch that
 
+	// both inverses taken below must exist
+	if new(big.Int).Mod(sk, zkpcp.C.Params().N).Sign() == 0 {
+		return nil, &errorProof{"ABCProof", "secret key is zero modulo the group order"}
+	}
+	if value.Sign() != 0 && new(big.Int).Mod(value, zkpcp.C.Params().N).Sign() == 0 {
+		return nil, &errorProof{"ABCProof", "value is zero modulo the group order"}
+	}
+
 	u1, err := rand.Int(rand.Reader, zkpcp.C.Params().N)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 8cc8d56fe23ba0faf9bb3c2685a482e8d5651b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:56 +0000
Subject: [PATCH 09/19] fix: NewRangeProof refuses 2^40, which its 40 bits
 cannot hold

The proof it produced was for 0 and never verified against the commitment.
---
 rangeproof.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rangeproof.go b/rangeproof.go
index 0a68ccf..33b6932 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -160,8 +160,8 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 	// If our value is in range, then sum of commitments would equal original commitment
 	// else, because of truncation, it will be deemed out of range not be equal
 
-	if value.Cmp(big.NewInt(1099511627776)) == 1 {
-		return nil, nil, fmt.Errorf("val %s too big, can only prove up to 1099511627776\n", value.String())
+	if value.Cmp(big.NewInt(1099511627776)) >= 0 {
+		return nil, nil, fmt.Errorf("val %s too big, can only prove values below 1099511627776\n", value.String())
 	}
 
 	proofSize := 40
-- 
2.43.0


From 0d25f9993ef2b2868c6c68a336c31c9b2a433b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:58 +0000
Subject: [PATCH 10/19] fix: NewRangeProof returns the errors of its per-bit
 goroutines

A failing randomness source was ignored and made the prover dereference the
missing scalar.
---
 rangeproof.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/rangeproof.go b/rangeproof.go
index 33b6932..c712579 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -44,15 +44,26 @@ type proverInternalData struct {
 	Bpoints  []ECPoint
 	kScalars []*big.Int
 	vScalars []*big.Int
+	errs     []error
+}
+
+// err returns the first error any of the per-bit steps reported
+func (s *proverInternalData) err() error {
+	for _, err := range s.errs {
+		if err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 // proofGenA takes in a waitgroup, index and bit
 // returns an Rpoint and Cpoint, and the k value bigint
 func proofGenA(zkpcp ZKPCurveParams,
-	wg *sync.WaitGroup, idx int, bit bool, s *proverInternalData) error {
+	wg *sync.WaitGroup, idx int, bit bool, s *proverInternalData) (err error) {
 
 	defer wg.Done()
-	var err error
+	defer func() { s.errs[idx] = err }()
 
 	//	R := s.Rpoints[idx]
 	//	B := s.Bpoints[idx]
@@ -103,9 +114,10 @@ func proofGenA(zkpcp ZKPCurveParams,
 
 // proofGenB takes waitgroup, index, bit, along with the data to operate on
 func proofGenB(zkpcp ZKPCurveParams,
-	wg *sync.WaitGroup, idx int, bit bool, e0 *big.Int, data *proverInternalData) error {
+	wg *sync.WaitGroup, idx int, bit bool, e0 *big.Int, data *proverInternalData) (err error) {
 
 	defer wg.Done()
+	defer func() { data.errs[idx] = err }()
 
 	if !bit {
 		// choose a random value from the integers mod prime
@@ -177,6 +189,7 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 	stuff.Rpoints = make([]ECPoint, proofSize)
 	stuff.Bpoints = make([]ECPoint, proofSize)
 	stuff.vScalars = make([]*big.Int, proofSize)
+	stuff.errs = make([]error, proofSize)
 
 	vTotal := big.NewInt(0)
 	proof.ProofTuples = make([]rangeProofTuple, proofSize)
@@ -185,10 +198,12 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 	var wg sync.WaitGroup
 	wg.Add(proofSize)
 	for i := 0; i < proofSize; i++ {
-		// TODO: Check errors
 		go proofGenA(zkpcp, &wg, i, value.Bit(i) == 1, stuff)
 	}
 	wg.Wait()
+	if err := stuff.err(); err != nil {
+		return nil, nil, err
+	}
 
 	// hash concat of all R values
 	rHash := sha256.New()
@@ -208,11 +223,13 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 	// go through all 64 part B
 	wg.Add(proofSize)
 	for i := 0; i < proofSize; i++ {
-		// TODO: Check errors
 		go proofGenB(zkpcp,
 			&wg, i, value.Bit(i) == 1, e0, stuff)
 	}
 	wg.Wait()
+	if err := stuff.err(); err != nil {
+		return nil, nil, err
+	}
 
 	for i := 0; i < proofSize; i++ {
 		//		add up to get vTotal scalar
-- 
2.43.0


From b0694add4e54230c92a1e237fbdd7b4014aebed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:59 +0000
Subject: [PATCH 11/19] fix: RangeProof.Verify reduces the recomputed challenge
 as the prover does

An honest proof whose hash is not below the group order was rejected.
---
 rangeproof.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rangeproof.go b/rangeproof.go
index c712579..4971b18 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -325,7 +325,10 @@ func (proof *RangeProof) Verify(zkpcp ZKPCurveParams, comm ECPoint) (bool, error
 	}
 	calculatedE0 := rHash.Sum(nil)
 
-	if proof.ProofE.Cmp(new(big.Int).SetBytes(calculatedE0[:])) != 0 {
+	e0 := new(big.Int).SetBytes(calculatedE0[:])
+	e0.Mod(e0, zkpcp.C.Params().N)
+
+	if proof.ProofE.Cmp(e0) != 0 {
 		return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("calculatedE0 does not match")}
 	}
 
-- 
2.43.0


From b12c615321a40e8f3fa28f2e78e35c9581855064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:01 +0000
Subject: [PATCH 12/19] fix: RangeProof.Verify rejects oversized and incomplete
 proofs before it starts goroutines

More entries than HPoints, or a missing ProofE or y coordinate, panicked in
a goroutine and took the process down; a missing entry found late left the
goroutines already started blocked on the result channel for ever.
---
 rangeproof.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/rangeproof.go b/rangeproof.go
index 4971b18..7fbe855 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -287,22 +287,30 @@ func (proof *RangeProof) Verify(zkpcp ZKPCurveParams, comm ECPoint) (bool, error
 
 	proofLength := len(proofs)
 
-	Rpoints := make([]ECPoint, len(proofs))
-
-	totalPoint := ECPoint{big.NewInt(0), big.NewInt(0)}
-
-	resultBox := make(chan verifyTuple, 10) // doubt we'll use even 1
-
+	if proofLength > len(zkpcp.HPoints) {
+		return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("proof has %d entries, at most %d are supported", proofLength, len(zkpcp.HPoints))}
+	}
+	if proof.ProofE == nil || proof.ProofAggregate.X == nil || proof.ProofAggregate.Y == nil {
+		return false, &errorProof{"RangeProof.Verify", "proof is incomplete"}
+	}
+	// check that proofs are non-nil
 	for i := 0; i < proofLength; i++ {
-		// check that proofs are non-nil
-		if proof.ProofTuples[i].C.X == nil {
+		if proof.ProofTuples[i].C.X == nil || proof.ProofTuples[i].C.Y == nil {
 			return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("entry %d has nil point", i)}
 		}
 		if proof.ProofTuples[i].S == nil {
 			return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("entry %d has nil scalar", i)}
 
 		}
+	}
+
+	Rpoints := make([]ECPoint, len(proofs))
+
+	totalPoint := ECPoint{big.NewInt(0), big.NewInt(0)}
+
+	resultBox := make(chan verifyTuple, 10) // doubt we'll use even 1
 
+	for i := 0; i < proofLength; i++ {
 		// give proof to the verify gorouting
 		go verifyGen(zkpcp, i, proof.ProofE, proof.ProofTuples[i], resultBox)
 	}
-- 
2.43.0


From 2910e5bcf7705c7164149e3dee4bccf6fbc8f910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:02 +0000
Subject: [PATCH 13/19] fix: enforce the length limits of serialized integers
 and byte strings

ReadVarBytes ignored maxAllowed, so a few bytes of input could request an
allocation of any size (and panic); ReadBigInt indexed an empty string, and
its limit left no room for the sign byte WriteBigInt emits.
---
 crypto.go      | 6 +++++-
 wire/common.go | 8 ++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/crypto.go b/crypto.go
index a06b3e7..a594e43 100644
--- a/crypto.go
+++ b/crypto.go
@@ -187,10 +187,14 @@ func WriteBigInt(w io.Writer, b *big.Int) error {
 
 // ReadBigInt reads a big.Int from io.Reader r
 func ReadBigInt(r io.Reader) (*big.Int, error) {
-	bBytes, err := wire.ReadVarBytes(r, 32, "")
+	// one sign byte and at most 32 bytes of magnitude
+	bBytes, err := wire.ReadVarBytes(r, 33, "bigint")
 	if err != nil {
 		return nil, err
 	}
+	if len(bBytes) == 0 {
+		return nil, fmt.Errorf("bigint has no sign byte")
+	}
 	newInt := big.NewInt(0).SetBytes(bBytes[1:])
 	if bBytes[0] == 0x01 {
 		newInt.Neg(newInt)
diff --git a/wire/common.go b/wire/common.go
index 94db5cb..473615e 100644
--- a/wire/common.go
+++ b/wire/common.go
@@ -294,6 +294,14 @@ func ReadVarBytes(r io.Reader, maxAllowed uint32,
 		return nil, err
 	}
 
+	// Prevent byte array larger than the max message size.  It would
+	// be possible to cause memory exhaustion and panics without a sane
+	// upper bound on this count.
+	if count > uint64(maxAllowed) {
+		return nil, fmt.Errorf("%s is larger than the max allowed size "+
+			"[count %d, max %d]", fieldName, count, maxAllowed)
+	}
+
 	b := make([]byte, count)
 	_, err = io.ReadFull(r, b)
 	if err != nil {
-- 
2.43.0


From 9e9ba55f656158b4b3fef0c5cd78ee8ff6b27e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:03 +0000
Subject: [PATCH 14/19] fix: deserializers return the errors of malformed input

Five of the six proof deserializers dropped read errors and returned a proof
with nil or zero fields, on which Verify panics; the range proof's allocated
as many tuples as the input claimed to hold.
---
 consistency.go | 26 +++++++++++++++++++++-----
 disjunctive.go | 36 +++++++++++++++++++++++++++++-------
 equivalence.go | 21 +++++++++++++++++----
 gspfs.go       | 21 +++++++++++++++++----
 rangeproof.go  | 32 +++++++++++++++++++++++++-------
 5 files changed, 109 insertions(+), 27 deletions(-)

diff --git a/consistency.go b/consistency.go
index f7a5b08..b751fac 100644
--- a/consistency.go
+++ b/consistency.go
@@ -150,10 +150,26 @@ func (proof *ConsistencyProof) Bytes() []byte {
 func NewConsistencyProofFromBytes(b []byte) (*ConsistencyProof, error) {
 	proof := new(ConsistencyProof)
 	buf := bytes.NewBuffer(b)
-	proof.T1, _ = ReadECPoint(buf)
-	proof.T2, _ = ReadECPoint(buf)
-	proof.Challenge, _ = ReadBigInt(buf)
-	proof.S1, _ = ReadBigInt(buf)
-	proof.S2, _ = ReadBigInt(buf)
+	var err error
+	proof.T1, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.T2, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.Challenge, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.S1, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.S2, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/disjunctive.go b/disjunctive.go
index c695f77..3a889d2 100644
--- a/disjunctive.go
+++ b/disjunctive.go
@@ -224,12 +224,34 @@ func (djProof *DisjunctiveProof) Bytes() []byte {
 func NewDisjunctiveProofFromBytes(b []byte) (*DisjunctiveProof, error) {
 	proof := new(DisjunctiveProof)
 	buf := bytes.NewBuffer(b)
-	proof.T1, _ = ReadECPoint(buf)
-	proof.T2, _ = ReadECPoint(buf)
-	proof.C, _ = ReadBigInt(buf)
-	proof.C1, _ = ReadBigInt(buf)
-	proof.C2, _ = ReadBigInt(buf)
-	proof.S1, _ = ReadBigInt(buf)
-	proof.S2, _ = ReadBigInt(buf)
+	var err error
+	proof.T1, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.T2, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.C, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.C1, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.C2, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.S1, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.S2, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/equivalence.go b/equivalence.go
index d56fdef..a488a70 100644
--- a/equivalence.go
+++ b/equivalence.go
@@ -138,9 +138,22 @@ func (proof *EquivalenceProof) Bytes() []byte {
 func NewEquivalenceProofFromBytes(b []byte) (*EquivalenceProof, error) {
 	proof := new(EquivalenceProof)
 	buf := bytes.NewBuffer(b)
-	proof.UG, _ = ReadECPoint(buf)
-	proof.UH, _ = ReadECPoint(buf)
-	proof.Challenge, _ = ReadBigInt(buf)
-	proof.HiddenValue, _ = ReadBigInt(buf)
+	var err error
+	proof.UG, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.UH, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.Challenge, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.HiddenValue, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/gspfs.go b/gspfs.go
index 3e93952..dd7cf94 100644
--- a/gspfs.go
+++ b/gspfs.go
@@ -114,9 +114,22 @@ func (proof *GSPFSProof) Bytes() []byte {
 func NewGSPFSProofFromBytes(b []byte) (*GSPFSProof, error) {
 	proof := new(GSPFSProof)
 	buf := bytes.NewBuffer(b)
-	proof.Base, _ = ReadECPoint(buf)
-	proof.RandCommit, _ = ReadECPoint(buf)
-	proof.HiddenValue, _ = ReadBigInt(buf)
-	proof.Challenge, _ = ReadBigInt(buf)
+	var err error
+	proof.Base, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.RandCommit, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.HiddenValue, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.Challenge, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/rangeproof.go b/rangeproof.go
index 7fbe855..ecb50d2 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -372,14 +372,32 @@ func NewRangeProofFromBytes(b []byte) (*RangeProof, error) {
 	proof := new(RangeProof)
 	buf := bytes.NewBuffer(b)
 
-	proof.ProofAggregate, _ = ReadECPoint(buf)
-	proof.ProofE, _ = ReadBigInt(buf)
-	numTuples, _ := wire.ReadVarInt(buf)
-	proof.ProofTuples = make([]rangeProofTuple, numTuples)
+	var err error
+	proof.ProofAggregate, err = ReadECPoint(buf)
+	if err != nil {
+		return nil, err
+	}
+	proof.ProofE, err = ReadBigInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	numTuples, err := wire.ReadVarInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	// grow as tuples are read: the count is not to be trusted with an allocation
+	proof.ProofTuples = make([]rangeProofTuple, 0)
 	for i := uint64(0); i < numTuples; i++ {
-		proof.ProofTuples[i] = rangeProofTuple{}
-		proof.ProofTuples[i].C, _ = ReadECPoint(buf)
-		proof.ProofTuples[i].S, _ = ReadBigInt(buf)
+		var t rangeProofTuple
+		t.C, err = ReadECPoint(buf)
+		if err != nil {
+			return nil, err
+		}
+		t.S, err = ReadBigInt(buf)
+		if err != nil {
+			return nil, err
+		}
+		proof.ProofTuples = append(proof.ProofTuples, t)
 	}
 
 	return proof, nil
-- 
2.43.0


From da1d85d98e8c38edbd765f224bfb2723a4d9941a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:04 +0000
Subject: [PATCH 15/19] fix: hash points at fixed width

Coordinates were hashed without their leading zero bytes and without lengths,
so different statements could have the same challenge input.
---
 crypto.go     | 13 ++++++++++++-
 rangeproof.go | 12 +++++-------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/crypto.go b/crypto.go
index a594e43..e3e2e84 100644
--- a/crypto.go
+++ b/crypto.go
@@ -148,8 +148,19 @@ func (zkpcp ZKPCurveParams) Neg(p ECPoint) ECPoint {
 	return ECPoint{p.X, modValue}
 }
 
+// Bytes returns the coordinates of p, each as 32 big-endian bytes, so that the
+// concatenation of several points can be read in one way only.
 func (p ECPoint) Bytes() []byte {
-	return append(p.X.Bytes(), p.Y.Bytes()...)
+	return append(padTo32(p.X.Bytes()), padTo32(p.Y.Bytes())...)
+}
+
+func padTo32(b []byte) []byte {
+	if len(b) >= 32 {
+		return b
+	}
+	padded := make([]byte, 32)
+	copy(padded[32-len(b):], b)
+	return padded
 }
 
 // WriteECPoint write an ECPoint to io.Writer w
diff --git a/rangeproof.go b/rangeproof.go
index ecb50d2..c433050 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -101,7 +101,7 @@ func proofGenA(zkpcp ZKPCurveParams,
 		temp := zkpcp.Mult(zkpcp.H, s.kScalars[idx])
 
 		// Hash of temp point (why the whole thing..?
-		hash := sha256.Sum256(append(temp.X.Bytes(), temp.Y.Bytes()...))
+		hash := sha256.Sum256(temp.Bytes())
 		ei := new(big.Int).SetBytes(hash[:])
 		ei.Mod(ei, zkpcp.C.Params().N)
 		s.Rpoints[idx].X, s.Rpoints[idx].Y =
@@ -137,7 +137,7 @@ func proofGenB(zkpcp ZKPCurveParams,
 
 		totX, totY := zkpcp.C.Add(lhs.X, lhs.Y, rhsX, rhsY)
 
-		hash := sha256.Sum256(append(totX.Bytes(), totY.Bytes()...))
+		hash := sha256.Sum256(ECPoint{totX, totY}.Bytes())
 		ei := new(big.Int).SetBytes(hash[:]) // get ei
 		ei.Mod(ei, zkpcp.C.Params().N)
 
@@ -208,8 +208,7 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 	// hash concat of all R values
 	rHash := sha256.New()
 	for _, rvalue := range stuff.Rpoints {
-		rHash.Write(rvalue.X.Bytes())
-		rHash.Write(rvalue.Y.Bytes())
+		rHash.Write(rvalue.Bytes())
 	}
 	hashed := rHash.Sum(nil)
 
@@ -267,7 +266,7 @@ func verifyGen(zkpcp ZKPCurveParams,
 	//s_i * G - e_0 * (C_i - 2^i * H)
 	tot := zkpcp.Add(lhs, rhsXYNeg)
 
-	hash := sha256.Sum256(append(tot.X.Bytes(), tot.Y.Bytes()...))
+	hash := sha256.Sum256(tot.Bytes())
 
 	e1 := new(big.Int).SetBytes(hash[:])
 
@@ -328,8 +327,7 @@ func (proof *RangeProof) Verify(zkpcp ZKPCurveParams, comm ECPoint) (bool, error
 
 	rHash := sha256.New()
 	for _, rpoint := range Rpoints {
-		rHash.Write(rpoint.X.Bytes())
-		rHash.Write(rpoint.Y.Bytes())
+		rHash.Write(rpoint.Bytes())
 	}
 	calculatedE0 := rHash.Sum(nil)
 
-- 
2.43.0


From 2627965b30cbd444096ab51625b9dc583bfe28d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:22 +0000
Subject: [PATCH 16/19] fix: signature parsing bounds the declared length from
 both sides

siglen+2 wrapped around for 254 and 255, and lengths below the minimum were
taken at their word: both indexed past the trimmed slice and panicked.
---
 btcec/signature.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/btcec/signature.go b/btcec/signature.go
index 6026c42..1493c38 100644
--- a/btcec/signature.go
+++ b/btcec/signature.go
@@ -110,9 +110,9 @@ func parseSig(sigStr []byte, curve elliptic.Curve, der bool) (*Signature, error)
 	}
 	index++
 	// length of remaining message
-	siglen := sigStr[index]
+	siglen := int(sigStr[index])
 	index++
-	if int(siglen+2) > len(sigStr) {
+	if siglen+2 > len(sigStr) || siglen+2 < 8 {
 		return nil, errors.New("malformed signature: bad length")
 	}
 	// trim the slice we're working on so we only look at what matters.
-- 
2.43.0


From 50369926c6ffe5b91e81d7e84710bf3a6e435699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:24 +0000
Subject: [PATCH 17/19] fix: decompressPoint rejects x coordinates that are not
 on the curve

RecoverCompact trusts the returned y and computed a public key from a point
that is not on the curve.
---
 btcec/pubkey.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/btcec/pubkey.go b/btcec/pubkey.go
index b749177..1984ce8 100644
--- a/btcec/pubkey.go
+++ b/btcec/pubkey.go
@@ -39,6 +39,13 @@ func decompressPoint(curve *KoblitzCurve, x *big.Int, ybit bool) (*big.Int, erro
 	// https://bitcointalk.org/index.php?topic=162805.msg1712294#msg1712294
 	y := new(big.Int).Exp(x3, curve.QPlus1Div4(), curve.Params().P)
 
+	// there is a root only if squaring gives x^3 + B back
+	y2 := new(big.Int).Mul(y, y)
+	y2.Sub(y2, x3)
+	if y2.Mod(y2, curve.Params().P).Sign() != 0 {
+		return nil, fmt.Errorf("x is not the coordinate of a curve point")
+	}
+
 	if ybit != isOdd(y) {
 		y.Sub(curve.Params().P, y)
 	}
-- 
2.43.0


From aa3bf12a5d18ff4e4d33fc134669fcd338448476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:25 +0000
Subject: [PATCH 18/19] fix: key recovery rejects R = N and keys at infinity

R equal to the curve order has no inverse and made RecoverCompact panic; a
signature made for the purpose recovered the point at infinity as a key.
---
 btcec/signature.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/btcec/signature.go b/btcec/signature.go
index 1493c38..e115daf 100644
--- a/btcec/signature.go
+++ b/btcec/signature.go
@@ -311,6 +311,9 @@ func recoverKeyFromSignature(curve *KoblitzCurve, sig *Signature, msg []byte,
 	// inverse of r (from the signature). We then add them to calculate
 	// Q = r^-1(sR-eG)
 	invr := new(big.Int).ModInverse(sig.R, curve.Params().N)
+	if invr == nil {
+		return nil, errors.New("signature R is zero modulo the curve order")
+	}
 
 	// first term.
 	invrS := new(big.Int).Mul(invr, sig.S)
@@ -327,6 +330,9 @@ func recoverKeyFromSignature(curve *KoblitzCurve, sig *Signature, msg []byte,
 	// TODO: this would be faster if we did a mult and add in one
 	// step to prevent the jacobian conversion back and forth.
 	Qx, Qy := curve.Add(sRx, sRy, minuseGx, minuseGy)
+	if Qx.Sign() == 0 && Qy.Sign() == 0 {
+		return nil, errors.New("recovered key is the point at infinity")
+	}
 
 	return &PublicKey{
 		Curve: curve,
-- 
2.43.0


From 8d912b7f769c213e356941ba6051e4c7d0301592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:27 +0000
Subject: [PATCH 19/19] fix: Encrypt does not write its padding behind the
 caller's plaintext

append used the spare capacity of the slice passed in and overwrote the bytes
that followed it.
---
 btcec/ciphering.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/btcec/ciphering.go b/btcec/ciphering.go
index b18c9b7..0f9bfd1 100644
--- a/btcec/ciphering.go
+++ b/btcec/ciphering.go
@@ -201,7 +201,9 @@ func Decrypt(priv *PrivateKey, in []byte) ([]byte, error) {
 func addPKCSPadding(src []byte) []byte {
 	padding := aes.BlockSize - len(src)%aes.BlockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(src, padtext...)
+	padded := make([]byte, 0, len(src)+padding)
+	padded = append(padded, src...)
+	return append(padded, padtext...)
 }
 
 // removePKCSPadding removes padding from data that was added with addPKCSPadding
-- 
2.43.0

