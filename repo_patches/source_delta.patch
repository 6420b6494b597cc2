From 3a6fd794d5bc00c205c564dab658e10690ea3567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:27 +0000
Subject: [PATCH 01/33] fix: blsag.Sign puts the mixin keys in the ring and
 randomises every decoy response

---
 ringsig/blsag/blsag.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ringsig/blsag/blsag.go b/ringsig/blsag/blsag.go
index 7a639bb..517f98e 100644
--- a/ringsig/blsag/blsag.go
+++ b/ringsig/blsag/blsag.go
@@ -42,7 +42,7 @@ func Sign(m []byte, mixin []ristretto.Point, sK ristretto.Scalar) RingSignature
 
 	// generate s_i where i =/= j and s_i E Zq
 	sVals := make([]ristretto.Scalar, len(mixin)+1)
-	for i := 1; i < len(sVals); i++ {
+	for i := range sVals {
 		var s ristretto.Scalar
 		s.Rand()
 		sVals[i] = s
@@ -68,6 +68,8 @@ func Sign(m []byte, mixin []ristretto.Point, sK ristretto.Scalar) RingSignature
 	cVals[jPlus1] = cPlus1
 
 	pubKeys := make([]ristretto.Point, len(mixin)+1)
+	copy(pubKeys[:j], mixin[:j])
+	copy(pubKeys[j+1:], mixin[j:])
 	pubKeys[j] = pK // add signer
 
 	for i := j + 1; ; i++ {
-- 
2.43.0


From b91bd148b3fab5a0a7be8dac27f81f3aeb35ccb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:30 +0000
Subject: [PATCH 02/33] fix: draw the signer's position in a ring from a
 cryptographic source instead of the clock

---
 mlsag/proof.go         | 12 ++++++++----
 ringsig/blsag/blsag.go | 16 ++++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/mlsag/proof.go b/mlsag/proof.go
index 71a130f..06d6d0a 100644
--- a/mlsag/proof.go
+++ b/mlsag/proof.go
@@ -1,9 +1,9 @@
 package mlsag
 
 import (
+	"crypto/rand"
 	"errors"
-	"math/rand"
-	"time"
+	"math/big"
 
 	ristretto "github.com/bwesterb/go-ristretto"
 )
@@ -69,9 +69,13 @@ func privKeyToPubKey(privkey ristretto.Scalar) ristretto.Point {
 
 // shuffle all pubkeys and sets the index
 func (p *Proof) shuffleSet() error {
-	r := rand.New(rand.NewSource(time.Now().Unix()))
 	for i := len(p.pubKeysMatrix) - 1; i > 0; i-- {
-		j := r.Intn(i + 1)
+		// the order must not be predictable, as it would reveal the signer
+		r, err := rand.Int(rand.Reader, big.NewInt(int64(i+1)))
+		if err != nil {
+			return err
+		}
+		j := int(r.Int64())
 		p.pubKeysMatrix[i], p.pubKeysMatrix[j] = p.pubKeysMatrix[j], p.pubKeysMatrix[i]
 	}
 	// XXX: Optimise away the below for loop by storing the index when appended
diff --git a/ringsig/blsag/blsag.go b/ringsig/blsag/blsag.go
index 517f98e..a58f584 100644
--- a/ringsig/blsag/blsag.go
+++ b/ringsig/blsag/blsag.go
@@ -2,8 +2,8 @@ package blsag
 
 import (
 	"bytes"
-	"math/rand"
-	"time"
+	"crypto/rand"
+	"math/big"
 
 	ristretto "github.com/bwesterb/go-ristretto"
 )
@@ -25,8 +25,7 @@ func Sign(m []byte, mixin []ristretto.Point, sK ristretto.Scalar) RingSignature
 	pK.ScalarMultBase(&sK)
 
 	// secret j index
-	rand.Seed(time.Now().UnixNano())
-	j := rand.Intn(len(mixin) + 1)
+	j := randomIndex(len(mixin) + 1)
 
 	// Hp(pK)
 	var hPK ristretto.Point
@@ -101,6 +100,15 @@ func Sign(m []byte, mixin []ristretto.Point, sK ristretto.Scalar) RingSignature
 	return ringsig
 }
 
+// randomIndex returns an index in [0, n) which cannot be predicted by an observer
+func randomIndex(n int) int {
+	i, err := rand.Int(rand.Reader, big.NewInt(int64(n)))
+	if err != nil {
+		panic(err)
+	}
+	return int(i.Int64())
+}
+
 // Verify takes a message and a ringsig
 // returns true if the message was signed by a member of the ring
 func Verify(m []byte, ringsig RingSignature) bool {
-- 
2.43.0


From 3651bd25203fbde5ff00c01460100dd82f5d133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:16 +0000
Subject: [PATCH 03/33] fix: mlsag proves and verifies a ring with a single
 member instead of panicking

---
 mlsag/mlsag.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 0f857e7..5e0b536 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -211,7 +211,7 @@ func (proof *Proof) prove(skipLastKeyImage bool) (*Signature, []ristretto.Point,
 	var prevChallenge ristretto.Scalar
 	prevChallenge.Set(&CjPlusOne)
 
-	for k := secretIndex + 2; k != (secretIndex+1)%numUsers; k = (k + 1) % numUsers {
+	for k := (secretIndex + 2) % numUsers; k != (secretIndex+1)%numUsers; k = (k + 1) % numUsers {
 		i := k % numUsers
 
 		prevIndex := (i - 1) % numUsers
@@ -269,7 +269,7 @@ func (sig *Signature) Verify(keyImages []ristretto.Point) (bool, error) {
 
 	var prevChallenge = sig.c
 
-	for k := index + 1; k != (index)%numUsers; k = (k + 1) % numUsers {
+	for k := (index + 1) % numUsers; k != (index)%numUsers; k = (k + 1) % numUsers {
 		i := k % numUsers
 		prevIndex := (i - 1) % numUsers
 		if prevIndex < 0 {
-- 
2.43.0


From a58ed6376d09790d087954dc541ad1e1840db3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:18 +0000
Subject: [PATCH 04/33] fix: ring signature verification rejects malformed
 signatures instead of panicking or ignoring the excess

---
 mlsag/mlsag.go         | 34 ++++++++++++++++++++++++++++++++++
 ringsig/blsag/blsag.go | 21 +++++++++++++++++++++
 2 files changed, 55 insertions(+)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 5e0b536..332904b 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -265,6 +265,31 @@ func (sig *Signature) Verify(keyImages []ristretto.Point) (bool, error) {
 	}
 
 	numUsers := len(sig.r)
+	if len(sig.PubKeys) != numUsers {
+		return false, errors.New("number of responses and pubkey vectors do not match")
+	}
+
+	numKeys := sig.PubKeys[0].Len()
+	if len(keyImages) > numKeys {
+		return false, errors.New("cannot have more key images than keys per member")
+	}
+
+	for i := range sig.PubKeys {
+		if sig.PubKeys[i].Len() != numKeys || sig.r[i].Len() != numKeys {
+			return false, errors.New("all vectors of pubkeys and responses must be the same size")
+		}
+		for j := range sig.PubKeys[i].keys {
+			if !isDefined(&sig.PubKeys[i].keys[j]) {
+				return false, errors.New("pubkey is not a valid point")
+			}
+		}
+	}
+	for i := range keyImages {
+		if !isDefined(&keyImages[i]) {
+			return false, errors.New("key image is not a valid point")
+		}
+	}
+
 	index := 0
 
 	var prevChallenge = sig.c
@@ -305,6 +330,15 @@ func (sig *Signature) Verify(keyImages []ristretto.Point) (bool, error) {
 	return true, nil
 }
 
+// isDefined returns false for the zero value of ristretto.Point, which is not a
+// group element: it absorbs every addition and equals every other point
+func isDefined(p *ristretto.Point) bool {
+	var zero, base ristretto.Point
+	zero.SetZero()
+	base.SetBase()
+	return !p.Equals(&zero) || !p.Equals(&base)
+}
+
 func generateNonces(n int) []ristretto.Scalar {
 	var nonces []ristretto.Scalar
 	for i := 0; i < n; i++ {
diff --git a/ringsig/blsag/blsag.go b/ringsig/blsag/blsag.go
index a58f584..e38b596 100644
--- a/ringsig/blsag/blsag.go
+++ b/ringsig/blsag/blsag.go
@@ -118,6 +118,18 @@ func Verify(m []byte, ringsig RingSignature) bool {
 	// For all i, c_i+1 = H(m, L_i, R_i)
 
 	numPubKeys := len(ringsig.PubKeys)
+	if numPubKeys == 0 || len(ringsig.S) != numPubKeys {
+		return false
+	}
+
+	if !isDefined(&ringsig.I) {
+		return false
+	}
+	for i := range ringsig.PubKeys {
+		if !isDefined(&ringsig.PubKeys[i]) {
+			return false
+		}
+	}
 
 	currC := ringsig.C // this is first c value c[0]
 
@@ -171,6 +183,15 @@ func Verify(m []byte, ringsig RingSignature) bool {
 	return true
 }
 
+// isDefined returns false for the zero value of ristretto.Point, which is not a
+// group element: it absorbs every addition and equals every other point
+func isDefined(p *ristretto.Point) bool {
+	var zero, base ristretto.Point
+	zero.SetZero()
+	base.SetBase()
+	return !p.Equals(&zero) || !p.Equals(&base)
+}
+
 // returns C, L, R
 func computeCLR(message []byte, I ristretto.Point, pubKey ristretto.Point, s ristretto.Scalar, c ristretto.Scalar) (ristretto.Scalar, ristretto.Point, ristretto.Point) {
 	var L1, L2, L, R1, R2, R, tmpPubKey, HTmpPubKey ristretto.Point
-- 
2.43.0


From b7940488a1a4739b0c4962709144d28b0e2e9a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:34 +0000
Subject: [PATCH 05/33] fix: pedersen.DecodeCommitments only allocates memory
 for the commitments it reads

---
 rangeproof/pedersen/pedersen.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index 75c6c3f..88d8119 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -93,13 +93,16 @@ func DecodeCommitments(r io.Reader) ([]Commitment, error) {
 		return nil, err
 	}
 
-	comms := make([]Commitment, lenV)
+	// N.B. lenV is not trusted, so memory is only allocated for what is actually read
+	comms := []Commitment{}
 
 	for i := uint32(0); i < lenV; i++ {
-		err := comms[i].Decode(r)
+		var comm Commitment
+		err := comm.Decode(r)
 		if err != nil {
 			return nil, err
 		}
+		comms = append(comms, comm)
 	}
 
 	return comms, nil
-- 
2.43.0


From 77ff378492de8ec0f93944c04054f2700ed27db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:35 +0000
Subject: [PATCH 06/33] fix: mlsag decoding only allocates for what it reads,
 and signature equality compares the number of responses

---
 mlsag/mlsag.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 332904b..adb76d1 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -86,12 +86,18 @@ func (s *Signature) Decode(r io.Reader, decodeKeys bool) error {
 	}
 
 	// Decode the responses
-	s.r = make([]Responses, lenR)
+	// N.B. lenR is not trusted, so memory is only allocated for what is actually read
+	if lenR > 0 && numResponses == 0 {
+		return errors.New("signature has no responses")
+	}
+	s.r = nil
 	for i := uint32(0); i < lenR; i++ {
-		err = s.r[i].Decode(r, numResponses)
+		var responses Responses
+		err = responses.Decode(r, numResponses)
 		if err != nil {
 			return err
 		}
+		s.r = append(s.r, responses)
 	}
 
 	if !decodeKeys {
@@ -99,12 +105,14 @@ func (s *Signature) Decode(r io.Reader, decodeKeys bool) error {
 	}
 
 	// Decode pubkeys
-	s.PubKeys = make([]PubKeys, lenR)
+	s.PubKeys = nil
 	for i := uint32(0); i < lenR; i++ {
-		err = s.PubKeys[i].Decode(r, numResponses)
+		var pubKeys PubKeys
+		err = pubKeys.Decode(r, numResponses)
 		if err != nil {
 			return err
 		}
+		s.PubKeys = append(s.PubKeys, pubKeys)
 	}
 	return nil
 }
@@ -115,6 +123,10 @@ func (s Signature) Equals(other Signature, includeKeys bool) bool {
 		return ok
 	}
 
+	if len(s.r) != len(other.r) {
+		return false
+	}
+
 	for i := range s.r {
 		ok = s.r[i].Equals(other.r[i])
 		if !ok {
-- 
2.43.0


From 98f6db6645749ae828e2d13ee5fb7632e08f05e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:18 +0000
Subject: [PATCH 07/33] fix: mlsag signatures and callers' keys do not share
 memory with the proof, which can be used again

---
 mlsag/dualkey.go |  4 ++++
 mlsag/mlsag.go   |  9 +++++++--
 mlsag/proof.go   | 16 +++++++++++++---
 mlsag/pubkeys.go |  8 ++++++++
 4 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/mlsag/dualkey.go b/mlsag/dualkey.go
index 5876479..1a561c0 100644
--- a/mlsag/dualkey.go
+++ b/mlsag/dualkey.go
@@ -49,6 +49,10 @@ func (d *DualKey) Prove() (*Signature, ristretto.Point, error) {
 		return nil, ristretto.Point{}, errors.New("primary key or commitment to zero cannot be zero")
 	}
 
+	// Forget the secrets which were added by a previous proof
+	d.privKeys = nil
+	d.signerPubKeys = PubKeys{}
+
 	d.AddSecret(d.dualkeys[0])
 	d.AddSecret(d.dualkeys[1])
 
diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index adb76d1..321fd0d 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -263,8 +263,13 @@ func (proof *Proof) prove(skipLastKeyImage bool) (*Signature, []ristretto.Point,
 	sig := &Signature{
 		c:       challenges[0],
 		r:       responses,
-		PubKeys: proof.pubKeysMatrix,
-		Msg:     proof.msg,
+		PubKeys: make([]PubKeys, numUsers),
+		Msg:     append([]byte{}, proof.msg...),
+	}
+
+	// The signature must not change when the proof is used again
+	for i := range proof.pubKeysMatrix {
+		sig.PubKeys[i] = proof.pubKeysMatrix[i].clone()
 	}
 
 	return sig, keyImages, nil
diff --git a/mlsag/proof.go b/mlsag/proof.go
index 06d6d0a..f6909d6 100644
--- a/mlsag/proof.go
+++ b/mlsag/proof.go
@@ -34,8 +34,10 @@ func (p *Proof) addPubKeys(keys PubKeys) {
 }
 
 func (p *Proof) AddDecoy(keys PubKeys) {
-	keys.decoy = true
-	p.addPubKeys(keys)
+	// The proof modifies its decoys, so it keeps a copy of the caller's keys
+	decoy := keys.clone()
+	decoy.decoy = true
+	p.addPubKeys(decoy)
 }
 
 func (p *Proof) AddDecoys(keys []PubKeys) {
@@ -45,9 +47,17 @@ func (p *Proof) AddDecoys(keys []PubKeys) {
 }
 
 func (proof *Proof) addSignerPubKey() {
+	// Remove the signers pubkey which was added by a previous proof
+	for i := range proof.pubKeysMatrix {
+		if !proof.pubKeysMatrix[i].decoy {
+			proof.pubKeysMatrix = append(proof.pubKeysMatrix[:i], proof.pubKeysMatrix[i+1:]...)
+			break
+		}
+	}
+
 	// Add signers pubkey to matrix
 	proof.signerPubKeys.decoy = false
-	proof.addPubKeys(proof.signerPubKeys)
+	proof.addPubKeys(proof.signerPubKeys.clone())
 }
 
 func (p *Proof) AddSecret(privKey ristretto.Scalar) {
diff --git a/mlsag/pubkeys.go b/mlsag/pubkeys.go
index ebc2cd6..c7324f0 100644
--- a/mlsag/pubkeys.go
+++ b/mlsag/pubkeys.go
@@ -70,6 +70,14 @@ func (p *PubKeys) Len() int {
 	return len(p.keys)
 }
 
+// clone returns a copy of the vector which does not share memory with it
+func (p PubKeys) clone() PubKeys {
+	return PubKeys{
+		decoy: p.decoy,
+		keys:  append([]ristretto.Point{}, p.keys...),
+	}
+}
+
 func (p *PubKeys) OutputKey() ristretto.Point {
 	return p.keys[0]
 }
-- 
2.43.0


From 5a351b0b71c493bfef3aca7a2eec01cee35212a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:19 +0000
Subject: [PATCH 08/33] fix: mlsag decoding rejects encodings which are not
 canonical

---
 mlsag/mlsag.go     | 5 ++++-
 mlsag/pubkeys.go   | 7 +------
 mlsag/responses.go | 4 +---
 3 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 321fd0d..f29b9c7 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -485,7 +485,7 @@ func readerToPoint(r io.Reader, p *ristretto.Point) error {
 		return err
 	}
 	ok := p.SetBytes(&x)
-	if !ok {
+	if !ok || !bytes.Equal(p.Bytes(), x[:]) {
 		return errors.New("point not encodable")
 	}
 	return nil
@@ -497,5 +497,8 @@ func readerToScalar(r io.Reader, s *ristretto.Scalar) error {
 		return err
 	}
 	s.SetBytes(&x)
+	if !bytes.Equal(s.Bytes(), x[:]) {
+		return errors.New("scalar is not reduced")
+	}
 	return nil
 }
diff --git a/mlsag/pubkeys.go b/mlsag/pubkeys.go
index c7324f0..18c3d80 100644
--- a/mlsag/pubkeys.go
+++ b/mlsag/pubkeys.go
@@ -47,17 +47,12 @@ func (p *PubKeys) Decode(r io.Reader, numKeys uint32) error {
 		return errors.New("struct is nil")
 	}
 
-	var xBytes [32]byte
 	var x ristretto.Point
 	for i := uint32(0); i < numKeys; i++ {
-		err := binary.Read(r, binary.BigEndian, &xBytes)
+		err := readerToPoint(r, &x)
 		if err != nil {
 			return err
 		}
-		ok := x.SetBytes(&xBytes)
-		if !ok {
-			return errors.New("point not encodable")
-		}
 		p.AddPubKey(x)
 	}
 	return nil
diff --git a/mlsag/responses.go b/mlsag/responses.go
index df8f892..2b3ffaa 100644
--- a/mlsag/responses.go
+++ b/mlsag/responses.go
@@ -48,14 +48,12 @@ func (res *Responses) Decode(r io.Reader, numResponses uint32) error {
 		return errors.New("struct is nil")
 	}
 
-	var xBytes [32]byte
 	var x ristretto.Scalar
 	for i := uint32(0); i < numResponses; i++ {
-		err := binary.Read(r, binary.BigEndian, &xBytes)
+		err := readerToScalar(r, &x)
 		if err != nil {
 			return err
 		}
-		x.SetBytes(&xBytes)
 		res.AddResponse(x)
 	}
 	return nil
-- 
2.43.0


From 0de40f1ac140f1e2c62ec3ff5124325a340e1269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:25 +0000
Subject: [PATCH 09/33] fix: the number of values in a rangeproof comes from
 the proof, not from the last call to Prove

---
 rangeproof/debug.go      | 10 ++++++++--
 rangeproof/poly.go       |  9 ++++++---
 rangeproof/rangeproof.go | 19 +++++++++++--------
 3 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/rangeproof/debug.go b/rangeproof/debug.go
index ecaaacc..03ad9f6 100644
--- a/rangeproof/debug.go
+++ b/rangeproof/debug.go
@@ -39,6 +39,8 @@ func debugProve(x, y, z ristretto.Scalar, v, l, r []ristretto.Scalar, aL, aR, sL
 
 func debugT0(aL, aR []ristretto.Scalar, y, z ristretto.Scalar) (ristretto.Scalar, error) {
 
+	M := len(aL) / N
+
 	aLMinusZ := vector.SubScalar(aL, z)
 
 	aRPlusZ := vector.AddScalar(aR, z)
@@ -50,7 +52,7 @@ func debugT0(aL, aR []ristretto.Scalar, y, z ristretto.Scalar) (ristretto.Scalar
 		return ristretto.Scalar{}, err
 	}
 
-	zMTwoN := sumZMTwoN(z)
+	zMTwoN := sumZMTwoN(z, M)
 
 	rightIP, err := vector.Add(zMTwoN, hada)
 	if err != nil {
@@ -68,6 +70,8 @@ func debugT0(aL, aR []ristretto.Scalar, y, z ristretto.Scalar) (ristretto.Scalar
 // <l(x), G> =  <aL, G> + x<sL, G> +<-z1, G>
 func debugLxG(l []ristretto.Scalar, x, z ristretto.Scalar, aL, aR, sL []ristretto.Scalar) (bool, error) {
 
+	M := len(l) / N
+
 	var P ristretto.Point
 	P.SetZero()
 
@@ -112,6 +116,8 @@ func debugLxG(l []ristretto.Scalar, x, z ristretto.Scalar, aL, aR, sL []ristrett
 // < r(x), H'> = <aR, H> + x<sR, H> + <z*y^(n*m), H'> + sum( (< <z^(j+1),2^n>, H') ) from j = 1 to j = m
 func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []ristretto.Scalar) (bool, error) {
 
+	M := len(r) / N
+
 	genData := []byte("dusk.BulletProof.vec1")
 
 	genData = append(genData, uint8(1))
@@ -156,7 +162,7 @@ func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []rist
 		return false, errors.Wrap(err, "<z*y^nm , H'>")
 	}
 	// k = sum( (< <z^(j+1) * 2^n>, H') ) from j = 1 to j = m
-	k, err := vector.Exp(sumZMTwoN(z), Hprime, N, M)
+	k, err := vector.Exp(sumZMTwoN(z, M), Hprime, N, M)
 	if err != nil {
 		return false, errors.Wrap(err, "k = sum()...")
 	}
diff --git a/rangeproof/poly.go b/rangeproof/poly.go
index eef6fe7..0255fc7 100644
--- a/rangeproof/poly.go
+++ b/rangeproof/poly.go
@@ -17,6 +17,9 @@ type polynomial struct {
 
 func computePoly(aL, aR, sL, sR []ristretto.Scalar, y, z ristretto.Scalar) (*polynomial, error) {
 
+	// M is the number of outputs for this bulletproof
+	M := len(aL) / N
+
 	// calculate l_0
 	l0 := vector.SubScalar(aL, z)
 
@@ -26,7 +29,7 @@ func computePoly(aL, aR, sL, sR []ristretto.Scalar, y, z ristretto.Scalar) (*pol
 	// calculate r_0
 	yNM := vector.ScalarPowers(y, uint32(N*M))
 
-	zMTwoN := sumZMTwoN(z)
+	zMTwoN := sumZMTwoN(z, M)
 
 	r0 := vector.AddScalar(aR, z)
 
@@ -155,8 +158,8 @@ func (p *polynomial) computeT0(y, z ristretto.Scalar, v []ristretto.Scalar, n, m
 // calculates sum( z^(1+j) * ( 0^(j-1)n || 2 ^n || 0^(m-j)n ) ) from j = 1 to j=M (71)
 // implementation taken directly from java implementation.
 // XXX: Look into ways to speed this up, and improve readability
-// XXX: pass n and m as parameters
-func sumZMTwoN(z ristretto.Scalar) []ristretto.Scalar {
+// XXX: pass n as parameter
+func sumZMTwoN(z ristretto.Scalar, M int) []ristretto.Scalar {
 
 	res := make([]ristretto.Scalar, N*M)
 
diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index 129dbeb..ae47225 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -19,10 +19,7 @@ import (
 // So amount will be between 0...2^(N-1)
 const N = 64
 
-// M is the number of outputs for one bulletproof
-var M = 1
-
-// M is the maximum number of values allowed per rangeproof
+// maxM is the maximum number of values allowed per rangeproof
 const maxM = 16
 
 // Proof is the constructed BulletProof
@@ -48,7 +45,8 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 		return Proof{}, errors.New("length of slice v is zero")
 	}
 
-	M = len(v)
+	// M is the number of outputs for this bulletproof
+	M := len(v)
 	if M > maxM {
 		return Proof{}, fmt.Errorf("maximum amount of values must be less than %d", maxM)
 	}
@@ -95,7 +93,7 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 	A := computeA(ped, aLs, aRs)
 
 	// // Compute S
-	S, sL, sR := computeS(ped)
+	S, sL, sR := computeS(ped, M)
 
 	// // update Fiat-Shamir
 	hs.Append(A.Value.Bytes(), S.Value.Bytes())
@@ -216,7 +214,7 @@ func computeA(ped *pedersen.Pedersen, aLs, aRs []ristretto.Scalar) pedersen.Comm
 }
 
 // S = kH + sL*G + sR * H
-func computeS(ped *pedersen.Pedersen) (pedersen.Commitment, []ristretto.Scalar, []ristretto.Scalar) {
+func computeS(ped *pedersen.Pedersen, M int) (pedersen.Commitment, []ristretto.Scalar, []ristretto.Scalar) {
 
 	sL, sR := make([]ristretto.Scalar, N*M), make([]ristretto.Scalar, N*M)
 	for i := 0; i < N*M; i++ {
@@ -322,6 +320,9 @@ func computeHprime(H []ristretto.Point, y ristretto.Scalar) []ristretto.Point {
 // Verify takes a bullet proof and returns true only if the proof was valid
 func Verify(p Proof) (bool, error) {
 
+	// M is the number of outputs for this bulletproof
+	M := len(p.V)
+
 	genData := []byte("dusk.BulletProof.vec1")
 	ped := pedersen.New(genData)
 	ped.BaseVector.Compute(uint32(N * M))
@@ -352,6 +353,8 @@ func Verify(p Proof) (bool, error) {
 
 func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristretto.Scalar, A, G, H, S, T1, T2 ristretto.Point, GVec, HVec []ristretto.Point, V []pedersen.Commitment) (bool, error) {
 
+	M := len(V)
+
 	var c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11 ristretto.Point
 
 	var c ristretto.Scalar
@@ -378,7 +381,7 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 
 	// h vector scalars : y Had (bsInv - zM2N) - z points : H
 	bs := vector.MulScalar(sInv, ipproof.B)
-	zAnd2 := sumZMTwoN(z)
+	zAnd2 := sumZMTwoN(z, M)
 	h, err := vector.Sub(bs, zAnd2)
 	if err != nil {
 		return false, errors.Wrap(err, "[h1]")
-- 
2.43.0


From 0a1e523b6b0c5a5404b758772b0b6334bb18201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:29 +0000
Subject: [PATCH 10/33] fix: rangeproof verification rejects proofs with points
 which are not group elements or with the wrong shape

---
 rangeproof/innerproduct/innerproduct.go | 10 +++++++---
 rangeproof/rangeproof.go                | 13 ++++++++++++-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/rangeproof/innerproduct/innerproduct.go b/rangeproof/innerproduct/innerproduct.go
index f9ef448..35a5dcb 100644
--- a/rangeproof/innerproduct/innerproduct.go
+++ b/rangeproof/innerproduct/innerproduct.go
@@ -440,7 +440,7 @@ func (proof *Proof) Decode(r io.Reader) error {
 		return err
 	}
 	numBytes := len(buf.Bytes())
-	if numBytes%32 != 0 {
+	if numBytes%64 != 0 {
 		return errors.New("proof was not formatted correctly")
 	}
 	lenL := uint32(numBytes / 64)
@@ -458,8 +458,12 @@ func (proof *Proof) Decode(r io.Reader) error {
 		if err != nil {
 			return err
 		}
-		proof.L[i].SetBytes(&LBytes)
-		proof.R[i].SetBytes(&RBytes)
+		if ok := proof.L[i].SetBytes(&LBytes); !ok {
+			return errors.New("point not encodable")
+		}
+		if ok := proof.R[i].SetBytes(&RBytes); !ok {
+			return errors.New("point not encodable")
+		}
 	}
 
 	return nil
diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index ae47225..bc6acf4 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"math/big"
+	"math/bits"
 
 	"github.com/pkg/errors"
 
@@ -322,6 +323,14 @@ func Verify(p Proof) (bool, error) {
 
 	// M is the number of outputs for this bulletproof
 	M := len(p.V)
+	if M < 1 || M > maxM || innerproduct.DiffNextPow2(uint32(M)) != 0 {
+		return false, fmt.Errorf("number of commitments must be a power of two, up to %d", maxM)
+	}
+
+	rounds := bits.TrailingZeros(uint(N * M))
+	if p.IPProof == nil || len(p.IPProof.L) != rounds || len(p.IPProof.R) != rounds {
+		return false, errors.New("size of the inner product proof does not match the number of commitments")
+	}
 
 	genData := []byte("dusk.BulletProof.vec1")
 	ped := pedersen.New(genData)
@@ -487,7 +496,9 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 	var zero ristretto.Point
 	zero.SetZero()
 
-	ok := zero.Equals(&sum)
+	// N.B. The zero value of ristretto.Point is not a group element: it absorbs
+	// every addition and equals every other point
+	ok := zero.Equals(&sum) && !G.Equals(&sum)
 	if !ok {
 		return false, errors.New("megacheck failed")
 	}
-- 
2.43.0


From e0f4d2f72318d4ed79bf443c5cb19258c9899b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:09 +0000
Subject: [PATCH 11/33] fix: inner product proofs of the wrong shape are
 rejected instead of panicking, and equality compares their size

---
 rangeproof/innerproduct/innerproduct.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/rangeproof/innerproduct/innerproduct.go b/rangeproof/innerproduct/innerproduct.go
index 35a5dcb..1b86af0 100644
--- a/rangeproof/innerproduct/innerproduct.go
+++ b/rangeproof/innerproduct/innerproduct.go
@@ -31,6 +31,10 @@ func Generate(GVec, HVec []ristretto.Point, aVec, bVec, HprimeFactors []ristrett
 		return nil, errors.New("[IPProof]: size of n (NM) is not a power of 2")
 	}
 
+	if len(HVec) != len(GVec) || len(aVec) != len(GVec) || len(bVec) != len(GVec) || len(HprimeFactors) != len(GVec) {
+		return nil, errors.New("[IPProof]: all vectors must be the same size")
+	}
+
 	a := make([]ristretto.Scalar, len(aVec))
 	copy(a, aVec)
 	b := make([]ristretto.Scalar, len(bVec))
@@ -337,6 +341,13 @@ func (proof *Proof) VerifScalars() ([]ristretto.Scalar, []ristretto.Scalar, []ri
 
 // Verify is used for unit tests and verifies that a given proof evaluates to the point P
 func (proof *Proof) Verify(G, H, L, R []ristretto.Point, HprimeFactor []ristretto.Scalar, Q, P ristretto.Point, n int) bool {
+	if len(proof.L) != len(proof.R) || len(proof.L) != bits.Len(uint(len(G)))-1 || !isPower2(uint32(len(G))) {
+		return false
+	}
+	if len(H) != len(G) || len(HprimeFactor) != len(G) {
+		return false
+	}
+
 	uSq, uInvSq, s := proof.VerifScalars()
 
 	sInv := make([]ristretto.Scalar, len(s))
@@ -479,6 +490,10 @@ func (proof *Proof) Equals(other Proof) bool {
 		return false
 	}
 
+	if len(proof.L) != len(other.L) || len(proof.R) != len(other.R) || len(proof.L) != len(proof.R) {
+		return false
+	}
+
 	for i := range proof.L {
 		if ok := proof.L[i].Equals(&other.L[i]); !ok {
 			return false
@@ -503,7 +518,7 @@ func nextPow2(n uint) uint {
 }
 
 func isPower2(n uint32) bool {
-	return (n & (n - 1)) == 0
+	return n != 0 && (n&(n-1)) == 0
 }
 
 // DiffNextPow2 checks the closest next pow2 and returns the necessary padding
-- 
2.43.0


From 8e972c3cd288426d7f38aa9d15547e98b818c83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:41 +0000
Subject: [PATCH 12/33] fix: vector operations return a new vector, and the
 zeroth power of zero is one, for every operand

---
 rangeproof/vector/vector.go | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/rangeproof/vector/vector.go b/rangeproof/vector/vector.go
index dacd1fa..83762cc 100644
--- a/rangeproof/vector/vector.go
+++ b/rangeproof/vector/vector.go
@@ -53,10 +53,6 @@ func Sub(a, b []ristretto.Scalar) ([]ristretto.Scalar, error) {
 
 // Neg Negates a vector a
 func Neg(a []ristretto.Scalar) []ristretto.Scalar {
-	if len(a) == 0 {
-		return a
-	}
-
 	res := make([]ristretto.Scalar, len(a))
 
 	for i := range a {
@@ -69,10 +65,6 @@ func Neg(a []ristretto.Scalar) []ristretto.Scalar {
 // SubScalar Subtracts a scalars value b, from every element in the slice a
 func SubScalar(a []ristretto.Scalar, b ristretto.Scalar) []ristretto.Scalar {
 
-	if b.IsNonZeroI() == 0 {
-		return a
-	}
-
 	res := make([]ristretto.Scalar, len(a))
 
 	for i := 0; i < len(a); i++ {
@@ -150,10 +142,6 @@ func ScalarPowers(a ristretto.Scalar, n uint32) []ristretto.Scalar {
 		return res
 	}
 
-	if a.IsNonZeroI() == 0 {
-		return res
-	}
-
 	var k ristretto.Scalar
 	k.SetOne()
 	res[0] = k
-- 
2.43.0


From e59468dc305f738a6731096f04a59720f025d8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:44 +0000
Subject: [PATCH 13/33] fix: rangeproof.Prove and CommitToVectors do not write
 past the end of the caller's slices

---
 rangeproof/pedersen/pedersen.go | 3 ++-
 rangeproof/rangeproof.go        | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index 88d8119..6ee6982 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -200,7 +200,8 @@ func (p *Pedersen) CommitToVectors(vectors ...[]ristretto.Scalar) Commitment {
 			sum.Add(&sum, &commit)
 		} else {
 
-			genData := append(p.GenData, uint8(i))
+			genData := append([]byte{}, p.GenData...)
+			genData = append(genData, uint8(i))
 			ped2 := New(genData)
 
 			commit := ped2.commitToScalars(nil, vector...)
diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index bc6acf4..33cbb7c 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -55,6 +55,7 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 	// Pad zero values until we have power of two
 	padAmount := innerproduct.DiffNextPow2(uint32(M))
 	M = M + int(padAmount)
+	v = append([]ristretto.Scalar{}, v...)
 	for i := uint32(0); i < padAmount; i++ {
 		var zeroScalar ristretto.Scalar
 		zeroScalar.SetZero()
-- 
2.43.0


From 4c48c85e370e2166223f735ab9829af8ffa05318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:46 +0000
Subject: [PATCH 14/33] fix: rangeproof.Prove in debug mode accepts the largest
 value of the range

---
 rangeproof/debug.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rangeproof/debug.go b/rangeproof/debug.go
index 03ad9f6..3e09739 100644
--- a/rangeproof/debug.go
+++ b/rangeproof/debug.go
@@ -177,12 +177,12 @@ func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []rist
 	return rH.Equals(&rhs), nil
 }
 
-// debugsizeOfV returns true if v is less than 2^N - 1
+// debugsizeOfV returns true if v is at most 2^N - 1
 func debugsizeOfV(v *big.Int) bool {
 	var twoN, e, one = big.NewInt(2), big.NewInt(int64(N)), big.NewInt(int64(1))
 	twoN.Exp(twoN, e, nil)
 	twoN.Sub(twoN, one)
 
 	cmp := v.Cmp(twoN)
-	return (cmp == -1)
+	return (cmp <= 0)
 }
-- 
2.43.0


From c4519f6bbc4bc06207bfaafca6e37bcbc2f2a04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:48 +0000
Subject: [PATCH 15/33] fix: rangeproof equality compares the inner product
 proof, and the commitments only when asked to

---
 rangeproof/rangeproof.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index 33cbb7c..f42d2eb 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -597,14 +597,16 @@ func (p *Proof) Decode(r io.Reader, includeCommits bool) error {
 
 // Equals returns proof equality with commitments
 func (p *Proof) Equals(other Proof, includeCommits bool) bool {
-	if len(p.V) != len(other.V) && includeCommits {
-		return false
-	}
+	if includeCommits {
+		if len(p.V) != len(other.V) {
+			return false
+		}
 
-	for i := range p.V {
-		ok := p.V[i].EqualValue(other.V[i])
-		if !ok {
-			return ok
+		for i := range p.V {
+			ok := p.V[i].EqualValue(other.V[i])
+			if !ok {
+				return ok
+			}
 		}
 	}
 
@@ -636,8 +638,10 @@ func (p *Proof) Equals(other Proof, includeCommits bool) bool {
 	if !ok {
 		return ok
 	}
-	return true
-	// return p.IPProof.Equals(*other.IPProof)
+	if p.IPProof == nil || other.IPProof == nil {
+		return p.IPProof == other.IPProof
+	}
+	return p.IPProof.Equals(*other.IPProof)
 }
 
 func readerToPoint(r io.Reader, p *ristretto.Point) error {
-- 
2.43.0


From 8598918521a04fe7228315c76eed89339a9693a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:52 +0000
Subject: [PATCH 16/33] fix: rangeproof decoding rejects encodings which are
 not canonical

---
 rangeproof/innerproduct/innerproduct.go | 7 +++++--
 rangeproof/pedersen/pedersen.go         | 3 ++-
 rangeproof/rangeproof.go                | 6 +++++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/rangeproof/innerproduct/innerproduct.go b/rangeproof/innerproduct/innerproduct.go
index 1b86af0..9e5aa93 100644
--- a/rangeproof/innerproduct/innerproduct.go
+++ b/rangeproof/innerproduct/innerproduct.go
@@ -444,6 +444,9 @@ func (proof *Proof) Decode(r io.Reader) error {
 	}
 	proof.A.SetBytes(&ABytes)
 	proof.B.SetBytes(&BBytes)
+	if !bytes.Equal(proof.A.Bytes(), ABytes[:]) || !bytes.Equal(proof.B.Bytes(), BBytes[:]) {
+		return errors.New("scalar is not reduced")
+	}
 
 	buf := &bytes.Buffer{}
 	_, err = buf.ReadFrom(r)
@@ -469,10 +472,10 @@ func (proof *Proof) Decode(r io.Reader) error {
 		if err != nil {
 			return err
 		}
-		if ok := proof.L[i].SetBytes(&LBytes); !ok {
+		if ok := proof.L[i].SetBytes(&LBytes); !ok || !bytes.Equal(proof.L[i].Bytes(), LBytes[:]) {
 			return errors.New("point not encodable")
 		}
-		if ok := proof.R[i].SetBytes(&RBytes); !ok {
+		if ok := proof.R[i].SetBytes(&RBytes); !ok || !bytes.Equal(proof.R[i].Bytes(), RBytes[:]) {
 			return errors.New("point not encodable")
 		}
 	}
diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index 6ee6982..458d14c 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -1,6 +1,7 @@
 package pedersen
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"io"
@@ -79,7 +80,7 @@ func (c *Commitment) Decode(r io.Reader) error {
 		return err
 	}
 	ok := c.Value.SetBytes(&cBytes)
-	if !ok {
+	if !ok || !bytes.Equal(c.Value.Bytes(), cBytes[:]) {
 		return errors.New("could not set bytes for commitment, not an encodable point")
 	}
 	return nil
diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index f42d2eb..3be3a1c 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -1,6 +1,7 @@
 package rangeproof
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"io"
@@ -651,7 +652,7 @@ func readerToPoint(r io.Reader, p *ristretto.Point) error {
 		return err
 	}
 	ok := p.SetBytes(&x)
-	if !ok {
+	if !ok || !bytes.Equal(p.Bytes(), x[:]) {
 		return errors.New("point not encodable")
 	}
 	return nil
@@ -663,5 +664,8 @@ func readerToScalar(r io.Reader, s *ristretto.Scalar) error {
 		return err
 	}
 	s.SetBytes(&x)
+	if !bytes.Equal(s.Bytes(), x[:]) {
+		return errors.New("scalar is not reduced")
+	}
 	return nil
 }
-- 
2.43.0


From b848c2a9e6f7423c178adcc8485ff853205311e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:10 +0000
Subject: [PATCH 17/33] fix: the merkletree does not write past the end of the
 hashes returned by payloads

---
 merkletree/merkletree.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 8f6ea8c..be3a108 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -50,7 +50,7 @@ func VerifyNode(n *Node) ([]byte, error) {
 		return nil, err
 	}
 
-	return hash.Sha3256(append(leftBytes, rightBytes...))
+	return hash.Sha3256(concat(leftBytes, rightBytes))
 }
 
 // CalculateNodeHash is a helper function for calculating the hash of a node
@@ -59,7 +59,7 @@ func CalculateNodeHash(n *Node) ([]byte, error) {
 		return n.Data.CalculateHash()
 	}
 
-	return hash.Sha3256(append(n.Left.Hash, n.Right.Hash...))
+	return hash.Sha3256(concat(n.Left.Hash, n.Right.Hash))
 }
 
 // NewTree constructs a merkletree using the Payload/Content pl
@@ -123,7 +123,7 @@ func createIntermediate(nl []*Node) (*Node, error) {
 		if i+1 == len(nl) {
 			right = i
 		}
-		payloadHash := append(nl[left].Hash, nl[right].Hash...)
+		payloadHash := concat(nl[left].Hash, nl[right].Hash)
 
 		h, err := hash.Sha3256(payloadHash)
 		if err != nil {
@@ -208,7 +208,7 @@ func (t *Tree) VerifyContent(data Payload) (bool, error) {
 					return false, err
 				}
 
-				h, err := hash.Sha3256(append(leftBytes, rightBytes...))
+				h, err := hash.Sha3256(concat(leftBytes, rightBytes))
 
 				if err != nil {
 					return false, err
@@ -228,6 +228,13 @@ func (t *Tree) VerifyContent(data Payload) (bool, error) {
 	return false, nil
 }
 
+// concat returns the concatenation of a and b, without writing to the memory of either
+func concat(a, b []byte) []byte {
+	res := make([]byte, 0, len(a)+len(b))
+	res = append(res, a...)
+	return append(res, b...)
+}
+
 // equals returns true, if two payloads hash to the same value
 func equals(a, b Payload) (bool, error) {
 	hashA, err := a.CalculateHash()
-- 
2.43.0


From 4f6fee9aad6a30d7f6189142df916596f840015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:38 +0000
Subject: [PATCH 18/33] fix: aggregating equal BLS keys or signatures gives
 their sum

---
 bls/bls.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bls/bls.go b/bls/bls.go
index 353517f..d5a59fe 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -235,7 +235,8 @@ func (apk *Apk) Aggregate(pk *PublicKey) error {
 		return err
 	}
 
-	apk.gx.Add(apk.gx, gxt)
+	// N.B. bn256 cannot add a point to itself in place
+	apk.gx = newG2().Add(apk.gx, gxt)
 	return nil
 }
 
@@ -301,7 +302,8 @@ func (sigma *Signature) AggregateBytes(other []byte) error {
 
 // Aggregate two Signature
 func (sigma *Signature) Aggregate(other *Signature) *Signature {
-	sigma.e.Add(sigma.e, other.e)
+	// N.B. bn256 cannot add a point to itself in place
+	sigma.e = newG1().Add(sigma.e, other.e)
 	return sigma
 }
 
-- 
2.43.0


From ef09c46ac26533fbce2747eff45321612bf93428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:39 +0000
Subject: [PATCH 19/33] fix: BLS batch verification rejects empty batches and
 batches with a key or a message missing

---
 bls/bls.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bls/bls.go b/bls/bls.go
index d5a59fe..f5b4a84 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -490,6 +490,14 @@ func verify(pk *bn256.G2, msg []byte, sigma *bn256.G1) error {
 }
 
 func verifyBatch(pkeys []*bn256.G2, msgList [][]byte, sig *bn256.G1, allowDistinct bool) error {
+	if len(pkeys) == 0 || len(pkeys) != len(msgList) {
+		return fmt.Errorf(
+			"bls: the nr of Public Keys (%d) and the nr. of messages (%d) do not match",
+			len(pkeys),
+			len(msgList),
+		)
+	}
+
 	if !allowDistinct && !distinct(msgList) {
 		return errors.New("bls: Messages are not distinct")
 	}
-- 
2.43.0


From e6afca322f0dc16a0822db2cf9f03810e65a5548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:40 +0000
Subject: [PATCH 20/33] fix: BLS keys and signatures can be marshalled and
 verified by several goroutines at once

---
 bls/bls.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/bls/bls.go b/bls/bls.go
index f5b4a84..031811b 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -52,6 +52,20 @@ func newG2() *bn256.G2 {
 	return new(bn256.G2)
 }
 
+// normG1 brings a point to affine form. Marshalling a point which is not in this
+// form modifies it, so it could not be shared between goroutines
+func normG1(p *bn256.G1) *bn256.G1 {
+	_ = p.Marshal()
+	return p
+}
+
+// normG2 brings a point to affine form. Marshalling a point which is not in this
+// form modifies it, so it could not be shared between goroutines
+func normG2(p *bn256.G2) *bn256.G2 {
+	_ = p.Marshal()
+	return p
+}
+
 // newG1Base is the initialization function for the G1Base point for BN256. It takes as input the HEX string representation of a base point
 func newG1Base(strRepr string) *bn256.G1 {
 	buff, err := hex.DecodeString(strRepr)
@@ -120,7 +134,7 @@ func GenKeyPair(randReader io.Reader) (*PublicKey, *SecretKey, error) {
 		return nil, nil, err
 	}
 
-	return &PublicKey{gx}, &SecretKey{x}, nil
+	return &PublicKey{normG2(gx)}, &SecretKey{x}, nil
 }
 
 // UnmarshalPk unmarshals a byte array into a BLS PublicKey
@@ -179,7 +193,7 @@ func NewApk(pk *PublicKey) *Apk {
 
 	gx, _ := pkt(pk)
 	return &Apk{
-		PublicKey: &PublicKey{gx},
+		PublicKey: &PublicKey{normG2(gx)},
 	}
 }
 
@@ -236,7 +250,7 @@ func (apk *Apk) Aggregate(pk *PublicKey) error {
 	}
 
 	// N.B. bn256 cannot add a point to itself in place
-	apk.gx = newG2().Add(apk.gx, gxt)
+	apk.gx = normG2(newG2().Add(apk.gx, gxt))
 	return nil
 }
 
@@ -303,7 +317,7 @@ func (sigma *Signature) AggregateBytes(other []byte) error {
 // Aggregate two Signature
 func (sigma *Signature) Aggregate(other *Signature) *Signature {
 	// N.B. bn256 cannot add a point to itself in place
-	sigma.e = newG1().Add(sigma.e, other.e)
+	sigma.e = normG1(newG1().Add(sigma.e, other.e))
 	return sigma
 }
 
@@ -360,7 +374,7 @@ func apkSigWrap(pk *PublicKey, signature *UnsafeSignature) (*Signature, error) {
 
 	sigma.ScalarMult(signature.e, t)
 
-	return &Signature{e: sigma}, nil
+	return &Signature{e: normG1(sigma)}, nil
 }
 
 // Verify is the verification step of an aggregated apk signature
@@ -395,7 +409,7 @@ func UnsafeSign(key *SecretKey, msg []byte) (*UnsafeSignature, error) {
 	}
 	p := newG1()
 	p.ScalarMult(hash, key.x)
-	return &UnsafeSignature{p}, nil
+	return &UnsafeSignature{normG1(p)}, nil
 }
 
 // Compress the signature to the 32 byte form
@@ -432,7 +446,7 @@ func (usig *UnsafeSignature) Unmarshal(msg []byte) error {
 func UnsafeAggregate(one, other *UnsafeSignature) *UnsafeSignature {
 	res := newG1()
 	res.Add(one.e, other.e)
-	return &UnsafeSignature{e: res}
+	return &UnsafeSignature{e: normG1(res)}
 }
 
 // UnsafeBatch is a utility function to aggregate distinct messages
@@ -552,7 +566,7 @@ func distinct(msgList [][]byte) bool {
 func (pk *PublicKey) Aggregate(pp *PublicKey) *PublicKey {
 	p3 := newG2()
 	p3.Add(pk.gx, pp.gx)
-	return &PublicKey{p3}
+	return &PublicKey{normG2(p3)}
 }
 
 // MarshalText encodes the string representation of the public key
-- 
2.43.0


From 9ae4108e32e3b106865f18ffed17cc16eeefda65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:40 +0000
Subject: [PATCH 21/33] fix: BLS decoding rejects encodings which are not
 canonical and keeps the receiver intact

---
 bls/bls.go | 71 ++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 48 insertions(+), 23 deletions(-)

diff --git a/bls/bls.go b/bls/bls.go
index 031811b..80eb2fb 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -6,6 +6,7 @@
 package bls
 
 import (
+	"bytes"
 	"crypto/rand"
 	"crypto/subtle"
 	"encoding/base64"
@@ -328,7 +329,7 @@ func (sigma *Signature) Compress() []byte {
 
 // Decompress reconstructs the 64 byte signature from the compressed form
 func (sigma *Signature) Decompress(x []byte) error {
-	e, err := bn256.Decompress(x)
+	e, err := decompressG1(x)
 	if err != nil {
 		return err
 	}
@@ -343,19 +344,12 @@ func (sigma *Signature) Marshal() []byte {
 
 // Unmarshal a byte array into a Signature
 func (sigma *Signature) Unmarshal(msg []byte) error {
-	var err error
-	var e *bn256.G1
 	if len(msg) == 33 {
-		e, err = bn256.Decompress(msg)
-		if err != nil {
-			return err
-		}
-		sigma.e = e
-		return nil
+		return sigma.Decompress(msg)
 	}
 
-	e = newG1()
-	if _, err := e.Unmarshal(msg); err != nil {
+	e, err := unmarshalG1(msg)
+	if err != nil {
 		return err
 	}
 	sigma.e = e
@@ -419,7 +413,7 @@ func (usig *UnsafeSignature) Compress() []byte {
 
 // Decompress reconstructs the 64 byte signature from the compressed form
 func (usig *UnsafeSignature) Decompress(x []byte) error {
-	e, err := bn256.Decompress(x)
+	e, err := decompressG1(x)
 	if err != nil {
 		return err
 	}
@@ -434,8 +428,8 @@ func (usig *UnsafeSignature) Marshal() []byte {
 
 // Unmarshal a byte array into an UnsafeSignature
 func (usig *UnsafeSignature) Unmarshal(msg []byte) error {
-	e := newG1()
-	if _, err := e.Unmarshal(msg); err != nil {
+	e, err := unmarshalG1(msg)
+	if err != nil {
 		return err
 	}
 	usig.e = e
@@ -542,7 +536,7 @@ func verifyBatch(pkeys []*bn256.G2, msgList [][]byte, sig *bn256.G1, allowDistin
 
 // VerifyCompressed verifies a Compressed marshalled signature
 func VerifyCompressed(pks []*bn256.G2, msgList [][]byte, compressedSig []byte, allowDistinct bool) error {
-	sig, err := bn256.Decompress(compressedSig)
+	sig, err := decompressG1(compressedSig)
 	if err != nil {
 		return err
 	}
@@ -580,12 +574,7 @@ func (pk *PublicKey) UnmarshalText(data []byte) error {
 	if err != nil {
 		return err
 	}
-	pk.gx = newG2()
-	_, err = pk.gx.Unmarshal(bs)
-	if err != nil {
-		return err
-	}
-	return nil
+	return pk.Unmarshal(bs)
 }
 
 // Marshal returns the binary representation of the G2 point being the public key
@@ -595,14 +584,50 @@ func (pk *PublicKey) Marshal() []byte {
 
 // Unmarshal a public key from a byte array
 func (pk *PublicKey) Unmarshal(data []byte) error {
-	pk.gx = newG2()
-	_, err := pk.gx.Unmarshal(data)
+	gx, err := unmarshalG2(data)
 	if err != nil {
 		return err
 	}
+	pk.gx = gx
 	return nil
 }
 
+// unmarshalG1 decodes a point which must be exactly the result of marshalling it
+func unmarshalG1(data []byte) (*bn256.G1, error) {
+	e := newG1()
+	if _, err := e.Unmarshal(data); err != nil {
+		return nil, err
+	}
+	if !bytes.Equal(e.Marshal(), data) {
+		return nil, errors.New("bls: the encoding of the point is not canonical")
+	}
+	return e, nil
+}
+
+// decompressG1 decodes a point which must be exactly the result of compressing it
+func decompressG1(data []byte) (*bn256.G1, error) {
+	e, err := bn256.Decompress(data)
+	if err != nil {
+		return nil, err
+	}
+	if !bytes.Equal(e.Compress(), data) {
+		return nil, errors.New("bls: the encoding of the point is not canonical")
+	}
+	return e, nil
+}
+
+// unmarshalG2 decodes a point which must be exactly the result of marshalling it
+func unmarshalG2(data []byte) (*bn256.G2, error) {
+	gx := newG2()
+	if _, err := gx.Unmarshal(data); err != nil {
+		return nil, err
+	}
+	if !bytes.Equal(gx.Marshal(), data) {
+		return nil, errors.New("bls: the encoding of the point is not canonical")
+	}
+	return gx, nil
+}
+
 func encodeToText(data []byte) []byte {
 	buf := make([]byte, base64.RawURLEncoding.EncodedLen(len(data)))
 	base64.RawURLEncoding.Encode(buf, data)
-- 
2.43.0


From ac3675ff81b69046eae7a4a13fb1985e8cb58215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:41 +0000
Subject: [PATCH 22/33] fix: BLS public keys outside the prime order group, and
 the identity, are rejected

---
 bls/bls.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/bls/bls.go b/bls/bls.go
index 80eb2fb..86cd02c 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -588,6 +588,9 @@ func (pk *PublicKey) Unmarshal(data []byte) error {
 	if err != nil {
 		return err
 	}
+	if isInfinity(gx) || !isInfinity(mulOrder(gx)) {
+		return errors.New("bls: the point is not a valid public key")
+	}
 	pk.gx = gx
 	return nil
 }
@@ -628,6 +631,25 @@ func unmarshalG2(data []byte) (*bn256.G2, error) {
 	return gx, nil
 }
 
+// isInfinity returns true for the identity of G2, which verifies a signature on any message
+func isInfinity(p *bn256.G2) bool {
+	return len(p.Marshal()) == 1
+}
+
+// mulOrder multiplies a point of the twist by the order of G2. The result is the
+// identity only if the point is in G2, as the twist has points of other orders.
+// N.B. bn256.G2.ScalarMult is only correct for points which are in G2 already
+func mulOrder(p *bn256.G2) *bn256.G2 {
+	res := newG2().Set(p)
+	for i := bn256.Order.BitLen() - 2; i >= 0; i-- {
+		res = newG2().Add(res, res)
+		if bn256.Order.Bit(i) == 1 {
+			res = newG2().Add(res, p)
+		}
+	}
+	return res
+}
+
 func encodeToText(data []byte) []byte {
 	buf := make([]byte, base64.RawURLEncoding.EncodedLen(len(data)))
 	base64.RawURLEncoding.Encode(buf, data)
-- 
2.43.0


From 2629510ff503e146fb3d2f958d45d3de1d0aec7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:01 +0000
Subject: [PATCH 23/33] fix: a batch of a single unsafe BLS signature is not
 the signature itself

---
 bls/bls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bls/bls.go b/bls/bls.go
index 86cd02c..758efee 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -449,7 +449,7 @@ func UnsafeBatch(sigs ...*UnsafeSignature) (*UnsafeSignature, error) {
 	var sum *UnsafeSignature
 	for i, sig := range sigs {
 		if i == 0 {
-			sum = sig
+			sum = &UnsafeSignature{e: sig.e}
 		} else {
 			sum = UnsafeAggregate(sum, sig)
 		}
-- 
2.43.0


From afe99ccd9d2a954b69e40e0b10eea099627c4802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:32 +0000
Subject: [PATCH 24/33] fix: mlsag decoys without a second key are refused by
 Prove and do not make SubCommToZero panic

---
 mlsag/dualkey.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mlsag/dualkey.go b/mlsag/dualkey.go
index 1a561c0..2b23bed 100644
--- a/mlsag/dualkey.go
+++ b/mlsag/dualkey.go
@@ -38,6 +38,10 @@ func (d *DualKey) SetMsg(msg []byte) {
 // in the matrix of decoy pubkeys
 func (d *DualKey) SubCommToZero(p ristretto.Point) {
 	for i := range d.pubKeysMatrix {
+		if d.pubKeysMatrix[i].Len() < 2 {
+			// Prove refuses these decoys
+			continue
+		}
 		commToZero := &d.pubKeysMatrix[i].keys[1]
 		commToZero.Sub(commToZero, &p)
 	}
-- 
2.43.0


From cd62ec4766a78e3e7f9178e4ed58f6aa512a4f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:53 +0000
Subject: [PATCH 25/33] fix: rebuilding a merkletree takes the duplicate of the
 last leaf from the last leaf

---
 merkletree/merkletree.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index be3a108..dd496cf 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -152,7 +152,10 @@ func createIntermediate(nl []*Node) (*Node, error) {
 func (t *Tree) RebuildTree() error {
 	var pl []Payload
 	for _, node := range t.Leaves {
-		pl = append(pl, node.Data)
+		// the duplicate of the last leaf is made again when it is needed
+		if !node.IsDup {
+			pl = append(pl, node.Data)
+		}
 	}
 
 	return t.RebuildTreeUsing(pl)
-- 
2.43.0


From c77a95343f627f2048906434a265497e4336e019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:01 +0000
Subject: [PATCH 26/33] fix: the merkletree keeps its own copy of the hashes
 returned by payloads

---
 merkletree/merkletree.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index dd496cf..b24f238 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -37,7 +37,7 @@ type Node struct {
 // It returns the Hash of Node n
 func VerifyNode(n *Node) ([]byte, error) {
 	if n.IsLeaf {
-		return n.Data.CalculateHash()
+		return payloadHash(n.Data)
 	}
 
 	rightBytes, err := VerifyNode(n.Right)
@@ -56,7 +56,7 @@ func VerifyNode(n *Node) ([]byte, error) {
 // CalculateNodeHash is a helper function for calculating the hash of a node
 func CalculateNodeHash(n *Node) ([]byte, error) {
 	if n.IsLeaf {
-		return n.Data.CalculateHash()
+		return payloadHash(n.Data)
 	}
 
 	return hash.Sha3256(concat(n.Left.Hash, n.Right.Hash))
@@ -85,7 +85,7 @@ func create(pl []Payload) (*Node, []*Node, error) {
 
 	var leaves []*Node
 	for _, payload := range pl {
-		h, err := payload.CalculateHash()
+		h, err := payloadHash(payload)
 		if err != nil {
 			return nil, nil, err
 		}
@@ -238,13 +238,22 @@ func concat(a, b []byte) []byte {
 	return append(res, b...)
 }
 
+// payloadHash returns a copy of the hash of p, which stays as it is if p uses the memory again
+func payloadHash(p Payload) ([]byte, error) {
+	h, err := p.CalculateHash()
+	if err != nil {
+		return nil, err
+	}
+	return append([]byte{}, h...), nil
+}
+
 // equals returns true, if two payloads hash to the same value
 func equals(a, b Payload) (bool, error) {
-	hashA, err := a.CalculateHash()
+	hashA, err := payloadHash(a)
 	if err != nil {
 		return false, err
 	}
-	hashB, err := b.CalculateHash()
+	hashB, err := payloadHash(b)
 	if err != nil {
 		return false, err
 	}
-- 
2.43.0


From 5316b0f40f98775540805e6291f817223dc7379b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:41 +0000
Subject: [PATCH 27/33] fix: generators keep their own copy of the data they
 are derived from

---
 rangeproof/generators/generator.go | 3 ++-
 rangeproof/pedersen/pedersen.go    | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/rangeproof/generators/generator.go b/rangeproof/generators/generator.go
index 35facce..4ea91b0 100644
--- a/rangeproof/generators/generator.go
+++ b/rangeproof/generators/generator.go
@@ -17,7 +17,8 @@ type Generator struct {
 // will use data to generate `n` points
 func New(data []byte) *Generator {
 	return &Generator{
-		data:  data,
+		// the points depend on what data is now, whatever the caller does with it later
+		data:  append([]byte{}, data...),
 		Bases: []ristretto.Point{},
 	}
 }
diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index 458d14c..0ff3721 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -34,7 +34,7 @@ func New(genData []byte) *Pedersen {
 
 	return &Pedersen{
 		BaseVector: gen,
-		GenData:    genData,
+		GenData:    append([]byte{}, genData...),
 		BlindPoint: blindPoint,
 		BasePoint:  basePoint,
 	}
-- 
2.43.0


From 66336ee65bc0d6cc62ca46e2c0319611a0f957f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:44 +0000
Subject: [PATCH 28/33] fix: the mlsag prover keeps its own copy of the message

---
 mlsag/dualkey.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlsag/dualkey.go b/mlsag/dualkey.go
index 2b23bed..15c76a5 100644
--- a/mlsag/dualkey.go
+++ b/mlsag/dualkey.go
@@ -31,7 +31,7 @@ func (d *DualKey) SetCommToZero(key ristretto.Scalar) ristretto.Point {
 }
 
 func (d *DualKey) SetMsg(msg []byte) {
-	d.Proof.msg = msg
+	d.Proof.msg = append([]byte{}, msg...)
 }
 
 // SubCommToZero subtracts p from every point from the second public key
-- 
2.43.0


From 27db25b0fccd8dd49469f3b9c07f99bc1a04a41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:40 +0000
Subject: [PATCH 29/33] fix: use different generators for each vector when
 committing to more than 256 of them

---
 rangeproof/pedersen/pedersen.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index 0ff3721..303d7e6 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -202,7 +202,10 @@ func (p *Pedersen) CommitToVectors(vectors ...[]ristretto.Scalar) Commitment {
 		} else {
 
 			genData := append([]byte{}, p.GenData...)
-			genData = append(genData, uint8(i))
+			// N.B. a single byte would give the vectors after the 256th the generators of earlier ones
+			for j := i; j > 0; j >>= 8 {
+				genData = append(genData, uint8(j))
+			}
 			ped2 := New(genData)
 
 			commit := ped2.commitToScalars(nil, vector...)
-- 
2.43.0


From 26e8ddcf0c41ad2117e5c3b1527572306dd06b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:44 +0000
Subject: [PATCH 30/33] fix: refuse texts of public keys which are not the
 encoding of the key

---
 bls/bls.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bls/bls.go b/bls/bls.go
index 758efee..499746b 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -659,5 +659,12 @@ func encodeToText(data []byte) []byte {
 func decodeText(data []byte) ([]byte, error) {
 	buf := make([]byte, base64.RawURLEncoding.DecodedLen(len(data)))
 	n, err := base64.RawURLEncoding.Decode(buf, data)
-	return buf[:n], err
+	if err != nil {
+		return nil, err
+	}
+	// N.B. base64 ignores line breaks
+	if !bytes.Equal(encodeToText(buf[:n]), data) {
+		return nil, errors.New("bls: the text encoding is not canonical")
+	}
+	return buf[:n], nil
 }
-- 
2.43.0


From 5e7ad4bc87f8d67b16bb3c05eb6e391a0d3bff3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:48 +0000
Subject: [PATCH 31/33] fix: decode what is encoded for a signature without
 responses

---
 mlsag/mlsag.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index f29b9c7..eaaee7c 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -80,6 +80,16 @@ func (s *Signature) Decode(r io.Reader, decodeKeys bool) error {
 	if err != nil {
 		return err
 	}
+
+	// Encode writes nothing else for a signature without responses
+	if lenR == 0 {
+		s.r = nil
+		if decodeKeys {
+			s.PubKeys = nil
+		}
+		return nil
+	}
+
 	err = binary.Read(r, binary.BigEndian, &numResponses)
 	if err != nil {
 		return err
@@ -87,7 +97,7 @@ func (s *Signature) Decode(r io.Reader, decodeKeys bool) error {
 
 	// Decode the responses
 	// N.B. lenR is not trusted, so memory is only allocated for what is actually read
-	if lenR > 0 && numResponses == 0 {
+	if numResponses == 0 {
 		return errors.New("signature has no responses")
 	}
 	s.r = nil
-- 
2.43.0


From 55f38bac4bfb9eeeb49880dcafec7eeb05226e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:38 +0000
Subject: [PATCH 32/33] fix: decode keys and responses in place of what a used
 object holds

---
 mlsag/pubkeys.go   | 2 ++
 mlsag/responses.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mlsag/pubkeys.go b/mlsag/pubkeys.go
index 18c3d80..ad31c33 100644
--- a/mlsag/pubkeys.go
+++ b/mlsag/pubkeys.go
@@ -47,6 +47,8 @@ func (p *PubKeys) Decode(r io.Reader, numKeys uint32) error {
 		return errors.New("struct is nil")
 	}
 
+	p.keys = nil
+
 	var x ristretto.Point
 	for i := uint32(0); i < numKeys; i++ {
 		err := readerToPoint(r, &x)
diff --git a/mlsag/responses.go b/mlsag/responses.go
index 2b3ffaa..6d57de7 100644
--- a/mlsag/responses.go
+++ b/mlsag/responses.go
@@ -48,6 +48,8 @@ func (res *Responses) Decode(r io.Reader, numResponses uint32) error {
 		return errors.New("struct is nil")
 	}
 
+	*res = nil
+
 	var x ristretto.Scalar
 	for i := uint32(0); i < numResponses; i++ {
 		err := readerToScalar(r, &x)
-- 
2.43.0


From 6daa33abe2832819193fcd5b2fdf0156ceeb40c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:48 +0000
Subject: [PATCH 33/33] fix: a commitment to no vectors is blinded with its
 blinding factor

---
 rangeproof/pedersen/pedersen.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index 303d7e6..be6f87d 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -190,14 +190,13 @@ func (p *Pedersen) CommitToVectors(vectors ...[]ristretto.Scalar) Commitment {
 
 	// For each vector, we can use the commitToScalars, because a vector is just a slice of scalars
 
-	var sum ristretto.Point
-	sum.SetZero()
+	// the commitment is blinded, even if there are no vectors
+	sum := p.commitToScalars(&blind)
 
 	for i, vector := range vectors {
 		if i == 0 {
 
-			// Commit to vector + blinding factor
-			commit := p.commitToScalars(&blind, vector...)
+			commit := p.commitToScalars(nil, vector...)
 			sum.Add(&sum, &commit)
 		} else {
 
-- 
2.43.0

