From e0feb00a07473ad62fbf53a85a601a0b218b6a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:29 +0000
Subject: [PATCH 01/24] fix: reject unknown hash function in compressed
 parameters

---
 params.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/params.go b/params.go
index f3e9ea5..3bd889a 100644
--- a/params.go
+++ b/params.go
@@ -271,6 +271,9 @@ func (params *Params) UnmarshalBinary(buf []byte) error {
 	}
 	params.N = (comprN + 1) * 8
 	params.Func = HashFunc((val >> 14) & ((1 << 2) - 1))
+	if params.Func > SHAKE256 {
+		return errorf("Unsupported hash function in compressed parameters")
+	}
 	params.FullHeight = (val >> 6) & ((1 << 6) - 1)
 	params.D = val & ((1 << 6) - 1)
 	return nil
-- 
2.43.0


From d24392b6ad966fa45febacd2a54a1120fb50e673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:29 +0000
Subject: [PATCH 02/24] fix: refuse to encode parameters with N=0

---
 params.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/params.go b/params.go
index 3bd889a..cc5bfc1 100644
--- a/params.go
+++ b/params.go
@@ -193,8 +193,8 @@ func (params *Params) WriteInto(buf []byte) error {
 	var val uint32
 	var wCode uint32
 	var prfCode uint32
-	if params.N%8 != 0 {
-		return errorf("N is not divisable by 8")
+	if params.N == 0 || params.N%8 != 0 {
+		return errorf("N is not divisable by 8 or zero")
 	}
 	if params.N > 128 {
 		return errorf("N is too large")
-- 
2.43.0


From e9b00c1fe241b920d62a315ff9b78fc2c27e278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:12 +0000
Subject: [PATCH 03/24] fix: refuse ambiguous algorithm names

Names with an output size that is not a multiple of eight bits or that is
out of range, or with a PRF or WotsW given twice, were accepted and denoted
other parameters than the ones written.
---
 params.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/params.go b/params.go
index cc5bfc1..da0826c 100644
--- a/params.go
+++ b/params.go
@@ -400,9 +400,12 @@ func parseParamsFromName(name string) (*Params, Error) {
 	if err != nil {
 		return nil, wrapErrorf(err, "parse N")
 	}
-	if n < 0 || int64(n) > int64(1)<<32 {
+	if n < 0 || int64(n) >= int64(1)<<32 {
 		return nil, errorf("N out of bounds")
 	}
+	if n%8 != 0 {
+		return nil, errorf("N is not a multiple of 8 bits")
+	}
 	ret.N = uint32(n) / 8
 
 	if ret.N == 24 {
@@ -410,12 +413,17 @@ func parseParamsFromName(name string) (*Params, Error) {
 	}
 
 	ret.WotsW = 16
+	prfSeen, wSeen := false, false
 	for i := 3; i < len(bits); i++ {
-		if bits[i] == "NIST" {
-			ret.Prf = NIST
-			continue
-		} else if bits[i] == "RFC" {
+		if bits[i] == "NIST" || bits[i] == "RFC" {
+			if prfSeen {
+				return nil, errorf("PRF construction is specified twice")
+			}
+			prfSeen = true
 			ret.Prf = RFC
+			if bits[i] == "NIST" {
+				ret.Prf = NIST
+			}
 			continue
 		} else if len(bits[i]) < 2 {
 			return nil, errorf("Fourth or fifth parameter is too short")
@@ -424,6 +432,10 @@ func parseParamsFromName(name string) (*Params, Error) {
 			return nil, errorf(
 				"Expected 'w[...]', NIST or RFC for fourth or fifth parameter")
 		}
+		if wSeen {
+			return nil, errorf("WotsW is specified twice")
+		}
+		wSeen = true
 		w, err := strconv.Atoi(bits[i][1:])
 		if err != nil {
 			return nil, wrapErrorf(err, "Failed to parse WotsW parameter")
-- 
2.43.0


From 00caaaff9d5215bdb53a9ddd8323f7fc7e244e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:13 +0000
Subject: [PATCH 04/24] fix: refuse parameters that cannot be used in
 NewContext

Unknown hash functions and PRF constructions and heights that do not fit
the sequence number or leaf index types led to panics or wrong sizes.
---
 api.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/api.go b/api.go
index 28f434c..3773d78 100644
--- a/api.go
+++ b/api.go
@@ -665,8 +665,25 @@ func NewContext(params Params) (ctx *Context, err Error) {
 		return nil, errorf("D does not divide FullHeight")
 	}
 
+	// Sequence numbers should fit in a uint64 and leaf indices in a uint32.
+	if params.FullHeight == 0 || params.FullHeight > 63 {
+		return nil, errorf("FullHeight should be between 1 and 63")
+	}
+
 	ctx.treeHeight = params.FullHeight / params.D
 
+	if ctx.treeHeight > 31 {
+		return nil, errorf("Subtrees can't be higher than 31")
+	}
+
+	if params.Func > SHAKE256 {
+		return nil, errorf("Unknown hash function")
+	}
+
+	if params.Prf > NIST {
+		return nil, errorf("Unknown PRF construction")
+	}
+
 	if params.WotsW != 4 && params.WotsW != 16 && params.WotsW != 256 {
 		return nil, errorf("Only WotsW=4,16,256 is supported")
 	}
-- 
2.43.0


From 035351f5d2c65240ad4679e2a715faeb2b8f68ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:13 +0000
Subject: [PATCH 05/24] fix: compute subtree sizes and offsets without overflow

BareSubTreeSize() and merkleTree.Node() overflowed a uint32 for subtrees of
4GB and up.
---
 core.go   | 7 ++++---
 params.go | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/core.go b/core.go
index bd607cf..2db677d 100644
--- a/core.go
+++ b/core.go
@@ -39,7 +39,7 @@ type scratchPad struct {
 
 // Allocates memory for a merkle tree of n-byte strings of the given height.
 func newMerkleTree(height, n uint32) merkleTree {
-	return merkleTreeFromBuf(make([]byte, ((1<<height)-1)*n), height, n)
+	return merkleTreeFromBuf(make([]byte, ((1<<height)-1)*int(n)), height, n)
 }
 
 // Returns a merkle tree wrapping the given buf
@@ -58,8 +58,9 @@ func (mt *merkleTree) Root() []byte {
 
 // Returns a slice to the given node.
 func (mt *merkleTree) Node(height, index uint32) []byte {
-	ptr := mt.n * ((1 << mt.height) - (1 << (mt.height - height)) + index)
-	return mt.buf[ptr : ptr+mt.n]
+	n := int(mt.n)
+	ptr := n * ((1 << mt.height) - (1 << (mt.height - height)) + int(index))
+	return mt.buf[ptr : ptr+n]
 }
 
 // Returns the authentication path for the given leaf
diff --git a/params.go b/params.go
index da0826c..4c3e4f8 100644
--- a/params.go
+++ b/params.go
@@ -282,7 +282,7 @@ func (params *Params) UnmarshalBinary(buf []byte) error {
 // Returns the size of the subtrees for this parameter.
 func (params *Params) BareSubTreeSize() int {
 	height := (params.FullHeight / params.D) + 1
-	return int(((1 << height) - 1) * params.N)
+	return ((1 << height) - 1) * int(params.N)
 }
 
 // Returns the size of the cached subtrees for this parameter.
-- 
2.43.0


From 95bb78d1543764a049498ceaff4019e8ac779ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:04 +0000
Subject: [PATCH 06/24] fix: return an error on truncated signatures and public
 keys

UnmarshalBinary(), and with it Verify(), panicked on them.
---
 api.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/api.go b/api.go
index 3773d78..bdf9f5e 100644
--- a/api.go
+++ b/api.go
@@ -273,6 +273,9 @@ func (sig *Signature) MarshalBinary() ([]byte, error) {
 // Initializes the Signature as stored by MarshalBinary.
 func (sig *Signature) UnmarshalBinary(buf []byte) error {
 	var params Params
+	if len(buf) < 4 {
+		return errorf("Signature is too short")
+	}
 	err := params.UnmarshalBinary(buf[:4])
 	if err != nil {
 		return err
@@ -281,6 +284,10 @@ func (sig *Signature) UnmarshalBinary(buf []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(buf) < int(4+sig.ctx.sigBytes) {
+		return errorf("Signature is too short: expected %d bytes instead of %d",
+			4+sig.ctx.sigBytes, len(buf))
+	}
 	sig.seqNo = SignatureSeqNo(decodeUint64(buf[4 : 4+sig.ctx.indexBytes]))
 	sig.drv = make([]byte, params.N)
 	sig.sigs = make([]subTreeSig, params.D)
@@ -370,6 +377,9 @@ func (pk *PublicKey) MarshalBinary() ([]byte, error) {
 // Initializes the PublicKey as was stored by MarshalBinary.
 func (pk *PublicKey) UnmarshalBinary(buf []byte) error {
 	var params Params
+	if len(buf) < 4 {
+		return errorf("Public key is too short")
+	}
 	err := params.UnmarshalBinary(buf[:4])
 	if err != nil {
 		return err
@@ -378,6 +388,10 @@ func (pk *PublicKey) UnmarshalBinary(buf []byte) error {
 	if err != nil {
 		return err
 	}
+	if len(buf) < int(4+2*params.N) {
+		return errorf("Public key is too short: expected %d bytes instead of %d",
+			4+2*params.N, len(buf))
+	}
 	pk.root = make([]byte, params.N)
 	pk.pubSeed = make([]byte, params.N)
 	copy(pk.root, buf[4:4+params.N])
-- 
2.43.0


From 1dad323fe9f34bc97a5ff4a8dc71b82f021d300e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:55 +0000
Subject: [PATCH 07/24] fix: do not drop the top digits of the WOTS+ checksum

For parameters with len_2*lg(w) a multiple of 8 (w=256, and w=4 with n=16)
the checksum was shifted eight bits too far, so that digests existed whose
chains dominate those of another and signatures could be forged.
---
 wots.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wots.go b/wots.go
index 8e09f79..b45b2e6 100644
--- a/wots.go
+++ b/wots.go
@@ -32,7 +32,9 @@ func (ctx *Context) wotsChainLengths(msg []byte) []uint8 {
 	for i := 0; i < int(ctx.wotsLen1); i++ {
 		csum += uint32(ctx.p.WotsW) - 1 - uint32(ret[i])
 	}
-	csum = csum << (8 - ((ctx.wotsLen2 * uint32(ctx.wotsLogW)) % 8))
+	// Align the checksum to the left of the last byte.  (There is nothing to
+	// shift if it already ends on a byte boundary.)
+	csum = csum << ((8 - ((ctx.wotsLen2 * uint32(ctx.wotsLogW)) % 8)) % 8)
 
 	// put checksum in buffer
 	ctx.toBaseW(
-- 
2.43.0


From c640ad6cd114f6fd57cb9f45c8cc9cd5f03ab342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 08/24] fix: use the fourway hashes only with the RFC 8391
 prefixes

They hardcode the n-byte prefix of RFC 8391, so with SHAKE, n=16 or 32 and
the NIST PRF construction keys and signatures differed between machines
with and without AVX2.
---
 api.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/api.go b/api.go
index bdf9f5e..7ce51bd 100644
--- a/api.go
+++ b/api.go
@@ -723,7 +723,9 @@ func NewContext(params Params) (ctx *Context, err Error) {
 		ctx.prefixLen = 4
 	}
 
-	if ctx.p.Func == SHAKE && (ctx.p.N == 32 || ctx.p.N == 16) {
+	// The fourway code assumes the n-byte prefixes of RFC 8391.
+	if ctx.p.Func == SHAKE && ctx.p.Prf == RFC &&
+		(ctx.p.N == 32 || ctx.p.N == 16) {
 		ctx.x4Available = f1600x4.Available
 	}
 
-- 
2.43.0


From 20f9ebaa37ee36ecd4b484fd5f28fed372b533d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:49 +0000
Subject: [PATCH 09/24] fix: refuse signatures for other parameters

VerifyFrom used the public key's parameters on a signature laid out for
others: it panicked, or accepted a signature relabelled with another hash
function, PRF or tree height.
---
 api.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/api.go b/api.go
index 7ce51bd..43582ae 100644
--- a/api.go
+++ b/api.go
@@ -197,6 +197,11 @@ func (pk *PublicKey) Verify(sig *Signature, msg []byte) (bool, Error) {
 // Reads a message from the io.Reader and verifies whether the provided
 // signature is valid for this public key and message.
 func (pk *PublicKey) VerifyFrom(sig *Signature, msg io.Reader) (bool, Error) {
+	if sig.ctx.p != pk.ctx.p {
+		return false, errorf(
+			"Signature and public key are for different XMSS[MT] parameters")
+	}
+
 	pad := pk.ctx.newScratchPad()
 	curHash := make([]byte, sig.ctx.p.N)
 
-- 
2.43.0


From 5d348e44fdceac10b1431b635a39c9d16dfebb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:35 +0000
Subject: [PATCH 10/24] fix: keep the container's record of the sequence number
 right when borrowing less or failing

---
 api.go  | 35 +++++++++++++++++++++++++----------
 core.go |  1 +
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/api.go b/api.go
index 43582ae..7cd0ac0 100644
--- a/api.go
+++ b/api.go
@@ -66,6 +66,11 @@ type PrivateKey struct {
 	// See PrivateKeyContainer.Borrow()
 	borrowed uint32
 
+	// True if the container failed to record a sequence number: it might have
+	// done so nevertheless.  If borrowed = 0 the container might also record
+	// a larger sequence number than seqNo.
+	seqNoUnsure bool
+
 	// The least signature sequence number that might still be in use
 	// by a Sign() operation.
 	leastSeqNoInUse SignatureSeqNo
@@ -500,28 +505,39 @@ func (sk *PrivateKey) BorrowExactly(amount uint32) Error {
 
 // Implementation of BorrowExactly.  Requires sk.mux lock.
 func (sk *PrivateKey) borrowExactly(amount uint32) Error {
-	if sk.borrowed == amount {
-		return nil
-	}
-
-	if sk.borrowed > amount {
-		err := sk.ctr.SetSeqNo(sk.seqNo + SignatureSeqNo(amount))
+	if sk.borrowed > amount || sk.seqNoUnsure {
+		// SetSeqNo() removes the record of borrowed signatures, so we have
+		// to return all of them before we borrow the given amount.
+		err := sk.returnBorrowed()
 		if err != nil {
 			return err
 		}
-		sk.borrowed = amount
+	}
+
+	if sk.borrowed == amount {
 		return nil
 	}
 
 	// sk.borrowed < amount
 	_, err := sk.ctr.BorrowSeqNos(amount - sk.borrowed)
 	if err != nil {
+		sk.seqNoUnsure = true
 		return err
 	}
 	sk.borrowed = amount
 	return nil
 }
 
+// Returns all borrowed signatures to the container and makes sure it stores
+// the right signature sequence number.  Requires sk.mux lock.
+func (sk *PrivateKey) returnBorrowed() Error {
+	// Even if SetSeqNo() fails, it might have returned the signatures.
+	sk.borrowed = 0
+	err := sk.ctr.SetSeqNo(sk.seqNo)
+	sk.seqNoUnsure = err != nil
+	return err
+}
+
 // Returns the number of signature sequence numbers borrowed from the container.
 // See BorrowExactly() or PrivateKeyContainer.BorrowSeqNos()
 func (sk *PrivateKey) BorrowedSeqNos() uint32 {
@@ -601,9 +617,8 @@ func (sk *PrivateKey) SignFrom(msg io.Reader) (*Signature, Error) {
 func (sk *PrivateKey) Close() Error {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
-	if sk.borrowed > 0 {
-		sk.borrowed = 0
-		err := sk.ctr.SetSeqNo(sk.seqNo)
+	if sk.borrowed > 0 || sk.seqNoUnsure {
+		err := sk.returnBorrowed()
 		if err != nil {
 			return err
 		}
diff --git a/core.go b/core.go
index 2db677d..cf6005d 100644
--- a/core.go
+++ b/core.go
@@ -429,6 +429,7 @@ func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 		// If we didn't borrow sequence numbers, then we have to increment
 		// the sequence number in the container before we continue.
 		err := sk.ctr.SetSeqNo(sk.seqNo + 1)
+		sk.seqNoUnsure = err != nil
 		if err != nil {
 			return 0, err
 		}
-- 
2.43.0


From 4c4b3d3d66963cde78cd38ebfb033b946413e6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:54 +0000
Subject: [PATCH 11/24] fix: never borrow or sign beyond the end of the key

---
 api.go  | 11 ++++++++++-
 core.go |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/api.go b/api.go
index 7cd0ac0..6537384 100644
--- a/api.go
+++ b/api.go
@@ -488,7 +488,7 @@ func (sk *PrivateKey) BorrowExactlyIfBelow(amount, treshHold uint32) Error {
 }
 
 // Ensures there are exactly the given number of signature sequence numbers are
-// reserved for use by Sign().
+// reserved for use by Sign(), or all if there are less left.
 //
 // In a typical setup, each call to Sign() will write and fsync() the current
 // signature sequence number to disk, such that signature sequence numbers
@@ -505,6 +505,15 @@ func (sk *PrivateKey) BorrowExactly(amount uint32) Error {
 
 // Implementation of BorrowExactly.  Requires sk.mux lock.
 func (sk *PrivateKey) borrowExactly(amount uint32) Error {
+	// Don't borrow more signatures than there are left, for otherwise the key
+	// cannot be loaded anymore after a crash.
+	maxSeqNo := SignatureSeqNo(sk.ctx.p.MaxSignatureSeqNo())
+	if sk.seqNo >= maxSeqNo {
+		amount = 0
+	} else if SignatureSeqNo(amount) > maxSeqNo-sk.seqNo {
+		amount = uint32(maxSeqNo - sk.seqNo)
+	}
+
 	if sk.borrowed > amount || sk.seqNoUnsure {
 		// SetSeqNo() removes the record of borrowed signatures, so we have
 		// to return all of them before we borrow the given amount.
diff --git a/core.go b/core.go
index cf6005d..42ab95c 100644
--- a/core.go
+++ b/core.go
@@ -417,7 +417,7 @@ func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 
-	if uint64(sk.seqNo) == sk.ctx.p.MaxSignatureSeqNo() {
+	if uint64(sk.seqNo) >= sk.ctx.p.MaxSignatureSeqNo() {
 		return 0, errorf("No unused signatures left")
 	}
 
-- 
2.43.0


From c5c1ed3558d89c7a9d08c69a861b74a718f9df1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 12/24] fix: clear the record of lost signatures on a proper
 close

---
 api.go  | 10 +++++++++-
 core.go |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/api.go b/api.go
index 6537384..e4246ae 100644
--- a/api.go
+++ b/api.go
@@ -71,6 +71,9 @@ type PrivateKey struct {
 	// a larger sequence number than seqNo.
 	seqNoUnsure bool
 
+	// True if the container might have a record of possibly lost signatures.
+	lostRecorded bool
+
 	// The least signature sequence number that might still be in use
 	// by a Sign() operation.
 	leastSeqNoInUse SignatureSeqNo
@@ -528,6 +531,7 @@ func (sk *PrivateKey) borrowExactly(amount uint32) Error {
 	}
 
 	// sk.borrowed < amount
+	sk.lostRecorded = true
 	_, err := sk.ctr.BorrowSeqNos(amount - sk.borrowed)
 	if err != nil {
 		sk.seqNoUnsure = true
@@ -544,6 +548,9 @@ func (sk *PrivateKey) returnBorrowed() Error {
 	sk.borrowed = 0
 	err := sk.ctr.SetSeqNo(sk.seqNo)
 	sk.seqNoUnsure = err != nil
+	if err == nil {
+		sk.lostRecorded = false
+	}
 	return err
 }
 
@@ -626,7 +633,7 @@ func (sk *PrivateKey) SignFrom(msg io.Reader) (*Signature, Error) {
 func (sk *PrivateKey) Close() Error {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
-	if sk.borrowed > 0 || sk.seqNoUnsure {
+	if sk.lostRecorded || sk.seqNoUnsure {
 		err := sk.returnBorrowed()
 		if err != nil {
 			return err
@@ -837,6 +844,7 @@ func LoadPrivateKeyFrom(ctr PrivateKeyContainer) (
 	if err != nil {
 		return nil, nil, 0, err
 	}
+	sk.lostRecorded = lostSigs > 0
 	pk = sk.PublicKey()
 	return
 }
diff --git a/core.go b/core.go
index 42ab95c..0ce9ce7 100644
--- a/core.go
+++ b/core.go
@@ -433,6 +433,7 @@ func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 		if err != nil {
 			return 0, err
 		}
+		sk.lostRecorded = false
 	}
 
 	sk.seqNo += 1
-- 
2.43.0


From 4ad4ee019123c3f0039c9305946f84b47e7528f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 13/24] fix: release the lock when opening or loading a key
 fails

Also treat any failure to acquire the lock as an error, not just the
temporary ones.
---
 api.go       | 12 ++++++++++--
 container.go | 27 +++++++++++++++++++++------
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/api.go b/api.go
index e4246ae..04a2d99 100644
--- a/api.go
+++ b/api.go
@@ -446,7 +446,11 @@ func (ctx *Context) Derive(path string, pubSeed, skSeed, skPrf []byte) (
 	if err != nil {
 		return nil, nil, err
 	}
-	return ctx.DeriveInto(ctr, pubSeed, skSeed, skPrf)
+	sk, pk, err := ctx.DeriveInto(ctr, pubSeed, skSeed, skPrf)
+	if err != nil {
+		ctr.Close()
+	}
+	return sk, pk, err
 }
 
 // Derives an XMSS[MT] public/private keypair from the given seeds
@@ -792,7 +796,11 @@ func LoadPrivateKey(path string) (
 	if err != nil {
 		return nil, nil, 0, err
 	}
-	return LoadPrivateKeyFrom(ctr)
+	sk, pk, lostSigs, err = LoadPrivateKeyFrom(ctr)
+	if err != nil {
+		ctr.Close()
+	}
+	return
 }
 
 // Loads the private key from the given private key container.
diff --git a/container.go b/container.go
index a878742..f9430c4 100644
--- a/container.go
+++ b/container.go
@@ -155,27 +155,42 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 		err2.locked = true
 		return nil, err2
 	}
+	if err != nil {
+		return nil, wrapErrorf(err, "Failed to acquire lock %s", lockFilePath)
+	}
+
+	if err := ctr.open(path); err != nil {
+		ctr.flock.Unlock()
+		return nil, err
+	}
+
+	return &ctr, nil
+}
+
+// Reads the key file and opens the cache, if they exist.
+func (ctr *fsContainer) open(path string) Error {
+	var err error
 
 	// Check if the container exists
 	if _, err = os.Stat(ctr.path); os.IsNotExist(err) {
-		return &ctr, nil
+		return nil
 	}
 
 	// Open the container.
 	file, err := os.Open(ctr.path)
 	if err != nil {
-		return &ctr, wrapErrorf(err, "Failed to open keyfile %s", path)
+		return wrapErrorf(err, "Failed to open keyfile %s", path)
 	}
 	defer file.Close()
 
 	var keyHeader fsKeyHeader
 	err = binary.Read(file, binary.BigEndian, &keyHeader)
 	if err != nil {
-		return &ctr, wrapErrorf(err, "Failed to read keyfile header")
+		return wrapErrorf(err, "Failed to read keyfile header")
 	}
 
 	if FS_CONTAINER_KEY_MAGIC != hex.EncodeToString(keyHeader.Magic[:]) {
-		return &ctr, wrapErrorf(err, "Keyfile has invalid magic")
+		return wrapErrorf(err, "Keyfile has invalid magic")
 	}
 
 	ctr.params = keyHeader.Params
@@ -184,12 +199,12 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 	ctr.borrowed = keyHeader.Borrowed
 	_, err = io.ReadAtLeast(file, ctr.privateKey, ctr.params.PrivateKeySize())
 	if err != nil {
-		return &ctr, wrapErrorf(err, "Failed to read private key")
+		return wrapErrorf(err, "Failed to read private key")
 	}
 
 	ctr.initialized = true
 
-	return &ctr, ctr.openCache()
+	return ctr.openCache()
 }
 
 func (ctr *fsContainer) openCache() Error {
-- 
2.43.0


From e796ba248f2bc39cbec6a37421fe1b0895fc6348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 14/24] fix: open a key whose cache is missing or damaged

The cache can be recomputed from the private key.
---
 container.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/container.go b/container.go
index f9430c4..2438752 100644
--- a/container.go
+++ b/container.go
@@ -204,7 +204,13 @@ func (ctr *fsContainer) open(path string) Error {
 
 	ctr.initialized = true
 
-	return ctr.openCache()
+	// The cache only contains data that can be recomputed from the private key.
+	if err := ctr.openCache(); err != nil {
+		log.Logf("Ignoring cache of %s: %v", path, err)
+		ctr.closeCache()
+	}
+
+	return nil
 }
 
 func (ctr *fsContainer) openCache() Error {
@@ -248,11 +254,29 @@ func (ctr *fsContainer) openCache() Error {
 		}
 
 		ctr.subTreeAlignment = int(header.SubTreeAlignment)
+		if ctr.subTreeAlignment == 0 {
+			ctr.subTreeAlignment = 4096
+		}
+
+		// The subtrees shouldn't overlap with the header of the cache file.
+		if ctr.subTreeAlignment < binary.Size(&header) {
+			return errorf("Invalid subtree alignment: %d", ctr.subTreeAlignment)
+		}
 	}
 
 	ctr.pageSize = os.Getpagesize()
 	ctr.allocatedSubTrees = header.AllocatedSubTrees
 
+	// Check whether all allocated subtrees are in the file
+	info, err := ctr.cacheFile.Stat()
+	if err != nil {
+		return wrapErrorf(err, "Failed to stat cache file")
+	}
+	if ctr.allocatedSubTrees != 0 &&
+		info.Size() < int64(ctr.subTreeOffset(ctr.allocatedSubTrees)) {
+		return errorf("Cache file is truncated")
+	}
+
 	// Read subtrees
 	var idx uint32
 	for idx = 0; idx < ctr.allocatedSubTrees; idx++ {
-- 
2.43.0


From 8f6b65e3ac2bfde9d9f3dcd32a1e777849c63a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 15/24] fix: don't mix up the old and new key if Reset is
 interrupted or fails

---
 container.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/container.go b/container.go
index 2438752..d68db4e 100644
--- a/container.go
+++ b/container.go
@@ -582,14 +582,23 @@ func (ctr *fsContainer) Reset(privateKey []byte, params Params) Error {
 
 	// Even if closing the cache fails, we will try to write the key file.
 	closeCacheErr := ctr.closeCache()
+	ctr.cacheInitialized = false
+
+	// The new key shouldn't end up with the cache of the old one, if we crash
+	// before we have reset it.
+	if err := os.Remove(ctr.path + ".cache"); err != nil && !os.IsNotExist(err) {
+		return wrapErrorf(err, "Failed to remove old cache")
+	}
 
+	old := *ctr
 	ctr.params = params
 	ctr.privateKey = privateKey
 	ctr.seqNo = 0
 	ctr.borrowed = 0
-	ctr.cacheInitialized = false
 
 	if err := ctr.writeKeyFile(); err != nil {
+		// rollback
+		*ctr = old
 		return err
 	}
 
-- 
2.43.0


From 71c1f0a90c46c2fe5e1a1d2627fa8acff8d38022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 16/24] fix: don't overflow the number of borrowed signatures

---
 container.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/container.go b/container.go
index d68db4e..62bf823 100644
--- a/container.go
+++ b/container.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"encoding/hex"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 
@@ -620,12 +621,17 @@ func (ctr *fsContainer) BorrowSeqNos(amount uint32) (SignatureSeqNo, Error) {
 		return 0, errorf("Container is not initialized")
 	}
 
-	ctr.borrowed += amount
+	oldBorrowed := ctr.borrowed
+	if amount > math.MaxUint32-ctr.borrowed {
+		ctr.borrowed = math.MaxUint32
+	} else {
+		ctr.borrowed += amount
+	}
 	ctr.seqNo += SignatureSeqNo(amount)
 
 	if err := ctr.writeKeyFile(); err != nil {
 		// rollback
-		ctr.borrowed -= amount
+		ctr.borrowed = oldBorrowed
 		ctr.seqNo -= SignatureSeqNo(amount)
 		return 0, err
 	}
-- 
2.43.0


From 79e8fc8edf566032b0d3f892e51a01ed3267023e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 17/24] fix: report why the cache file cannot be created

---
 container.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/container.go b/container.go
index 62bf823..b210882 100644
--- a/container.go
+++ b/container.go
@@ -383,7 +383,7 @@ func (ctr *fsContainer) ResetCache() Error {
 		os.O_RDWR|os.O_CREATE|os.O_TRUNC,
 		0600)
 	if err2 != nil {
-		return wrapErrorf(err, "failed to create cache file")
+		return wrapErrorf(err2, "failed to create cache file")
 	}
 
 	if err = ctr.writeCacheHeader(); err != nil {
-- 
2.43.0


From 8b6096234fdb4a7b65285b5d017f6e2a2b3ca0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 18/24] fix: keep the cache usable after failing to add a
 subtree

---
 container.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/container.go b/container.go
index b210882..e099e57 100644
--- a/container.go
+++ b/container.go
@@ -387,6 +387,7 @@ func (ctr *fsContainer) ResetCache() Error {
 	}
 
 	if err = ctr.writeCacheHeader(); err != nil {
+		ctr.closeCache()
 		return err
 	}
 	ctr.cacheInitialized = true
@@ -409,7 +410,6 @@ func (ctr *fsContainer) writeCacheHeader() Error {
 	copy(cacheHeader.Magic[:], magic)
 	err = binary.Write(ctr.cacheFile, binary.BigEndian, &cacheHeader)
 	if err != nil {
-		ctr.cacheFile.Close()
 		return wrapErrorf(err, "failed to write to cache file")
 	}
 	return nil
@@ -480,17 +480,20 @@ func (ctr *fsContainer) GetSubTree(address SubTreeAddress) (
 		err2 = ctr.cacheFile.Truncate(int64(
 			ctr.subTreeOffset(ctr.allocatedSubTrees)))
 		if err2 != nil {
+			ctr.allocatedSubTrees -= 1
 			return nil, false, wrapErrorf(err2,
 				"Failed to allocate space for subtree")
 		}
 		err = ctr.writeCacheHeader()
 		if err != nil {
+			ctr.allocatedSubTrees -= 1
 			return nil, false, err
 		}
 	}
 
 	buf, err2 := ctr.mmapSubTree(idx)
 	if err2 != nil {
+		heap.Push(ctr.cacheFreeIdx, idx)
 		return nil, false, wrapErrorf(err2, "Failed to mmap subtree from cache")
 	}
 
-- 
2.43.0


From 79381494842bcde4600ed8d60a4345177c8f04e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 19/24] fix: recover when generating a subtree fails

If getSubTree() aborts, the subtree stays allocated in the container and the
next call for it used to panic holding the lock.  A thread that waited for the
subtree to be corrected used to wait forever.  Also don't look at the
contents of the subtree while another thread is correcting it.
---
 core.go | 39 +++++++++++----------------------------
 1 file changed, 11 insertions(+), 28 deletions(-)

diff --git a/core.go b/core.go
index 0ce9ce7..3a4a59f 100644
--- a/core.go
+++ b/core.go
@@ -270,11 +270,8 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 			continue
 		}
 
-		if exists {
-			panic("This should not be possible")
-		}
-
-		// The sub tree does not yet exist.  We will have to fill it.
+		// The sub tree does not yet exist or it was allocated, but generating
+		// it failed.  We will have to fill it.
 		sk.subTreeReady[sta] = false
 		sk.subTreeChecked[sta] = true
 		break
@@ -300,9 +297,15 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 
 		// The tree seems ready, but we just need to check whether it
 		// hasn't been corrupted.
-		storedCheckSum := binary.BigEndian.Uint64(buf[len(buf)-8:])
-
 		sk.mux.Lock()
+		if !sk.subTreeReady[sta] || sk.subTreeChecked[sta] {
+			// Another thread is checking the subtree as well and might be
+			// correcting it at the moment.
+			sk.mux.Unlock()
+			return sk.getSubTree(pad, sta)
+		}
+
+		storedCheckSum := binary.BigEndian.Uint64(buf[len(buf)-8:])
 		intact := storedCheckSum == xxhash.Sum64(buf[:len(buf)-8])
 		if intact {
 			sk.subTreeChecked[sta] = true
@@ -310,27 +313,7 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 			return
 		}
 
-		// The tree seems corrupted.  Another thread might have reached the
-		// same conclusion, so we should check whether another thread is already
-		// correcting the problem for us.
-		if !sk.subTreeReady[sta] {
-			// There is another thread correcting the issue.  Lets wait
-			// for it.
-			log.Logf("Subtree %v is corrupted.  Another thread seems to be "+
-				"correcting the problem.  Waiting ...", sta)
-			for {
-				sk.cond.Wait()
-				if sk.subTreeReady[sta] {
-					log.Logf(" ... the subtree has been corrected.")
-					sk.mux.Unlock()
-					return
-				}
-
-				log.Logf(" ... not corrected, yet.")
-			}
-		}
-
-		// Mark the subtree not-ready
+		// The tree seems corrupted.  Mark the subtree not-ready
 		log.Logf("Subtree %v is corrupted.  Correcting it ...", sta)
 		sk.subTreeReady[sta] = false
 		sk.mux.Unlock()
-- 
2.43.0


From e5a09416176c774194041216d7d680d63ccbedbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 20/24] fix: retire signature sequence numbers of 33 bits and
 more in the right order

---
 api.go  |  4 ++--
 core.go |  6 +++---
 misc.go | 19 +++++++++++++++++++
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/api.go b/api.go
index 04a2d99..510e4ec 100644
--- a/api.go
+++ b/api.go
@@ -80,7 +80,7 @@ type PrivateKey struct {
 
 	// Heap of retired seqNo's larger than lesatSeqNoInUse.
 	// See PrivateKey.retireSeqNo().
-	retiredSeqNos *uint32Heap
+	retiredSeqNos *uint64Heap
 
 	mux  sync.Mutex
 	cond *sync.Cond     // signalled when a subtree is generated
@@ -897,7 +897,7 @@ func (sk *PrivateKey) DangerousSetSeqNo(seqNo SignatureSeqNo) {
 
 	// We might forget to drop some cached subtrees, but that is probably
 	// the least of our worries now.
-	emptyHeap := uint32Heap([]uint32{})
+	emptyHeap := uint64Heap([]uint64{})
 	sk.retiredSeqNos = &emptyHeap
 	heap.Init(sk.retiredSeqNos)
 	sk.leastSeqNoInUse = seqNo
diff --git a/core.go b/core.go
index 3a4a59f..2ed0930 100644
--- a/core.go
+++ b/core.go
@@ -505,7 +505,7 @@ func (ctx *Context) newPrivateKey(pad scratchPad, pubSeed, skSeed, skPrf []byte,
 	ret.cond = sync.NewCond(&ret.mux)
 	ret.subTreeReady = make(map[SubTreeAddress]bool)
 	ret.subTreeChecked = make(map[SubTreeAddress]bool)
-	emptyHeap := uint32Heap([]uint32{})
+	emptyHeap := uint64Heap([]uint64{})
 	ret.retiredSeqNos = &emptyHeap
 	heap.Init(ret.retiredSeqNos)
 	ret.leastSeqNoInUse = seqNo
@@ -538,7 +538,7 @@ func (sk *PrivateKey) retireSeqNo(seqNo SignatureSeqNo) {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 	if sk.leastSeqNoInUse != seqNo {
-		heap.Push(sk.retiredSeqNos, uint32(seqNo))
+		heap.Push(sk.retiredSeqNos, uint64(seqNo))
 		return
 	}
 
@@ -546,7 +546,7 @@ func (sk *PrivateKey) retireSeqNo(seqNo SignatureSeqNo) {
 	// the leastSeqNoInUse counter by using seqNos in retiredSeqNos.
 	sk.incLeastSeqNoInUse()
 	for sk.retiredSeqNos.Len() != 0 &&
-		sk.retiredSeqNos.Min() == uint32(sk.leastSeqNoInUse) {
+		sk.retiredSeqNos.Min() == uint64(sk.leastSeqNoInUse) {
 		heap.Pop(sk.retiredSeqNos)
 		sk.incLeastSeqNoInUse()
 	}
diff --git a/misc.go b/misc.go
index dd4988c..baffcab 100644
--- a/misc.go
+++ b/misc.go
@@ -112,3 +112,22 @@ func (h *uint32Heap) Pop() interface{} {
 	*h = old[0 : n-1]
 	return x
 }
+
+// Priority queue of uint64s
+type uint64Heap []uint64
+
+func (h uint64Heap) Min() uint64        { return h[0] }
+func (h uint64Heap) Len() int           { return len(h) }
+func (h uint64Heap) Less(i, j int) bool { return h[i] < h[j] }
+func (h uint64Heap) Swap(i, j int)      { h[i], h[j] = h[j], h[i] }
+func (h *uint64Heap) Push(x interface{}) {
+	*h = append(*h, x.(uint64))
+}
+
+func (h *uint64Heap) Pop() interface{} {
+	old := *h
+	n := len(old)
+	x := old[n-1]
+	*h = old[0 : n-1]
+	return x
+}
-- 
2.43.0


From 7ff29846b26a8eb8940ce3602bee7fbdd85cccfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 21/24] fix: wait for precomputation of subtrees before closing
 the key

Close() waited for the background goroutines with the lock they need (so it
hung) and after unmapping the cache they were writing to.
---
 api.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/api.go b/api.go
index 510e4ec..a544e0d 100644
--- a/api.go
+++ b/api.go
@@ -635,6 +635,11 @@ func (sk *PrivateKey) SignFrom(msg io.Reader) (*Signature, Error) {
 
 // Close the underlying container
 func (sk *PrivateKey) Close() Error {
+	// There might be a background goroutine generating a subtree
+	// when EnableSubTreePrecomputation() was called.  So wait for that,
+	// before we close the cache it writes to.  It needs sk.mux.
+	sk.wg.Wait()
+
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 	if sk.lostRecorded || sk.seqNoUnsure {
@@ -646,10 +651,6 @@ func (sk *PrivateKey) Close() Error {
 	err := sk.ctr.Close()
 	sk.cond.Broadcast()
 
-	// There might be a background goroutine generating a subtree
-	// when EnableSubTreePrecomputation() was called.  So wait for that.
-	sk.wg.Wait()
-
 	return err
 }
 
-- 
2.43.0


From 14b6ed3510717cef21b72b20713b51f070ccc007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 22/24] fix: take the lock when reporting on the state of a
 private key

---
 api.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/api.go b/api.go
index a544e0d..80522b8 100644
--- a/api.go
+++ b/api.go
@@ -561,6 +561,8 @@ func (sk *PrivateKey) returnBorrowed() Error {
 // Returns the number of signature sequence numbers borrowed from the container.
 // See BorrowExactly() or PrivateKeyContainer.BorrowSeqNos()
 func (sk *PrivateKey) BorrowedSeqNos() uint32 {
+	sk.mux.Lock()
+	defer sk.mux.Unlock()
 	return sk.borrowed
 }
 
@@ -884,6 +886,8 @@ func (sk *PrivateKey) UnretiredSeqNos() uint32 {
 
 // Returns the number of subtrees that are cached
 func (sk *PrivateKey) CachedSubTrees() int {
+	sk.mux.Lock()
+	defer sk.mux.Unlock()
 	return len(sk.subTreeReady)
 }
 
@@ -906,6 +910,8 @@ func (sk *PrivateKey) DangerousSetSeqNo(seqNo SignatureSeqNo) {
 
 // Returns the signature sequence used next.
 func (sk *PrivateKey) SeqNo() SignatureSeqNo {
+	sk.mux.Lock()
+	defer sk.mux.Unlock()
 	return sk.seqNo
 }
 
-- 
2.43.0


From 9771ff362a8addb3918315c1ec48aa18c8622ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 23/24] fix: don't take a dropped subtree for the one that
 replaces it after a crash

The address of a new subtree is written to the cache before its contents.
If we crashed in between, then the contents (and valid checksum) of the
subtree previously stored there were used.
---
 container.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/container.go b/container.go
index e099e57..73b4e7e 100644
--- a/container.go
+++ b/container.go
@@ -497,6 +497,17 @@ func (ctr *fsContainer) GetSubTree(address SubTreeAddress) (
 		return nil, false, wrapErrorf(err2, "Failed to mmap subtree from cache")
 	}
 
+	// A subtree previously stored here shouldn't be mistaken for this one, if
+	// we don't get to filling it.  So remove it before we write the address.
+	for i := range buf.buf {
+		buf.buf[i] = 0
+	}
+	if err2 = buf.mmap.Flush(); err2 != nil {
+		buf.mmap.Unmap()
+		heap.Push(ctr.cacheFreeIdx, idx)
+		return nil, false, wrapErrorf(err2, "Failed to clear subtree in cache")
+	}
+
 	// Write information
 	header := fsSubTreeHeader{
 		Allocated: 1,
-- 
2.43.0


From 704c0e48880f32c4e30f5a6024e4519636acfb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 24/24] fix: don't release someone else's lock when closing a
 container twice

---
 container.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/container.go b/container.go
index 73b4e7e..7da5d5c 100644
--- a/container.go
+++ b/container.go
@@ -101,6 +101,7 @@ type fsContainer struct {
 	initialized      bool
 	cacheInitialized bool
 	closed           bool
+	unlocked         bool
 
 	// Fields set in an initialized container
 	params     Params // parameters of the algorithm
@@ -782,6 +783,11 @@ func (ctr *fsContainer) closeCache() (err error) {
 }
 
 func (ctr *fsContainer) Close() Error {
+	// The lock might belong to someone else by now
+	if ctr.unlocked {
+		return errorf("Container is closed")
+	}
+
 	var err error
 	if err2 := ctr.closeCache(); err2 != nil {
 		err = multierror.Append(err, wrapErrorf(err2,
@@ -790,6 +796,8 @@ func (ctr *fsContainer) Close() Error {
 	if err2 := ctr.flock.Unlock(); err2 != nil {
 		err = multierror.Append(err, wrapErrorf(err2,
 			"Could not release file lock"))
+	} else {
+		ctr.unlocked = true
 	}
 	ctr.closed = true
 	ctr.initialized = false
-- 
2.43.0

