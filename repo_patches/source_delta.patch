From 7829a1d3883bd4c5dcdf41f3dc585843ba23d387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:48 +0000
Subject: [PATCH 01/30] fix: WOTS+ checksum lost when it fills whole bytes

When wotsLen2*logW is a multiple of eight (w=256, and w=4 with n=16) the
checksum was shifted left by eight bits instead of by none, so that its
most significant byte was cut off.  For n=16 and w=4 nothing remained of
the checksum, which allows forgeries.
---
 wots.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wots.go b/wots.go
index 8e09f79..6989bec 100644
--- a/wots.go
+++ b/wots.go
@@ -32,7 +32,7 @@ func (ctx *Context) wotsChainLengths(msg []byte) []uint8 {
 	for i := 0; i < int(ctx.wotsLen1); i++ {
 		csum += uint32(ctx.p.WotsW) - 1 - uint32(ret[i])
 	}
-	csum = csum << (8 - ((ctx.wotsLen2 * uint32(ctx.wotsLogW)) % 8))
+	csum = csum << ((8 - ((ctx.wotsLen2 * uint32(ctx.wotsLogW)) % 8)) % 8)
 
 	// put checksum in buffer
 	ctx.toBaseW(
-- 
2.43.0


From 05532152de23797f39746af155706bfcf4cad998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:49 +0000
Subject: [PATCH 02/30] fix: don't use the fourway path for the NIST PRF
 construction

prfAddrX4Into and fX4Into hardcode the n-byte prefixes of the RFC
construction, so with NIST the vectorised and scalar paths disagreed.
---
 api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api.go b/api.go
index 28f434c..479bc75 100644
--- a/api.go
+++ b/api.go
@@ -692,7 +692,8 @@ func NewContext(params Params) (ctx *Context, err Error) {
 		ctx.prefixLen = 4
 	}
 
-	if ctx.p.Func == SHAKE && (ctx.p.N == 32 || ctx.p.N == 16) {
+	if ctx.p.Func == SHAKE && ctx.p.Prf == RFC &&
+		(ctx.p.N == 32 || ctx.p.N == 16) {
 		ctx.x4Available = f1600x4.Available
 	}
 
-- 
2.43.0


From 5cf5c4b330227a7cceef3d589a9288b4b3856038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:51 +0000
Subject: [PATCH 03/30] fix: encodeUint64Into panics on an empty buffer

The index of an XMSSMT instance with FullHeight=0 is zero bytes long.
---
 misc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc.go b/misc.go
index dd4988c..78c0511 100644
--- a/misc.go
+++ b/misc.go
@@ -8,7 +8,7 @@ import (
 
 // Encodes the given uint64 into the buffer out in Big Endian
 func encodeUint64Into(x uint64, out []byte) {
-	if len(out)%8 == 0 {
+	if len(out) != 0 && len(out)%8 == 0 {
 		binary.BigEndian.PutUint64(out[len(out)-8:], x)
 		for i := 0; i < len(out)-8; i += 8 {
 			binary.BigEndian.PutUint64(out[i:i+8], 0)
-- 
2.43.0


From 58b058454fd4d8df10477151c55239f574e785e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:52 +0000
Subject: [PATCH 04/30] fix: Params.WriteInto accepts N=0

Its encoding (N/8)-1 underflows and overwrites the other fields.
---
 params.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/params.go b/params.go
index f3e9ea5..c1ca573 100644
--- a/params.go
+++ b/params.go
@@ -193,6 +193,9 @@ func (params *Params) WriteInto(buf []byte) error {
 	var val uint32
 	var wCode uint32
 	var prfCode uint32
+	if params.N == 0 {
+		return errorf("N can't be zero")
+	}
 	if params.N%8 != 0 {
 		return errorf("N is not divisable by 8")
 	}
-- 
2.43.0


From efb84919d026ca43bde41cb6b8c94cda3fcc146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:53 +0000
Subject: [PATCH 05/30] fix: reject unknown hash function in compressed
 parameters

---
 params.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/params.go b/params.go
index c1ca573..0b30b08 100644
--- a/params.go
+++ b/params.go
@@ -274,6 +274,9 @@ func (params *Params) UnmarshalBinary(buf []byte) error {
 	}
 	params.N = (comprN + 1) * 8
 	params.Func = HashFunc((val >> 14) & ((1 << 2) - 1))
+	if params.Func > SHAKE256 {
+		return errorf("Unsupported hash function in compressed parameters")
+	}
 	params.FullHeight = (val >> 6) & ((1 << 6) - 1)
 	params.D = val & ((1 << 6) - 1)
 	return nil
-- 
2.43.0


From 52cae50831536387c573623b09ac064a4b50bffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:54 +0000
Subject: [PATCH 06/30] fix: NewContext accepts unknown hash functions and PRF
 constructions

Using such a context panics later on.
---
 api.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/api.go b/api.go
index 479bc75..3df53f2 100644
--- a/api.go
+++ b/api.go
@@ -657,6 +657,14 @@ func NewContext(params Params) (ctx *Context, err Error) {
 		return nil, errorf("Only N=16,24,32,64 are supported")
 	}
 
+	if params.Func > SHAKE256 {
+		return nil, errorf("Unsupported hash function")
+	}
+
+	if params.Prf != RFC && params.Prf != NIST {
+		return nil, errorf("Unsupported PRF construction")
+	}
+
 	if params.D == 0 {
 		return nil, errorf("D can't be zero")
 	}
-- 
2.43.0


From c22faa5a0714bd99f25d1f7a4cee4cb27a37e64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:55 +0000
Subject: [PATCH 07/30] fix: NewContext accepts heights for which its
 arithmetic overflows

The sequence number has 64 bits, the index of an XMSS signature four bytes
and offsets into a subtree are computed with 32 bits.
---
 api.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/api.go b/api.go
index 3df53f2..558e0e4 100644
--- a/api.go
+++ b/api.go
@@ -673,8 +673,18 @@ func NewContext(params Params) (ctx *Context, err Error) {
 		return nil, errorf("D does not divide FullHeight")
 	}
 
+	if params.FullHeight > 63 || params.D > 63 {
+		return nil, errorf("FullHeight and D can't be larger than 63")
+	}
+
 	ctx.treeHeight = params.FullHeight / params.D
 
+	// Offsets into a subtree are stored in an uint32.
+	if ctx.treeHeight > 31 ||
+		((uint64(2)<<ctx.treeHeight)-1)*uint64(params.N) >= 1<<32 {
+		return nil, errorf("Subtrees are too large")
+	}
+
 	if params.WotsW != 4 && params.WotsW != 16 && params.WotsW != 256 {
 		return nil, errorf("Only WotsW=4,16,256 is supported")
 	}
-- 
2.43.0


From 9f743887f54d5737bea6d08a4017da927bcb10cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:56 +0000
Subject: [PATCH 08/30] fix: algorithm names with an N that is no multiple of
 eight are accepted

For instance XMSS-SHA2_10_257 was taken for XMSS-SHA2_10_256.
---
 params.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/params.go b/params.go
index 0b30b08..e0efc71 100644
--- a/params.go
+++ b/params.go
@@ -403,9 +403,12 @@ func parseParamsFromName(name string) (*Params, Error) {
 	if err != nil {
 		return nil, wrapErrorf(err, "parse N")
 	}
-	if n < 0 || int64(n) > int64(1)<<32 {
+	if n < 0 || int64(n) >= int64(1)<<32 {
 		return nil, errorf("N out of bounds")
 	}
+	if n%8 != 0 {
+		return nil, errorf("N is not a multiple of eight bits")
+	}
 	ret.N = uint32(n) / 8
 
 	if ret.N == 24 {
-- 
2.43.0


From e0e521d3827acf2db4cd346b47747abc9aa6e986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:57 +0000
Subject: [PATCH 09/30] fix: decoding a signature or public key of the wrong
 length

Short input caused a panic and trailing bytes were silently ignored.
---
 api.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/api.go b/api.go
index 558e0e4..7b741fe 100644
--- a/api.go
+++ b/api.go
@@ -273,14 +273,22 @@ func (sig *Signature) MarshalBinary() ([]byte, error) {
 // Initializes the Signature as stored by MarshalBinary.
 func (sig *Signature) UnmarshalBinary(buf []byte) error {
 	var params Params
+	if len(buf) < 4 {
+		return errorf("Signature is too short")
+	}
 	err := params.UnmarshalBinary(buf[:4])
 	if err != nil {
 		return err
 	}
-	sig.ctx, err = NewContext(params)
-	if err != nil {
-		return err
+	ctx, err2 := NewContext(params)
+	if err2 != nil {
+		return err2
+	}
+	if uint64(len(buf)) != 4+uint64(ctx.sigBytes) {
+		return errorf("Signature should be %d bytes long (instead of %d)",
+			4+ctx.sigBytes, len(buf))
 	}
+	sig.ctx = ctx
 	sig.seqNo = SignatureSeqNo(decodeUint64(buf[4 : 4+sig.ctx.indexBytes]))
 	sig.drv = make([]byte, params.N)
 	sig.sigs = make([]subTreeSig, params.D)
@@ -370,14 +378,22 @@ func (pk *PublicKey) MarshalBinary() ([]byte, error) {
 // Initializes the PublicKey as was stored by MarshalBinary.
 func (pk *PublicKey) UnmarshalBinary(buf []byte) error {
 	var params Params
+	if len(buf) < 4 {
+		return errorf("Public key is too short")
+	}
 	err := params.UnmarshalBinary(buf[:4])
 	if err != nil {
 		return err
 	}
-	pk.ctx, err = NewContext(params)
-	if err != nil {
-		return err
+	ctx, err2 := NewContext(params)
+	if err2 != nil {
+		return err2
+	}
+	if uint64(len(buf)) != 4+uint64(ctx.pkBytes) {
+		return errorf("Public key should be %d bytes long (instead of %d)",
+			4+ctx.pkBytes, len(buf))
 	}
+	pk.ctx = ctx
 	pk.root = make([]byte, params.N)
 	pk.pubSeed = make([]byte, params.N)
 	copy(pk.root, buf[4:4+params.N])
-- 
2.43.0


From f631149b99469109306d80915b0e0caeb41a1447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:58 +0000
Subject: [PATCH 10/30] fix: verifying a signature for other parameters than
 the public key's

This could panic and, if only the parameters not used by the computation
differ, accept the signature.
---
 api.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/api.go b/api.go
index 7b741fe..b45dcd9 100644
--- a/api.go
+++ b/api.go
@@ -197,6 +197,11 @@ func (pk *PublicKey) Verify(sig *Signature, msg []byte) (bool, Error) {
 // Reads a message from the io.Reader and verifies whether the provided
 // signature is valid for this public key and message.
 func (pk *PublicKey) VerifyFrom(sig *Signature, msg io.Reader) (bool, Error) {
+	if sig.ctx.p != pk.ctx.p {
+		return false, errorf("Signature is for different parameters (%v) "+
+			"than the public key (%v)", sig.ctx.p, pk.ctx.p)
+	}
+
 	pad := pk.ctx.newScratchPad()
 	curHash := make([]byte, sig.ctx.p.N)
 
-- 
2.43.0


From 0cd99183d79803566c95ada53d4373009f99e26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:59 +0000
Subject: [PATCH 11/30] fix: signing continues if the sequence number lies past
 the last one

For instance after BorrowExactly() or DangerousSetSeqNo().
---
 core.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core.go b/core.go
index bd607cf..d41971f 100644
--- a/core.go
+++ b/core.go
@@ -416,7 +416,7 @@ func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 
-	if uint64(sk.seqNo) == sk.ctx.p.MaxSignatureSeqNo() {
+	if uint64(sk.seqNo) >= sk.ctx.p.MaxSignatureSeqNo() {
 		return 0, errorf("No unused signatures left")
 	}
 
-- 
2.43.0


From 2c8058f296f09db2be24b0b71f3652e0523b682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:59 +0000
Subject: [PATCH 12/30] fix: lowering the number of borrowed signatures

If SetSeqNo() failed after the container had recorded the lower sequence
number, the signatures returned were still used, and might have been used
again after a crash.  If it did not, the container forgot that the
remaining signatures were borrowed, so that it would not have reported them
as lost after a crash.
---
 api.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/api.go b/api.go
index b45dcd9..44d7e9b 100644
--- a/api.go
+++ b/api.go
@@ -507,12 +507,17 @@ func (sk *PrivateKey) borrowExactly(amount uint32) Error {
 	}
 
 	if sk.borrowed > amount {
-		err := sk.ctr.SetSeqNo(sk.seqNo + SignatureSeqNo(amount))
+		// Return all signatures to the container and borrow the right amount.
+		// Even if this fails, the container might have recorded that the
+		// signatures were returned, so we can't use them anymore.
+		sk.borrowed = 0
+		err := sk.ctr.SetSeqNo(sk.seqNo)
 		if err != nil {
 			return err
 		}
-		sk.borrowed = amount
-		return nil
+		if amount == 0 {
+			return nil
+		}
 	}
 
 	// sk.borrowed < amount
-- 
2.43.0


From 99c0bcd51525ee41d5129f0004bc1fc36f3a9641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:00 +0000
Subject: [PATCH 13/30] fix: retired sequence numbers were truncated to 32 bits

When concurrent signatures cross a multiple of 2^32, the truncated number
sorts before the others and blocks the heap, so that no later subtree would
have been dropped.
---
 api.go  |  4 ++--
 core.go |  6 +++---
 misc.go | 19 +++++++++++++++++++
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/api.go b/api.go
index 44d7e9b..f0e43a4 100644
--- a/api.go
+++ b/api.go
@@ -72,7 +72,7 @@ type PrivateKey struct {
 
 	// Heap of retired seqNo's larger than lesatSeqNoInUse.
 	// See PrivateKey.retireSeqNo().
-	retiredSeqNos *uint32Heap
+	retiredSeqNos *seqNoHeap
 
 	mux  sync.Mutex
 	cond *sync.Cond     // signalled when a subtree is generated
@@ -864,7 +864,7 @@ func (sk *PrivateKey) DangerousSetSeqNo(seqNo SignatureSeqNo) {
 
 	// We might forget to drop some cached subtrees, but that is probably
 	// the least of our worries now.
-	emptyHeap := uint32Heap([]uint32{})
+	emptyHeap := seqNoHeap([]SignatureSeqNo{})
 	sk.retiredSeqNos = &emptyHeap
 	heap.Init(sk.retiredSeqNos)
 	sk.leastSeqNoInUse = seqNo
diff --git a/core.go b/core.go
index d41971f..6151063 100644
--- a/core.go
+++ b/core.go
@@ -519,7 +519,7 @@ func (ctx *Context) newPrivateKey(pad scratchPad, pubSeed, skSeed, skPrf []byte,
 	ret.cond = sync.NewCond(&ret.mux)
 	ret.subTreeReady = make(map[SubTreeAddress]bool)
 	ret.subTreeChecked = make(map[SubTreeAddress]bool)
-	emptyHeap := uint32Heap([]uint32{})
+	emptyHeap := seqNoHeap([]SignatureSeqNo{})
 	ret.retiredSeqNos = &emptyHeap
 	heap.Init(ret.retiredSeqNos)
 	ret.leastSeqNoInUse = seqNo
@@ -552,7 +552,7 @@ func (sk *PrivateKey) retireSeqNo(seqNo SignatureSeqNo) {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 	if sk.leastSeqNoInUse != seqNo {
-		heap.Push(sk.retiredSeqNos, uint32(seqNo))
+		heap.Push(sk.retiredSeqNos, seqNo)
 		return
 	}
 
@@ -560,7 +560,7 @@ func (sk *PrivateKey) retireSeqNo(seqNo SignatureSeqNo) {
 	// the leastSeqNoInUse counter by using seqNos in retiredSeqNos.
 	sk.incLeastSeqNoInUse()
 	for sk.retiredSeqNos.Len() != 0 &&
-		sk.retiredSeqNos.Min() == uint32(sk.leastSeqNoInUse) {
+		sk.retiredSeqNos.Min() == sk.leastSeqNoInUse {
 		heap.Pop(sk.retiredSeqNos)
 		sk.incLeastSeqNoInUse()
 	}
diff --git a/misc.go b/misc.go
index 78c0511..17ce5fe 100644
--- a/misc.go
+++ b/misc.go
@@ -112,3 +112,22 @@ func (h *uint32Heap) Pop() interface{} {
 	*h = old[0 : n-1]
 	return x
 }
+
+// Priority queue of signature sequence numbers
+type seqNoHeap []SignatureSeqNo
+
+func (h seqNoHeap) Min() SignatureSeqNo { return h[0] }
+func (h seqNoHeap) Len() int            { return len(h) }
+func (h seqNoHeap) Less(i, j int) bool  { return h[i] < h[j] }
+func (h seqNoHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
+func (h *seqNoHeap) Push(x interface{}) {
+	*h = append(*h, x.(SignatureSeqNo))
+}
+
+func (h *seqNoHeap) Pop() interface{} {
+	old := *h
+	n := len(old)
+	x := old[n-1]
+	*h = old[0 : n-1]
+	return x
+}
-- 
2.43.0


From 91118270572f3ba5181591ee5aa161e1221f9de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:55 +0000
Subject: [PATCH 14/30] fix: data races in SeqNo(), BorrowedSeqNos() and
 CachedSubTrees()

---
 api.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/api.go b/api.go
index f0e43a4..2f80d55 100644
--- a/api.go
+++ b/api.go
@@ -532,6 +532,8 @@ func (sk *PrivateKey) borrowExactly(amount uint32) Error {
 // Returns the number of signature sequence numbers borrowed from the container.
 // See BorrowExactly() or PrivateKeyContainer.BorrowSeqNos()
 func (sk *PrivateKey) BorrowedSeqNos() uint32 {
+	sk.mux.Lock()
+	defer sk.mux.Unlock()
 	return sk.borrowed
 }
 
@@ -850,6 +852,8 @@ func (sk *PrivateKey) UnretiredSeqNos() uint32 {
 
 // Returns the number of subtrees that are cached
 func (sk *PrivateKey) CachedSubTrees() int {
+	sk.mux.Lock()
+	defer sk.mux.Unlock()
 	return len(sk.subTreeReady)
 }
 
@@ -872,6 +876,8 @@ func (sk *PrivateKey) DangerousSetSeqNo(seqNo SignatureSeqNo) {
 
 // Returns the signature sequence used next.
 func (sk *PrivateKey) SeqNo() SignatureSeqNo {
+	sk.mux.Lock()
+	defer sk.mux.Unlock()
 	return sk.seqNo
 }
 
-- 
2.43.0


From 7b606cf757aba280c5de983afb4b3397a5a5fe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:57 +0000
Subject: [PATCH 15/30] fix: PrivateKey.Close() deadlocks during subtree
 precomputation

It waited for the background worker while holding the lock the worker
needs, and closed the container the worker still writes to.
---
 api.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/api.go b/api.go
index 2f80d55..3846f7d 100644
--- a/api.go
+++ b/api.go
@@ -608,6 +608,11 @@ func (sk *PrivateKey) SignFrom(msg io.Reader) (*Signature, Error) {
 
 // Close the underlying container
 func (sk *PrivateKey) Close() Error {
+	// There might be a background goroutine generating a subtree
+	// when EnableSubTreePrecomputation() was called.  So wait for that.
+	// It needs the lock and the container to finish.
+	sk.wg.Wait()
+
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 	if sk.borrowed > 0 {
@@ -620,10 +625,6 @@ func (sk *PrivateKey) Close() Error {
 	err := sk.ctr.Close()
 	sk.cond.Broadcast()
 
-	// There might be a background goroutine generating a subtree
-	// when EnableSubTreePrecomputation() was called.  So wait for that.
-	sk.wg.Wait()
-
 	return err
 }
 
-- 
2.43.0


From 85d2994ec5dfe50de7e9be7af1725d23b7f785cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:58 +0000
Subject: [PATCH 16/30] fix: PrivateKey.Close() leaves the container open if
 SetSeqNo() fails

A second Close() then succeeded without returning the borrowed signatures.
---
 api.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/api.go b/api.go
index 3846f7d..be9e624 100644
--- a/api.go
+++ b/api.go
@@ -615,14 +615,16 @@ func (sk *PrivateKey) Close() Error {
 
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
+	var err Error
 	if sk.borrowed > 0 {
 		sk.borrowed = 0
-		err := sk.ctr.SetSeqNo(sk.seqNo)
-		if err != nil {
-			return err
-		}
+		err = sk.ctr.SetSeqNo(sk.seqNo)
+	}
+	// Also close the container if the above failed, so that the file lock
+	// is released.
+	if err2 := sk.ctr.Close(); err == nil {
+		err = err2
 	}
-	err := sk.ctr.Close()
 	sk.cond.Broadcast()
 
 	return err
-- 
2.43.0


From a56824cff17647907e3a21379e6382e50a8f9998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:59 +0000
Subject: [PATCH 17/30] fix: file lock is not released if a private key can't
 be loaded or derived

---
 api.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/api.go b/api.go
index be9e624..24fdbbc 100644
--- a/api.go
+++ b/api.go
@@ -440,7 +440,12 @@ func (ctx *Context) Derive(path string, pubSeed, skSeed, skPrf []byte) (
 	if err != nil {
 		return nil, nil, err
 	}
-	return ctx.DeriveInto(ctr, pubSeed, skSeed, skPrf)
+	sk, pk, err := ctx.DeriveInto(ctr, pubSeed, skSeed, skPrf)
+	if err != nil {
+		ctr.Close()
+		return nil, nil, err
+	}
+	return sk, pk, nil
 }
 
 // Derives an XMSS[MT] public/private keypair from the given seeds
@@ -784,6 +789,12 @@ func LoadPrivateKey(path string) (
 // NOTE Takes ownership of ctr.  Do not forget to Close() the  PrivateKey.
 func LoadPrivateKeyFrom(ctr PrivateKeyContainer) (
 	sk *PrivateKey, pk *PublicKey, lostSigs uint32, err Error) {
+	defer func() {
+		if err != nil {
+			ctr.Close()
+		}
+	}()
+
 	// First check if the container is sane.
 	params := ctr.Initialized()
 	if params == nil {
-- 
2.43.0


From e24ca17101b0da9e497b44031a14d9a7e205e2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:00 +0000
Subject: [PATCH 18/30] fix: LoadPrivateKeyFrom() panics if the stored private
 key is too short

---
 api.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api.go b/api.go
index 24fdbbc..7dc2ab6 100644
--- a/api.go
+++ b/api.go
@@ -817,6 +817,9 @@ func LoadPrivateKeyFrom(ctr PrivateKeyContainer) (
 	if err != nil {
 		return nil, nil, 0, err
 	}
+	if len(skBuf) != params.PrivateKeySize() {
+		return nil, nil, 0, errorf("Private key has the wrong length")
+	}
 	var seqNo SignatureSeqNo
 	seqNo, lostSigs, err = ctr.GetSeqNo()
 
-- 
2.43.0


From 796c7a03a3849dd7a457cd3c5ca81a08c44dd664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:00 +0000
Subject: [PATCH 19/30] fix: container is opened without lock if locking fails

Only the error that another process holds the lock was checked for.
---
 container.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/container.go b/container.go
index a878742..d1a8705 100644
--- a/container.go
+++ b/container.go
@@ -129,7 +129,8 @@ const (
 )
 
 // Returns a PrivateKeyContainer backed by the filesystem.
-func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
+func OpenFSPrivateKeyContainer(path string) (
+	PrivateKeyContainer, Error) {
 	var ctr fsContainer
 	var err error
 
@@ -155,6 +156,10 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 		err2.locked = true
 		return nil, err2
 	}
+	if err != nil {
+		return nil, wrapErrorf(err,
+			"Failed to acquire lockfile %s", lockFilePath)
+	}
 
 	// Check if the container exists
 	if _, err = os.Stat(ctr.path); os.IsNotExist(err) {
-- 
2.43.0


From 506b0ec8f45729c9db106a41a67dceb8df5f8d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:02 +0000
Subject: [PATCH 20/30] fix: lock is not released if opening the container
 fails

---
 container.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/container.go b/container.go
index d1a8705..5e256b7 100644
--- a/container.go
+++ b/container.go
@@ -130,7 +130,7 @@ const (
 
 // Returns a PrivateKeyContainer backed by the filesystem.
 func OpenFSPrivateKeyContainer(path string) (
-	PrivateKeyContainer, Error) {
+	ret PrivateKeyContainer, retErr Error) {
 	var ctr fsContainer
 	var err error
 
@@ -160,6 +160,11 @@ func OpenFSPrivateKeyContainer(path string) (
 		return nil, wrapErrorf(err,
 			"Failed to acquire lockfile %s", lockFilePath)
 	}
+	defer func() {
+		if retErr != nil {
+			ctr.Close()
+		}
+	}()
 
 	// Check if the container exists
 	if _, err = os.Stat(ctr.path); os.IsNotExist(err) {
@@ -169,18 +174,18 @@ func OpenFSPrivateKeyContainer(path string) (
 	// Open the container.
 	file, err := os.Open(ctr.path)
 	if err != nil {
-		return &ctr, wrapErrorf(err, "Failed to open keyfile %s", path)
+		return nil, wrapErrorf(err, "Failed to open keyfile %s", path)
 	}
 	defer file.Close()
 
 	var keyHeader fsKeyHeader
 	err = binary.Read(file, binary.BigEndian, &keyHeader)
 	if err != nil {
-		return &ctr, wrapErrorf(err, "Failed to read keyfile header")
+		return nil, wrapErrorf(err, "Failed to read keyfile header")
 	}
 
 	if FS_CONTAINER_KEY_MAGIC != hex.EncodeToString(keyHeader.Magic[:]) {
-		return &ctr, wrapErrorf(err, "Keyfile has invalid magic")
+		return nil, wrapErrorf(err, "Keyfile has invalid magic")
 	}
 
 	ctr.params = keyHeader.Params
@@ -189,12 +194,16 @@ func OpenFSPrivateKeyContainer(path string) (
 	ctr.borrowed = keyHeader.Borrowed
 	_, err = io.ReadAtLeast(file, ctr.privateKey, ctr.params.PrivateKeySize())
 	if err != nil {
-		return &ctr, wrapErrorf(err, "Failed to read private key")
+		return nil, wrapErrorf(err, "Failed to read private key")
 	}
 
 	ctr.initialized = true
 
-	return &ctr, ctr.openCache()
+	if err := ctr.openCache(); err != nil {
+		return nil, err
+	}
+
+	return &ctr, nil
 }
 
 func (ctr *fsContainer) openCache() Error {
-- 
2.43.0


From 296a8ed095c29a739cfef492e8fd419a8246867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:03 +0000
Subject: [PATCH 21/30] fix: malformed parameters in the key file cause a panic

For instance a division by zero in subTreeOffset() if D=0.
---
 container.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/container.go b/container.go
index 5e256b7..b4b2184 100644
--- a/container.go
+++ b/container.go
@@ -188,6 +188,10 @@ func OpenFSPrivateKeyContainer(path string) (
 		return nil, wrapErrorf(err, "Keyfile has invalid magic")
 	}
 
+	if _, err := NewContext(keyHeader.Params); err != nil {
+		return nil, wrapErrorf(err, "Keyfile has invalid parameters")
+	}
+
 	ctr.params = keyHeader.Params
 	ctr.privateKey = make([]byte, ctr.params.PrivateKeySize())
 	ctr.seqNo = keyHeader.SeqNo
-- 
2.43.0


From 39ceb5462782e0dddabf36320a21af57f34ee362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:05 +0000
Subject: [PATCH 22/30] fix: opening a cache file with a zero subtree alignment
 panics

It is documented to be interpreted as 4096.  Also reject an alignment for
which the first subtree overlaps the header.
---
 container.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/container.go b/container.go
index b4b2184..7401c89 100644
--- a/container.go
+++ b/container.go
@@ -251,6 +251,12 @@ func (ctr *fsContainer) openCache() Error {
 		}
 
 		ctr.subTreeAlignment = int(header.SubTreeAlignment)
+		if ctr.subTreeAlignment == 0 {
+			ctr.subTreeAlignment = 4096
+		}
+		if ctr.subTreeAlignment < binary.Size(&header) {
+			return errorf("Cache file has invalid subtree alignment")
+		}
 	}
 
 	ctr.pageSize = os.Getpagesize()
-- 
2.43.0


From df9249874d2f31949eb1eebd20f610227e9dfdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:06 +0000
Subject: [PATCH 23/30] fix: a truncated cache file crashes the process with
 SIGBUS

---
 container.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/container.go b/container.go
index 7401c89..305efad 100644
--- a/container.go
+++ b/container.go
@@ -262,6 +262,16 @@ func (ctr *fsContainer) openCache() Error {
 	ctr.pageSize = os.Getpagesize()
 	ctr.allocatedSubTrees = header.AllocatedSubTrees
 
+	// Accessing a mapped subtree past the end of the file is fatal.
+	info, err := ctr.cacheFile.Stat()
+	if err != nil {
+		return wrapErrorf(err, "Failed to stat cache file")
+	}
+	if ctr.allocatedSubTrees > 0 &&
+		info.Size() < int64(ctr.subTreeOffset(ctr.allocatedSubTrees)) {
+		return errorf("Cache file is too short")
+	}
+
 	// Read subtrees
 	var idx uint32
 	for idx = 0; idx < ctr.allocatedSubTrees; idx++ {
-- 
2.43.0


From b34d96edd076ac4a05b736353c496477a4d51961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:09 +0000
Subject: [PATCH 24/30] fix: a key can't be loaded if its cache is missing or
 damaged

For instance after a crash between truncating the cache file and writing its
header.  LoadPrivateKeyFrom() already resets a cache that is not initialized,
but it did not get that far.
---
 container.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/container.go b/container.go
index 305efad..f58663a 100644
--- a/container.go
+++ b/container.go
@@ -204,7 +204,10 @@ func OpenFSPrivateKeyContainer(path string) (
 	ctr.initialized = true
 
 	if err := ctr.openCache(); err != nil {
-		return nil, err
+		// The cache can be created anew with ResetCache(), so the container
+		// is still useful.  See CacheInitialized().
+		log.Logf("Failed to open cache: %v", err)
+		ctr.closeCache()
 	}
 
 	return &ctr, nil
-- 
2.43.0


From 06bdba4d794824836f36fd685f8fd82ddd096bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:10 +0000
Subject: [PATCH 25/30] fix: panic after a failure to generate or drop a
 subtree

If the container failed while generating a subtree, the subtree was left in
the container, but not registered.  The next attempt to use it panicked with
the lock held.  Similarly, if dropping a subtree failed after the container
removed it, it was registered but not in the container anymore.
---
 core.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/core.go b/core.go
index 6151063..e4dc617 100644
--- a/core.go
+++ b/core.go
@@ -269,11 +269,8 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 			continue
 		}
 
-		if exists {
-			panic("This should not be possible")
-		}
-
-		// The sub tree does not yet exist.  We will have to fill it.
+		// The sub tree does not yet exist (or generating it failed before).
+		// We will have to fill it.
 		sk.subTreeReady[sta] = false
 		sk.subTreeChecked[sta] = true
 		break
@@ -587,9 +584,11 @@ func (sk *PrivateKey) incLeastSeqNoInUse() {
 		log.Logf("Dropping cached subtree %v ...", staToDrop)
 		if err := sk.ctr.DropSubTree(staToDrop); err != nil {
 			log.Logf("  failed to drop subtree %v: %v", staToDrop, err)
-		} else {
-			delete(sk.subTreeReady, staToDrop)
-			delete(sk.subTreeChecked, staToDrop)
 		}
+
+		// Even if the container failed to drop the subtree, it might not have
+		// it anymore.  If it does, the subtree will be filled again if needed.
+		delete(sk.subTreeReady, staToDrop)
+		delete(sk.subTreeChecked, staToDrop)
 	}
 }
-- 
2.43.0


From 1b91dc67ea153c2787f771017d5d26b158250a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:11 +0000
Subject: [PATCH 26/30] fix: subtree is used while another thread corrects it,
 or waited for forever

A subtree found to be corrupted is generated anew.  A thread about to check
the subtree at that time read it without lock, so it could see (or correct
again) a half-finished subtree.  If correcting the subtree failed, those
waiting for it were never woken up.
---
 core.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/core.go b/core.go
index e4dc617..901239b 100644
--- a/core.go
+++ b/core.go
@@ -296,18 +296,10 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 
 		// The tree seems ready, but we just need to check whether it
 		// hasn't been corrupted.
-		storedCheckSum := binary.BigEndian.Uint64(buf[len(buf)-8:])
-
 		sk.mux.Lock()
-		intact := storedCheckSum == xxhash.Sum64(buf[:len(buf)-8])
-		if intact {
-			sk.subTreeChecked[sta] = true
-			sk.mux.Unlock()
-			return
-		}
 
-		// The tree seems corrupted.  Another thread might have reached the
-		// same conclusion, so we should check whether another thread is already
+		// The tree might be corrupted.  Another thread might have reached that
+		// conclusion, so we should check whether another thread is already
 		// correcting the problem for us.
 		if !sk.subTreeReady[sta] {
 			// There is another thread correcting the issue.  Lets wait
@@ -316,7 +308,13 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 				"correcting the problem.  Waiting ...", sta)
 			for {
 				sk.cond.Wait()
-				if sk.subTreeReady[sta] {
+				ready, exists := sk.subTreeReady[sta]
+				if !exists {
+					// The other thread failed.
+					sk.mux.Unlock()
+					return sk.getSubTree(pad, sta)
+				}
+				if ready {
 					log.Logf(" ... the subtree has been corrected.")
 					sk.mux.Unlock()
 					return
@@ -326,6 +324,14 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 			}
 		}
 
+		storedCheckSum := binary.BigEndian.Uint64(buf[len(buf)-8:])
+		intact := storedCheckSum == xxhash.Sum64(buf[:len(buf)-8])
+		if intact {
+			sk.subTreeChecked[sta] = true
+			sk.mux.Unlock()
+			return
+		}
+
 		// Mark the subtree not-ready
 		log.Logf("Subtree %v is corrupted.  Correcting it ...", sta)
 		sk.subTreeReady[sta] = false
-- 
2.43.0


From ab7639359e4272bba8a8b73b4e94f59f43835fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:12 +0000
Subject: [PATCH 27/30] fix: stale subtree in recycled cache space is taken for
 the new one

After a crash between allocating cache space for a subtree and filling it,
the space contained the previous subtree with a valid checksum, which was
then used to sign.  The same could happen with the subtrees of another key
after a crash in PrivateKeyContainer.Reset().
---
 core.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/core.go b/core.go
index 901239b..79a99a1 100644
--- a/core.go
+++ b/core.go
@@ -325,7 +325,7 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 		}
 
 		storedCheckSum := binary.BigEndian.Uint64(buf[len(buf)-8:])
-		intact := storedCheckSum == xxhash.Sum64(buf[:len(buf)-8])
+		intact := storedCheckSum == sk.subTreeChecksum(sta, buf[:len(buf)-8])
 		if intact {
 			sk.subTreeChecked[sta] = true
 			sk.mux.Unlock()
@@ -355,7 +355,7 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 	// Called when we were sucessful in the end.
 	succeed := func() {
 		binary.BigEndian.PutUint64(buf[len(buf)-8:],
-			xxhash.Sum64(buf[:len(buf)-8]))
+			sk.subTreeChecksum(sta, buf[:len(buf)-8]))
 
 		sk.mux.Lock()
 		sk.subTreeReady[sta] = true
@@ -414,6 +414,21 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 	return
 }
 
+// Computes the checksum stored with a cached subtree.
+//
+// It covers the address of the subtree and the key, as the container might
+// hand out space that still contains another subtree and its checksum.
+func (sk *PrivateKey) subTreeChecksum(sta SubTreeAddress, buf []byte) uint64 {
+	var addrBuf [12]byte
+	binary.BigEndian.PutUint32(addrBuf[:4], sta.Layer)
+	binary.BigEndian.PutUint64(addrBuf[4:], sta.Tree)
+	h := xxhash.New()
+	h.Write(sk.pubSeed)
+	h.Write(addrBuf[:])
+	h.Write(buf)
+	return h.Sum64()
+}
+
 // Gets the next free sequence number
 func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 	sk.mux.Lock()
-- 
2.43.0


From 15b862dcb477651ea8b7b30077c737ba30d35e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:06 +0000
Subject: [PATCH 28/30] fix: waiting for the correction of a subtree that was
 given up already

If another goroutine found the subtree to be corrupted and then failed to
generate it again before we got the lock, nobody was left to wake us up.
---
 core.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core.go b/core.go
index 79a99a1..cda00b5 100644
--- a/core.go
+++ b/core.go
@@ -307,7 +307,6 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 			log.Logf("Subtree %v is corrupted.  Another thread seems to be "+
 				"correcting the problem.  Waiting ...", sta)
 			for {
-				sk.cond.Wait()
 				ready, exists := sk.subTreeReady[sta]
 				if !exists {
 					// The other thread failed.
@@ -321,6 +320,7 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 				}
 
 				log.Logf(" ... not corrected, yet.")
+				sk.cond.Wait()
 			}
 		}
 
-- 
2.43.0


From e70777b4075f4dd42b1b98fd3be82cab8bb51ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:03 +0000
Subject: [PATCH 29/30] fix: a failed Reset() leaves the container with a key
 that is not stored

If writing the key file failed, a container that was initialized before
kept the new private key in memory, while the file still has the old one.
---
 container.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/container.go b/container.go
index f58663a..9e3d1cf 100644
--- a/container.go
+++ b/container.go
@@ -581,6 +581,9 @@ func (ctr *fsContainer) Reset(privateKey []byte, params Params) Error {
 	// Even if closing the cache fails, we will try to write the key file.
 	closeCacheErr := ctr.closeCache()
 
+	oldParams, oldPrivateKey := ctr.params, ctr.privateKey
+	oldSeqNo, oldBorrowed := ctr.seqNo, ctr.borrowed
+
 	ctr.params = params
 	ctr.privateKey = privateKey
 	ctr.seqNo = 0
@@ -588,6 +591,11 @@ func (ctr *fsContainer) Reset(privateKey []byte, params Params) Error {
 	ctr.cacheInitialized = false
 
 	if err := ctr.writeKeyFile(); err != nil {
+		// rollback
+		ctr.params = oldParams
+		ctr.privateKey = oldPrivateKey
+		ctr.seqNo = oldSeqNo
+		ctr.borrowed = oldBorrowed
 		return err
 	}
 
-- 
2.43.0


From b46e2eca3c403f3bd6e3ab0b1fab2210bac8dd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:20 +0000
Subject: [PATCH 30/30] fix: after closing, signatures that were borrowed and
 used are reported lost

---
 api.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/api.go b/api.go
index 7dc2ab6..ea2a092 100644
--- a/api.go
+++ b/api.go
@@ -620,11 +620,17 @@ func (sk *PrivateKey) Close() Error {
 
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
-	var err Error
-	if sk.borrowed > 0 {
+
+	// The container might still have signatures recorded as borrowed when
+	// we have used all of them.
+	_, recorded, err := sk.ctr.GetSeqNo()
+	if sk.borrowed > 0 || recorded > 0 {
 		sk.borrowed = 0
-		err = sk.ctr.SetSeqNo(sk.seqNo)
+		if err2 := sk.ctr.SetSeqNo(sk.seqNo); err == nil {
+			err = err2
+		}
 	}
+
 	// Also close the container if the above failed, so that the file lock
 	// is released.
 	if err2 := sk.ctr.Close(); err == nil {
-- 
2.43.0

