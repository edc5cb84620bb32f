package xmssmt

// C02: verification.

// RFC 8391, algorithm 13: one step from a node of level k on the path from the
// leaf towards the root.
func specClimb(p *Params, node, sib, pubSeed string, ht address, k, leaf uint32) string {
	ht[5], ht[6] = k, leaf>>(k+1)
	if leaf>>k&1 == 0 {
		return gvcH(p, node, sib, pubSeed, ht)
	}
	return gvcH(p, sib, node, pubSeed, ht)
}

// RFC 8391, algorithm 13: the root of a subtree computed from a signature it
// made on m.
func specSubTreeRoot(p *Params, wotsSig, auth, m, pubSeed string, layer uint32, tree uint64, leaf uint32) string {
	n, h := int(p.N), p.FullHeight/p.D
	ots, lt, ht := specSubTreeAddr(layer, tree, 0), specSubTreeAddr(layer, tree, 1), specSubTreeAddr(layer, tree, 2)
	ots[4], lt[4] = leaf, leaf
	node := gvcLTree(p, gvcWotsPkFromSig(p, wotsSig, m, pubSeed, ots), pubSeed, lt)
	for k := uint32(0); k < h; k++ {
		node = specClimb(p, node, auth[int(k)*n:int(k+1)*n], pubSeed, ht, k, leaf)
	}
	return node
}

// RFC 8391, algorithms 14 and 17: the root computed from a signature.
func specRoot(p *Params, sig *Signature, pubSeed, mhash string) string {
	h := p.FullHeight / p.D
	node := mhash
	tree := uint64(sig.seqNo)
	for j := uint32(0); j < p.D; j++ {
		leaf := uint32(tree & ((1 << h) - 1))
		tree >>= h
		node = specSubTreeRoot(p, string(sig.sigs[j].wotsSig), string(sig.sigs[j].authPath), node, pubSeed, j, tree, leaf)
	}
	return node
}

// All splits of the height for n = 32, w = 16, and (except in the thorough
// tier) some for the others: the code above the WOTS+ layer uses n and w only
// as sizes.
func gvcTreeParams() Params {
	n, w := gvcNW()
	d, h := 0, 0
	if gvcThorough() || n == 32 && w == 16 {
		d = 1 + gvcChoose("d", 63)
		h = gvcChoose("h", 63/d+1)
	} else {
		d = [3]int{1, 3, 12}[gvcChoose("d3", 3)]
		h = [4]int{0, 1, 2, 5}[gvcChoose("h4", 4)]
	}
	p := Params{Func: SHA2, N: n, FullHeight: uint32(d * h), D: uint32(d), WotsW: w, Prf: RFC}
	gvcAssume(specSupported(&p))
	return p
}

func gvcPublicKey(ctx *Context) *PublicKey {
	n := int(ctx.p.N)
	pk := &PublicKey{ctx: ctx, root: gvcBytes("root", n), pubSeed: gvcBytes("pubSeed", n)}
	pk.ph = ctx.precomputeHashes(pk.pubSeed, nil)
	return pk
}

//gvc:harness C02
func hC02Verify() {
	p := gvcTreeParams()
	ctx, err := NewContext(p)
	gvcAssume(err == nil)
	sig := gvcSignature(ctx)
	pk := gvcPublicKey(ctx)
	s := gvcString("msg")
	msg := &gvcReader{s: s, err: gvcReadError()}
	fail := msg.err != nil
	var want string
	if !fail {
		mhash := gvcHashMsg(&p, string(sig.drv), string(pk.root), uint64(sig.seqNo), s)
		want = specRoot(&p, sig, string(pk.pubSeed), mhash)
	}
	ok, err2 := pk.VerifyFrom(sig, msg)
	gvcAssert(ok == (err2 == nil), "verification returns either true or an error")
	if fail {
		gvcAssert(!ok, "a signature on a message that cannot be read is not accepted")
		return
	}
	gvcAssert(ok == (want == string(pk.root)), "a signature is accepted if and only if the root computed from it is that of the public key")
}

// Verification with an index that is too large, and with a key and signature
// of other parameters.
//
//gvc:harness C02,C05
func hC02VerifyOther() {
	ps := [8]Params{
		{SHA2, 32, 10, 1, 16, RFC},
		{SHA2, 32, 10, 2, 16, RFC},
		{SHA2, 32, 8, 2, 16, RFC},
		{SHA2, 16, 10, 2, 16, RFC},
		{SHA2, 32, 10, 2, 4, RFC},
		{SHAKE, 32, 10, 2, 16, RFC},
		{SHA2, 32, 10, 2, 16, NIST},
		{SHAKE256, 64, 60, 12, 256, NIST},
	}
	ctx, err := NewContext(ps[gvcChoose("sig", 8)])
	gvcAssume(err == nil)
	ctx2, err := NewContext(ps[gvcChoose("pk", 8)])
	gvcAssume(err == nil)
	sig := gvcAnySignature(ctx, gvcU64("seqNo"))
	pk := gvcPublicKey(ctx2)
	var ok bool
	if gvcFork("reader", 2) == 0 {
		ok, err = pk.Verify(sig, gvcBytes("msg", 5))
	} else {
		ok, err = pk.VerifyFrom(sig, &gvcReader{s: gvcString("msg"), err: gvcReadError()})
	}
	gvcAssert(ok == (err == nil), "verification returns either true or an error")
	if ctx.p != ctx2.p {
		gvcAssert(!ok, "a signature made for other parameters is not accepted")
	}
}

// Verify of bytes is decoding and verifying.
//
//gvc:harness C02
func hC02VerifyBytes() {
	p := [3]Params{{SHA2, 32, 4, 2, 16, RFC}, {SHAKE, 64, 10, 1, 4, RFC}, {SHAKE256, 24, 6, 3, 256, NIST}}[gvcChoose("params", 3)]
	ctx, err := NewContext(p)
	gvcAssume(err == nil)
	sig := gvcSignature(ctx)
	pk := gvcPublicKey(ctx)
	msg := gvcBytes("msg", 40)
	mhash := gvcHashMsg(&p, string(sig.drv), string(pk.root), uint64(sig.seqNo), string(msg))
	want := specRoot(&p, sig, string(pk.pubSeed), mhash)
	pkb, err1 := pk.MarshalBinary()
	sigb, err2 := sig.MarshalBinary()
	gvcAssume(err1 == nil && err2 == nil)
	ok, err3 := Verify(pkb, sigb, msg)
	gvcAssert(ok == (want == string(pk.root)) && ok == (err3 == nil), "Verify accepts an encoded signature if and only if the root computed from it is that of the public key")
	ok, err3 = pk.Verify(sig, msg)
	gvcAssert(ok == (want == string(pk.root)) && ok == (err3 == nil), "PublicKey.Verify accepts a signature if and only if the root computed from it is that of the public key")
}
