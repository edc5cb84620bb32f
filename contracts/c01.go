package xmssmt

// C01: signing.

// Offset of node i at the given height of a subtree of height h in its buffer:
// first the leaves, then their parents, and so on.
func specNodeOff(p *Params, h, height, i uint32) int {
	return int(p.N) * (int(uint64(1)<<(h+1)-uint64(1)<<(h+1-height)) + int(i))
}

// The authentication path: the siblings of the nodes on the way to the root.
func specAuthPath(p *Params, tree []byte, leaf uint32) (r string) {
	h := p.FullHeight / p.D
	for i := uint32(0); i < h; i++ {
		o := specNodeOff(p, h, i, leaf>>i^1)
		r += string(tree[o : o+int(p.N)])
	}
	return
}

// The signature consists of what RFC 8391, algorithm 16 prescribes, given the
// subtrees (C11, C13).
//
//gvc:harness C01,C03,C14,C18,C19,C22
func hC01SignFrom() {
	p := gvcKeyParams()
	sk, ctr := gvcAnyKey(p, false)
	ctr.faults = true
	msg := gvcString("msg")
	rd := &gvcReader{s: msg, err: gvcReadError()}
	s0, w0 := uint64(sk.seqNo), sk.borrowed
	skSeed, skPrf, pubSeed := string(sk.skSeed), string(sk.skPrf), string(sk.pubSeed)
	root := string(sk.root)
	ctr.signing = s0
	sig, err := sk.SignFrom(rd)
	gvcAssert(string(sk.skSeed) == skSeed && string(sk.skPrf) == skPrf && string(sk.pubSeed) == pubSeed && string(sk.root) == root, "signing leaves the seeds and the root of the key alone")
	gvcAssert(!gvcHeld(&sk.mux), "the lock is released")
	max := uint64(1)<<p.FullHeight - 1
	if s0 >= max {
		gvcAssert(err != nil && sig == nil, "an exhausted key does not sign")
		gvcAssert(uint64(sk.seqNo) == s0 && sk.borrowed == w0 && ctr.writes == 0 && len(ctr.retired) == 0, "a failing attempt to sign with an exhausted key changes nothing")
		return
	}
	gvcAssert((err != nil) == (ctr.failed || rd.err != nil), "signing fails if and only if the container or reading the message does")
	gvcAssert((sig == nil) == (err != nil), "there is a signature or an error")
	if !gvcSymbolic() {
		// The contracts of getSubTree and retireSeqNo are not used when running.
		sk.wg.Wait()
		if err == nil {
			gvcAssert(uint64(sig.seqNo) == s0 && ctr.disk > s0, "the signature carries the sequence number taken")
			gvcAssert(string(sig.drv) == gvcPrf(&p, skPrf, gvcBE(s0, 32)), "r = PRF(SK_PRF, toByte(idx, 32))")
			good, _ := sk.PublicKey().Verify(sig, []byte(msg))
			gvcAssert(good, "the signature verifies")
		}
		gvcAssert(sk.UnretiredSeqNos() == uint32(uint64(sk.seqNo)-uint64(sk.leastSeqNoInUse)) && sk.retiredSeqNos.Len() == 0, "the sequence number is retired")
		return
	}
	if err != nil {
		for _, s := range ctr.retired {
			gvcAssert(uint64(s) == s0 && len(ctr.retired) == 1, "a failed signature is finished at most once")
		}
		gvcAssert(uint64(sk.seqNo) == s0 || len(ctr.retired) == 1, "a failed signature is finished if it took a sequence number")
		return
	}
	gvcAssert(len(ctr.retired) == 1 && uint64(ctr.retired[0]) == s0, "the sequence number of a signature is retired once")
	idx := uint64(sig.seqNo)
	gvcAssert(idx == s0, "the signature carries the sequence number taken")
	gvcAssert(ctr.disk > idx && uint64(sk.seqNo) > idx, "a larger sequence number is recorded before a signature is released")
	gvcAssert(sig.ctx == sk.ctx, "the signature is for the parameters of the key")
	gvcAssert(string(sig.drv) == gvcPrf(&p, skPrf, gvcBE(idx, 32)), "r = PRF(SK_PRF, toByte(idx, 32))")
	gvcAssert(len(sig.sigs) == int(p.D), "there is a reduced signature for every layer")
	mhash := gvcHashMsg(&p, string(sig.drv), root, idx, msg)
	h := p.FullHeight / p.D
	gvcAssert(len(ctr.got) >= int(p.D), "every subtree on the path is used")
	for j := uint32(0); j < p.D; j++ {
		t := gvcSubTree{}
		found := false
		for _, g := range ctr.got {
			if g.sta.Layer == j && g.sta.Tree == idx>>((j+1)*h) {
				t, found = g, true
			}
		}
		gvcAssert(found, "the subtree used on a layer is the one the sequence number selects")
		if !found {
			return
		}
		leaf := uint32(idx >> (j * h) & (1<<h - 1))
		gvcAssert(string(sig.sigs[j].authPath) == t.auth, "the authentication path is that of the leaf")
		if j > 0 {
			below := gvcSubTree{}
			for _, g := range ctr.got {
				if g.sta.Layer == j-1 {
					below = g
				}
			}
			gvcAssert(string(sig.sigs[j].wotsSig) == below.wotsSig, "a layer signs the root of the subtree below it")
		} else {
			ots := specSubTreeAddr(0, idx>>h, 0)
			ots[4] = leaf
			gvcAssert(string(sig.sigs[0].wotsSig) == gvcWotsSign(&p, mhash, skSeed, pubSeed, ots), "the lowest layer signs the hash of the message with the key pair of the sequence number")
		}
	}
}

// Lemma: climbing from node i of a level with its sibling gives node i/2 of
// the next level, if the nodes satisfy the equation of the tree hash
// (hC11SubTree).
//
//gvc:harness C01
func hC01Climb() {
	n, w := gvcNW()
	p := Params{Func: SHA2, N: n, FullHeight: 62, D: 2, WotsW: w, Prf: RFC}
	k := uint32(gvcChoose("level", 31))
	left, right := string(gvcBytes("left", int(n))), string(gvcBytes("right", int(n)))
	pubSeed := string(gvcBytes("pubSeed", int(n)))
	layer, tree, leaf := gvcU32("layer"), gvcU64("tree"), gvcU32("leaf")
	parent := specNode(&p, left, right, pubSeed, layer, tree, k+1, leaf>>k>>1)
	node, sib := left, right
	if i := leaf >> k; i^1 < i {
		node, sib = right, left
	}
	gvcAssert(specClimb(&p, node, sib, pubSeed, specSubTreeAddr(layer, tree, 2), k, leaf) == parent, "climbing from a node of an honest tree gives its parent")
}

// Lemma: the root computed from the honest signature of a subtree on m is the
// root of the subtree.  Honest means: the leaf is the L-tree of the WOTS+
// public key (hC11GenLeaf), the nodes above it satisfy the equation of the
// tree hash (hC11SubTree, hC01Climb), the authentication path consists of the
// siblings (hC11AuthPath).  As each layer signs the root of the subtree below
// it (hC01SignFrom, hC13GetSubTree), specRoot of the whole signature is the
// root of the topmost subtree, by induction on the layers; and by hC02Verify
// the signature is accepted.
//
//gvc:harness C01
func hC01Honest() {
	n, w := gvcNW()
	h := uint32(gvcChoose("h", 2)) // the levels are independent: hC01Climb
	p := Params{Func: SHA2, N: n, FullHeight: h, D: 1, WotsW: w, Prf: RFC}
	pubSeed, skSeed := string(gvcBytes("pubSeed", int(n))), string(gvcBytes("skSeed", int(n)))
	m := string(gvcBytes("m", int(n)))
	auth := string(gvcBytes("auth", int(n*h)))
	layer, tree, leaf := gvcU32("layer"), gvcU64("tree"), gvcU32("leaf")
	ots, lt := specSubTreeAddr(layer, tree, 0), specSubTreeAddr(layer, tree, 1)
	ots[4], lt[4] = leaf, leaf
	sig := gvcWotsSign(&p, m, skSeed, pubSeed, ots)
	pk := gvcWotsPk(&p, skSeed, pubSeed, ots)
	if !gvcWotsIsCorrect(&p, sig, m, pubSeed, ots, pk) {
		return
	}
	root := gvcLTree(&p, pk, pubSeed, lt)
	for k := uint32(0); k < h; k++ {
		root = specClimb(&p, root, auth[k*n:(k+1)*n], pubSeed, specSubTreeAddr(layer, tree, 2), k, leaf)
	}
	gvcAssert(specSubTreeRoot(&p, sig, auth, m, pubSeed, layer, tree, leaf) == root, "the root computed from an honest signature is that of the subtree")
}

// hC01WotsCorrect
func gvcWotsIsCorrect(p *Params, sig, m, pubSeed string, ots address, pk string) bool {
	same := gvcWotsPkFromSig(p, sig, m, pubSeed, ots) == pk
	gvcAssume(same)
	return same
}
