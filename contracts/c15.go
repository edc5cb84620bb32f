package xmssmt

// C15: loading and deriving keys from a container (that keeps what it is told).

// The root of the tree on top: the root computed from its leaves (C11), which
// the contract of getSubTree stands for.
func gvcTopRoot(sk *PrivateKey, ctr *gvcCtr) (string, bool) {
	p := &sk.ctx.p
	for _, g := range ctr.got {
		if g.sta.Layer == p.D-1 && g.sta.Tree == 0 {
			o := specNodeOff(p, p.FullHeight/p.D, p.FullHeight/p.D, 0)
			return string(g.buf[o : o+int(p.N)]), true
		}
	}
	return "", false
}

func gvcCheckNewKey(sk *PrivateKey, pk *PublicKey, ctr *gvcCtr, p Params, skSeed, skPrf, pubSeed string) {
	gvcAssert(sk.ctx.p == p, "the key has the parameters stored")
	gvcAssert(string(sk.skSeed) == skSeed && string(sk.skPrf) == skPrf && string(sk.pubSeed) == pubSeed, "the key has the seeds stored")
	gvcAssert(string(sk.ph.skSeed) == skSeed && string(sk.ph.pubSeed) == pubSeed, "the precomputed hashes are for the seeds of the key")
	if gvcSymbolic() {
		root, ok := gvcTopRoot(sk, ctr)
		gvcAssert(ok && string(sk.root) == root, "the root is that of the tree on top")
	}
	gvcAssert(pk.ctx == sk.ctx && string(pk.root) == string(sk.root) && string(pk.pubSeed) == pubSeed && string(pk.ph.pubSeed) == pubSeed, "the public key consists of the root and the public seed")
	gvcAssert(pk.ph.skSeed == nil, "the public key contains no secret seed")
	gvcAssert(sk.ctr == PrivateKeyContainer(ctr) && !ctr.closed, "the key keeps the container open")
	gvcAssert(sk.borrowed == 0 && sk.leastSeqNoInUse == sk.seqNo && sk.retiredSeqNos.Len() == 0, "no signature is being made with a new key")
	gvcAssert(gvcSeqInv(sk, ctr) && gvcLostInv(sk, ctr), "unused numbers: all below the recorded sequence number, none used before")
	gvcAssert(!gvcHeld(&sk.mux), "the lock is released")
}

//gvc:harness C15,C03,C13,C19,C20,C22
func hC15Load() {
	p := gvcKeyParams()
	if gvcFork("parameters", 2) == 1 {
		// damaged
		switch gvcFork("damage", 4) {
		case 0:
			p.D = 0
		case 1:
			p.N = 31
		case 2:
			p.WotsW = 5
		case 3:
			p.FullHeight = 64
		}
	}
	supported := specSupported(&p)
	ctr := &gvcCtr{params: p}
	ctr.initialized = gvcBool("initialized")
	ctr.cacheInitialized = gvcBool("cache initialized")
	n := int(p.N)
	size := 3 * n
	switch gvcFork("size", 3) {
	case 1:
		size--
	case 2:
		size++
	}
	skSeed, skPrf, pubSeed, rest := gvcString("skSeed"), gvcString("skPrf"), gvcString("pubSeed"), ""
	_ = rest
	priv := gvcBytes("private key", size)
	if size == 3*n {
		skSeed, skPrf, pubSeed = string(priv[:n]), string(priv[n:2*n]), string(priv[2*n:])
	}
	ctr.priv = priv
	s := gvcU64("seqNo")
	ctr.disk, ctr.mem, ctr.floor = s, s, s
	ctr.lost = gvcU32("lost")
	ctr.memLost = ctr.lost
	for i, k := 0, gvcFork("cached subtrees", 3); i < k; i++ {
		ctr.stas = append(ctr.stas, SubTreeAddress{Layer: gvcU32("layer"), Tree: gvcU64("tree")})
		ctr.bufs = append(ctr.bufs, nil)
	}
	stas := append([]SubTreeAddress(nil), ctr.stas...)
	ctr.faults = true
	if !gvcSymbolic() {
		ctr.stas, ctr.bufs, stas = nil, nil, nil
	}
	wasInit := ctr.cacheInitialized
	sk, pk, lost, err := LoadPrivateKeyFrom(ctr)
	ok := ctr.initialized && supported && size == 3*n && s <= uint64(1)<<(p.FullHeight&63)-1 && !ctr.failed
	gvcAssert((err == nil) == ok, "a key is loaded if and only if the container holds one")
	gvcAssert(ctr.writes == 0, "loading records no sequence number")
	if err != nil {
		gvcAssert(sk == nil && pk == nil, "no key is returned together with an error")
		gvcAssert(ctr.closes == 1, "the container is closed if loading fails")
		return
	}
	gvcAssert(uint64(sk.seqNo) == s, "signing continues where it stopped")
	gvcAssert(lost == ctr.lost, "the number of lost signatures is that of the container")
	gvcAssert(ctr.cacheInitialized, "the cache is initialized")
	gvcCheckNewKey(sk, pk, ctr, p, skSeed, skPrf, pubSeed)
	for _, a := range stas {
		if wasInit {
			gvcAssert(sk.subTreeReady[a] && !sk.subTreeChecked[a], "a cached subtree is not trusted until it is checked")
		}
	}
}

//gvc:harness C15,C03,C19,C22
func hC15Derive() {
	p := gvcKeyParams()
	ctx, err := NewContext(p)
	gvcAssume(err == nil)
	n := int(p.N)
	sizes := [3]int{n, n, n}
	if k := gvcFork("size", 4); k > 0 {
		sizes[k-1] += gvcFork("longer", 2)*2 - 1
	}
	pubSeed, skSeed, skPrf := gvcBytes("pubSeed", sizes[0]), gvcBytes("skSeed", sizes[1]), gvcBytes("skPrf", sizes[2])
	a, b, c := string(skSeed), string(skPrf), string(pubSeed)
	ctr := &gvcCtr{initialized: gvcBool("initialized"), cacheInitialized: gvcBool("cache initialized")}
	ctr.disk, ctr.mem, ctr.lost, ctr.memLost = gvcU64("disk"), gvcU64("mem"), gvcU32("lost"), gvcU32("mem lost")
	ctr.faults = true
	sk, pk, err := ctx.DeriveInto(ctr, pubSeed, skSeed, skPrf)
	if sizes[0] != n || sizes[1] != n || sizes[2] != n {
		gvcAssert(err != nil && ctr.priv == nil, "seeds of the wrong length are rejected")
		return
	}
	// The last subtree is generated ahead of time: whether this works does not
	// matter.
	failed := ctr.failed && !(gvcSymbolic() && ctr.failDepth == 2)
	gvcAssert(err != nil || !failed || !gvcSymbolic(), "deriving a key fails if the container does")
	gvcAssert(err == nil || ctr.failed, "deriving a key fails only if the container does")
	if err != nil {
		gvcAssert(sk == nil && pk == nil, "no key is returned together with an error")
		return
	}
	gvcAssert(string(ctr.priv) == a+b+c && ctr.params == p, "the container is told the parameters and seeds")
	gvcAssert(sk.seqNo == 0, "a new key starts with sequence number 0")
	gvcCheckNewKey(sk, pk, ctr, p, a, b, c)
}

// gvcOpened is the container that opening a path yields, or nil if opening
// fails.
var gvcOpened *gvcCtr
var gvcOpens int

//gvc:contract OpenFSPrivateKeyContainer
func cOpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
	gvcOpens++
	if gvcOpened == nil {
		return nil, errorf("cannot open")
	}
	return gvcOpened, nil
}

var gvcRandoms []string

//gvc:model crypto/rand.Read
func gvcRandRead(b []byte) (n int, err error) {
	if gvcFork("rand", 2) == 1 {
		return 0, errorf("no randomness")
	}
	r := gvcBytes("random", len(b))
	copy(b, r)
	gvcRandoms = append(gvcRandoms, string(r))
	return len(b), nil
}

// The functions that take a path.
//
//gvc:harness C15,C03,C17,C22 noexec
func hC15Files() {
	p := Params{Func: SHA2, N: 32, WotsW: 16, FullHeight: 4, D: 2, Prf: RFC}
	n := 32
	var ctr *gvcCtr
	if gvcFork("open fails", 2) == 0 {
		ctr = &gvcCtr{params: p, initialized: true, cacheInitialized: true, faults: true}
		ctr.priv = gvcBytes("private key", 3*n)
		s := gvcU64("seqNo")
		ctr.disk, ctr.mem, ctr.floor = s, s, s
		ctr.lost = gvcU32("lost")
	}
	gvcOpened = ctr
	gvcOpens = 0
	gvcRandoms = nil
	var sk *PrivateKey
	var pk *PublicKey
	var err Error
	var lost uint32
	method := gvcFork("method", 4)
	switch method {
	case 0:
		sk, pk, lost, err = LoadPrivateKey("key")
	case 1:
		a, b, c := gvcBytes("pubSeed", n), gvcBytes("skSeed", n), gvcBytes("skPrf", n)
		ctx, _ := NewContext(p)
		sk, pk, err = ctx.Derive("key", a, b, c)
		gvcRandoms = []string{string(a), string(b), string(c)}
	case 2:
		sk, pk, err = GenerateKeyPair("XMSSMT-SHA2_4/2_256", "key")
	case 3:
		var sig []byte
		max := uint64(1)<<4 - 1
		s := uint64(0)
		if ctr != nil {
			s = ctr.disk
		}
		sig, err = Sign("key", gvcBytes("msg", 10))
		gvcAssert((err == nil) == (ctr != nil && !ctr.failed && s < max), "Sign fails if and only if the container does, or the key is exhausted")
		gvcAssert((sig == nil) == (err != nil), "there is a signature or an error")
		if ctr != nil {
			gvcAssert(ctr.closes == 1, "Sign closes the container")
			if err == nil {
				gvcAssert(ctr.disk == s+1, "a larger sequence number is recorded before a signature is released")
				ctx, _ := NewContext(p)
				gvcAssert(uint32(len(sig)) == ctx.SignatureSize()+4 && string(sig[4:6-1]) == gvcBE(s, 1), "the signature carries the sequence number stored")
			}
		}
		return
	}
	if ctr == nil {
		gvcAssert(err != nil && gvcOpens <= 1, "an error is returned if the container cannot be opened")
		return
	}
	if err != nil {
		gvcAssert(sk == nil && pk == nil, "no key is returned together with an error")
		gvcAssert(gvcOpens == 0 || ctr.closes >= 1, "the container is closed on failure")
		return
	}
	gvcAssert(gvcOpens == 1 && ctr.closes == 0 && sk != nil && pk != nil, "the key keeps the container open")
	if method == 0 {
		gvcAssert(lost == ctr.lost && uint64(sk.seqNo) == ctr.disk, "signing continues where it stopped")
		return
	}
	gvcAssert(len(gvcRandoms) == 3, "three seeds are chosen at random")
	gvcAssert(string(sk.pubSeed) == gvcRandoms[0] && string(sk.skSeed) == gvcRandoms[1] && string(sk.skPrf) == gvcRandoms[2] ||
		gvcRandoms[0] == gvcRandoms[1] || gvcRandoms[1] == gvcRandoms[2] || gvcRandoms[0] == gvcRandoms[2] || gvcSeedsDistinct(sk), "the seeds are independent")
	gvcAssert(string(ctr.priv) == string(sk.skSeed)+string(sk.skPrf)+string(sk.pubSeed) && ctr.params == p, "the seeds and parameters are stored")
}

// The seeds are the three random strings in some order.
func gvcSeedsDistinct(sk *PrivateKey) bool {
	var used [3]int
	for _, s := range [3]string{string(sk.pubSeed), string(sk.skSeed), string(sk.skPrf)} {
		for i := range gvcRandoms {
			if s == gvcRandoms[i] {
				used[i]++
			}
		}
	}
	return used[0] == 1 && used[1] == 1 && used[2] == 1
}
