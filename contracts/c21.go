package xmssmt

// C21: contexts and their geometry.

// RFC 8391, section 3.1.1: len_2 = floor(lg(len_1 * (w - 1)) / lg(w)) + 1,
// the number of base-w digits of the largest checksum.
func specLen2(len1, w uint32) uint32 {
	var l uint32
	for m := len1 * (w - 1); m > 0; m /= w {
		l++
	}
	return l
}

func specLgW(w uint16) uint32 {
	switch w {
	case 4:
		return 2
	case 16:
		return 4
	}
	return 8
}

// The supported values of what the harnesses enumerate.
func gvcNW() (n uint32, w uint16) {
	n = [4]uint32{16, 24, 32, 64}[gvcChoose("n", 4)]
	w = [3]uint16{4, 16, 256}[gvcChoose("w", 3)]
	return
}

func specHeightsOk(n, fullHeight, d uint32) bool {
	if d == 0 || d > 63 || fullHeight > 63 || fullHeight%d != 0 {
		return false
	}
	h := fullHeight / d
	// Node offsets in a subtree have 32 bits, the index of XMSS four bytes.
	return h <= 31 && ((uint64(1)<<(h+1))-1)*uint64(n) < 1<<32
}

func specSupported(p *Params) bool {
	return p.Func <= 2 && p.Prf <= 1 && (p.N == 16 || p.N == 24 || p.N == 32 || p.N == 64) &&
		(p.WotsW == 4 || p.WotsW == 16 || p.WotsW == 256) && specHeightsOk(p.N, p.FullHeight, p.D)
}

//gvc:harness C21
func hC21Unsupported() {
	p := gvcAnyParams()
	switch gvcChoose("bad", 7) {
	case 0:
		gvcAssume(p.Func > 2)
	case 1:
		gvcAssume(p.Prf > 1)
	case 2:
		gvcAssume(p.N != 16 && p.N != 24 && p.N != 32 && p.N != 64)
	case 3:
		gvcAssume(p.WotsW != 4 && p.WotsW != 16 && p.WotsW != 256)
	case 4:
		p.D = 0
	case 5:
		p.D = uint32(1 + gvcChoose("d", 63))
		gvcAssume(p.FullHeight%p.D != 0)
	case 6:
		p.D = uint32(1 + gvcChoose("d", 63))
		gvcAssume(p.FullHeight/p.D > 31)
	}
	ctx, err := NewContext(p)
	gvcAssert(err != nil, "NewContext fails for unsupported parameters")
	gvcAssert(ctx == nil, "NewContext returns no context for unsupported parameters")
}

//gvc:harness C21
func hC21Supported() {
	n, w := gvcNW()
	d := uint32(1 + gvcChoose("d", 63))
	p := Params{Func: HashFunc(gvcU8("Func")), N: n, FullHeight: d * uint32(gvcChoose("h", int(63/d)+1)), D: d, WotsW: w, Prf: PrfConstruction(gvcU8("Prf"))}
	gvcAssume(specSupported(&p))
	ctx, err := NewContext(p)
	gvcAssert(err == nil && ctx != nil, "NewContext succeeds for supported parameters")
	gvcAssert(ctx.p == p && ctx.Params() == p, "the context has the given parameters")
	lg := specLgW(w)
	len1 := 8 * n / lg
	len2 := specLen2(len1, uint32(w))
	length := len1 + len2
	h := p.FullHeight / d
	gvcAssert(uint32(ctx.wotsLogW) == lg && uint32(p.WotsLogW()) == lg, "lg(w)")
	gvcAssert(ctx.wotsLen1 == len1 && p.WotsLen1() == len1, "len_1 = ceil(8n / lg(w))")
	gvcAssert(ctx.wotsLen2 == len2 && p.WotsLen2() == len2, "len_2 = floor(lg(len_1 * (w - 1)) / lg(w)) + 1")
	gvcAssert(ctx.wotsLen == length && p.WotsLen() == length, "len = len_1 + len_2")
	gvcAssert(ctx.wotsSigBytes == length*n && p.WotsSignatureSize() == length*n, "a WOTS+ signature has len * n bytes")
	gvcAssert(ctx.treeHeight == h, "a subtree has height h/d")
	gvcAssert(ctx.mt == (d > 1) && ctx.MT() == (d > 1), "XMSSMT if and only if d > 1")
	ib := uint32(4)
	if d > 1 {
		ib = (p.FullHeight + 7) / 8
	}
	gvcAssert(ctx.indexBytes == ib, "the index has 4 bytes for XMSS and ceil(h / 8) for XMSSMT")
	gvcAssert(ctx.sigBytes == ib+n+(p.FullHeight+d*length)*n && ctx.SignatureSize() == ctx.sigBytes, "a signature has index + n + (h + d * len) * n bytes")
	gvcAssert(ctx.pkBytes == 2*n, "a public key has 2n bytes")
	gvcAssert(ctx.skBytes == ib+4*n, "a private key has index + 4n bytes")
	if p.Prf == NIST {
		gvcAssert(ctx.prefixLen == 4, "SP 800-208 prefixes have four bytes")
	} else {
		gvcAssert(ctx.prefixLen == n, "RFC 8391 prefixes have n bytes")
	}
	gvcAssert(p.MaxSignatureSeqNo() == (uint64(1)<<p.FullHeight)-1, "the largest sequence number is 2^h - 1")
	gvcAssert(uint64(p.BareSubTreeSize()) == ((uint64(2)<<h)-1)*uint64(n), "a subtree has (2^(h/d+1) - 1) * n bytes")
	gvcAssert(uint64(p.CachedSubTreeSize()) == ((uint64(2)<<h)-1)*uint64(n)+uint64(length*n)+8, "a cached subtree also has a WOTS+ signature and a checksum")
	gvcAssert(p.PrivateKeySize() == int(3*n), "a stored private key has 3n bytes")
	gvcAssert(ctx.Threads == 0, "the number of threads is chosen automatically")
}

// Buffers derived from the geometry.
//
//gvc:harness C21
func hC21Buffers() {
	n, w := gvcNW()
	p := Params{Func: HashFunc(gvcChoose("func", 3)), N: n, FullHeight: 20, D: 2, WotsW: w, Prf: PrfConstruction(gvcChoose("prf", 2))}
	ctx, err := NewContext(p)
	gvcAssume(err == nil)
	pad := ctx.newScratchPad()
	pl := int(ctx.prefixLen)
	m := int(n)
	gvcAssert(len(pad.fBuf()) >= pl+2*m, "fBuf holds the input of F")
	gvcAssert(len(pad.hBuf()) >= pl+3*m, "hBuf holds the input of H")
	gvcAssert(len(pad.prfBuf()) >= pl+m+32, "prfBuf holds the input of PRF")
	gvcAssert(len(pad.prfKeyGenBuf()) >= pl+2*m+32, "prfKeyGenBuf holds the input of PRF_keygen")
	gvcAssert(len(pad.prfAddrBuf()) >= 32, "prfAddrBuf holds an address")
	gvcAssert(len(pad.wotsBuf()) == int(ctx.wotsLen)*m, "wotsBuf holds a WOTS+ public key")
	gvcAssert(len(pad.fX4Buf()) >= 8*m, "fX4Buf holds the keys and masks of four F")
	bufs := [][]byte{pad.fBuf(), pad.hBuf(), pad.prfKeyGenBuf(), pad.prfAddrBuf(), pad.wotsBuf(), pad.fX4Buf()}
	for i := range bufs {
		for j := range bufs {
			gvcAssert(i == j || gvcDisjoint(bufs[i], bufs[j]), "the buffers of a scratch pad do not overlap")
		}
	}
	gvcAssert(gvcDisjoint(pad.prfBuf(), pad.fBuf()) && gvcDisjoint(pad.prfBuf(), pad.hBuf()) && gvcDisjoint(pad.prfBuf(), pad.prfAddrBuf()) &&
		gvcDisjoint(pad.prfBuf(), pad.wotsBuf()) && gvcDisjoint(pad.prfBuf(), pad.fX4Buf()), "the buffer of PRF does not overlap those of its callers")
}
