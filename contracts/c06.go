package xmssmt

// C06: encodings of signatures and public keys.

// Parameter sets: n, w, d and the height of the subtrees are enumerated,
// the hash function and PRF construction are unknown.
func gvcCodecParams() Params {
	n, w := gvcNW()
	d := uint32(1 + gvcChoose("d", 63))
	p := Params{Func: HashFunc(gvcRange("Func", 0, 2)), N: n, FullHeight: d * uint32(gvcChoose("h", int(63/d)+1)), D: d, WotsW: w, Prf: PrfConstruction(gvcRange("Prf", 0, 1))}
	gvcAssume(specSupported(&p))
	return p
}

// RFC 8391: index (4 bytes for XMSS, ceil(h/8) for XMSSMT), randomizer, and
// for each layer the WOTS+ signature and the authentication path.
func specSigLayout(p *Params) (index, wots, auth int) {
	index = 4
	if p.D > 1 {
		index = int(p.FullHeight+7) / 8
	}
	n := int(p.N)
	lg := specLgW(p.WotsW)
	len1 := 8 * p.N / lg
	wots = int(len1+specLen2(len1, uint32(p.WotsW))) * n
	auth = int(p.FullHeight/p.D) * n
	return
}

// A signature with unknown content.
func gvcSignature(ctx *Context) *Signature {
	return gvcAnySignature(ctx, gvcRange("seqNo", 0, (uint64(1)<<ctx.p.FullHeight)-1))
}

func gvcAnySignature(ctx *Context, seqNo uint64) *Signature {
	_, wots, auth := specSigLayout(&ctx.p)
	sig := &Signature{ctx: ctx, seqNo: SignatureSeqNo(seqNo), drv: gvcBytes("drv", int(ctx.p.N))}
	for i := uint32(0); i < ctx.p.D; i++ {
		sig.sigs = append(sig.sigs, subTreeSig{wotsSig: gvcBytes("wotsSig", wots), authPath: gvcBytes("authPath", auth)})
	}
	return sig
}

func gvcSameSig(a, b *Signature) bool {
	return a.ctx.p == b.ctx.p && a.seqNo == b.seqNo && string(a.drv) == string(b.drv) && len(a.sigs) == len(b.sigs)
}

//gvc:harness C06
func hC06Signature() {
	p := gvcCodecParams()
	ctx, err := NewContext(p)
	gvcAssume(err == nil)
	sig := gvcSignature(ctx)
	buf, err2 := sig.MarshalBinary()
	gvcAssert(err2 == nil, "MarshalBinary succeeds")
	index, wots, auth := specSigLayout(&p)
	n := int(p.N)
	size := 4 + index + n + int(p.D)*(wots+auth)
	gvcAssert(len(buf) == size && uint32(len(buf)) == 4+ctx.SignatureSize(), "the encoding has the advertised length")
	gvcAssert(string(buf[:4]) == gvcBE(specParamsWord(&p), 4), "the encoding starts with the compressed parameters")
	gvcAssert(string(buf[4:4+index]) == gvcBE(uint64(sig.seqNo), index), "the sequence number is encoded big-endian")
	o := 4 + index
	gvcAssert(string(buf[o:o+n]) == string(sig.drv), "the randomizer follows the sequence number")
	o += n
	for i := range sig.sigs {
		gvcAssert(string(buf[o:o+wots]) == string(sig.sigs[i].wotsSig), "each layer has its WOTS+ signature")
		o += wots
		gvcAssert(string(buf[o:o+auth]) == string(sig.sigs[i].authPath), "each layer has its authentication path after the WOTS+ signature")
		o += auth
	}
	var r Signature
	err2 = r.UnmarshalBinary(buf)
	gvcAssert(err2 == nil, "the encoding of a signature can be decoded")
	gvcAssert(gvcSameSig(&r, sig), "decoding returns the parameters, sequence number and randomizer")
	for i := range sig.sigs {
		gvcAssert(string(r.sigs[i].wotsSig) == string(sig.sigs[i].wotsSig), "decoding returns the WOTS+ signatures")
		gvcAssert(string(r.sigs[i].authPath) == string(sig.sigs[i].authPath), "decoding returns the authentication paths")
	}
	gvcAssert(r.SeqNo() == sig.seqNo, "SeqNo returns the sequence number")
}

//gvc:harness C06
func hC06SignatureDecode() {
	p := gvcCodecParams()
	ctx, err := NewContext(p)
	gvcAssume(err == nil)
	index, wots, auth := specSigLayout(&p)
	size := 4 + index + int(p.N) + int(p.D)*(wots+auth)
	all := gvcBytes("buf", size+1)
	copy(all, gvcBE(specParamsWord(&p), 4))
	var sig Signature
	switch gvcFork("length", 3) {
	case 0:
		gvcAssert(sig.UnmarshalBinary(all) != nil, "a longer string is not a signature")
	case 1:
		l := int(gvcRange("l", 0, uint64(size-1)))
		gvcAssert(sig.UnmarshalBinary(all[:l]) != nil, "a shorter string is not a signature")
	case 2:
		buf := all[:size]
		old := string(buf)
		err2 := sig.UnmarshalBinary(buf)
		gvcAssert(err2 == nil, "a string of the right length can be decoded")
		gvcAssert(string(buf) == old, "decoding does not write to its input")
		gvcAssert(sig.ctx.p == p, "decoding returns the parameters")
		c, err3 := sig.MarshalBinary()
		gvcAssert(err3 == nil && string(c) == old, "a decodable string re-encodes to itself")
		gvcHavoc(buf)
		c, err3 = sig.MarshalBinary()
		gvcAssert(err3 == nil && string(c) == old, "the decoded signature is independent of the input buffer")
	}
	_ = ctx
}

// Public keys: their encoding depends on n and the compressed parameters.
func gvcPkParams() Params {
	if gvcThorough() {
		return gvcCodecParams()
	}
	n, w := gvcNW()
	d := [5]uint32{1, 2, 8, 31, 63}[gvcChoose("d", 5)]
	h := [4]uint32{0, 1, 10, 20}[gvcChoose("h", 4)]
	p := Params{Func: HashFunc(gvcRange("Func", 0, 2)), N: n, FullHeight: d * h, D: d, WotsW: w, Prf: PrfConstruction(gvcRange("Prf", 0, 1))}
	gvcAssume(specSupported(&p))
	return p
}

//gvc:harness C06
func hC06PublicKey() {
	p := gvcPkParams()
	ctx, err := NewContext(p)
	gvcAssume(err == nil)
	n := int(p.N)
	pk := &PublicKey{ctx: ctx, root: gvcBytes("root", n), pubSeed: gvcBytes("pubSeed", n)}
	pk.ph = ctx.precomputeHashes(pk.pubSeed, nil)
	buf, err2 := pk.MarshalBinary()
	gvcAssert(err2 == nil, "MarshalBinary succeeds")
	want := gvcBE(specParamsWord(&p), 4) + string(pk.root) + string(pk.pubSeed)
	gvcAssert(string(buf) == want, "a public key is encoded as parameters, root, public seed")
	b2 := gvcBytes("b2", 4+2*n)
	gvcAssert(pk.WriteInto(b2) == nil && string(b2) == want, "WriteInto writes what MarshalBinary returns")
	var r PublicKey
	err2 = r.UnmarshalBinary(buf)
	gvcAssert(err2 == nil, "the encoding of a public key can be decoded")
	gvcAssert(r.ctx.p == p && string(r.root) == string(pk.root) && string(r.pubSeed) == string(pk.pubSeed), "decoding returns the public key")
	text, err3 := pk.MarshalText()
	gvcAssert(err3 == nil, "MarshalText succeeds")
	var t PublicKey
	err3 = t.UnmarshalText(text)
	gvcAssert(err3 == nil, "the text of a public key can be decoded")
	gvcAssert(t.ctx.p == p && string(t.root) == string(pk.root) && string(t.pubSeed) == string(pk.pubSeed), "decoding the text returns the public key")
}

//gvc:harness C06
func hC06PublicKeyDecode() {
	p := gvcPkParams()
	n := int(p.N)
	all := gvcBytes("buf", 4+2*n+1)
	copy(all, gvcBE(specParamsWord(&p), 4))
	var pk PublicKey
	l := int(gvcRange("l", 0, uint64(4+2*n+1)))
	err := pk.UnmarshalBinary(all[:l])
	if l != 4+2*n {
		gvcAssert(err != nil, "a string of the wrong length is not a public key")
		return
	}
	gvcAssert(err == nil, "a string of the right length can be decoded")
	buf := all[:4+2*n]
	old := string(buf)
	c, err2 := pk.MarshalBinary()
	gvcAssert(err2 == nil && string(c) == old, "a decodable string re-encodes to itself")
	gvcHavoc(buf)
	c, err2 = pk.MarshalBinary()
	gvcAssert(err2 == nil && string(c) == old, "the decoded public key is independent of the input buffer")
}
