package xmssmt

// C05: untrusted bytes.  That nothing panics are obligations of their own.

// Decoding strings that do not start with supported parameters.
//
//gvc:harness C05
func hC05Unsupported() {
	var d uint64
	if gvcThorough() {
		d = uint64(gvcChoose("d", 64))
	} else {
		d = [16]uint64{0, 1, 2, 3, 4, 5, 6, 8, 12, 16, 20, 31, 32, 33, 60, 63}[gvcChoose("d", 16)]
	}
	word := gvcU64("word")&0xffffffff&^63 | d
	w := word
	fits := w>>24 == 0xea && w>>21&7 == 0 && w>>14&3 != 3 && w>>12&3 != 3
	if fits {
		p := Params{Func: HashFunc(w >> 14 & 3), N: uint32(w>>16&15+1) * 8, WotsW: [4]uint16{4, 16, 256, 0}[w>>12&3],
			FullHeight: uint32(w >> 6 & 63), D: uint32(d), Prf: PrfConstruction(w >> 20 & 1)}
		gvcAssume(!specSupported(&p))
	}
	all := gvcBytes("buf", 1<<20)
	copy(all, gvcBE(word, 4))
	buf := all[:gvcRange("len", 0, 1<<20)]
	var sig Signature
	gvcAssert(sig.UnmarshalBinary(buf) != nil, "a string without supported parameters is not a signature")
	var pk PublicKey
	gvcAssert(pk.UnmarshalBinary(buf) != nil, "a string without supported parameters is not a public key")
	var p Params
	gvcAssert((p.UnmarshalBinary(buf) == nil) == (fits && len(buf) == 4), "parameters of the wrong length or layout are rejected")
	if d == 5 {
		ok, err := Verify(buf, buf, nil)
		gvcAssert(!ok && err != nil, "Verify rejects strings without supported parameters")
	}
}

//gvc:harness C05
func hC05Supported() {
	p := gvcTreeParams()
	p.Func, p.Prf = HashFunc(gvcRange("Func", 0, 2)), PrfConstruction(gvcRange("Prf", 0, 1))
	index, wots, auth := specSigLayout(&p)
	n := int(p.N)
	size := 4 + index + n + int(p.D)*(wots+auth)
	sb := gvcBytes("sig", size+1)
	pb := gvcBytes("pk", 4+2*n+1)
	word := gvcBE(specParamsWord(&p), 4)
	copy(sb, word)
	copy(pb, word)
	var sig Signature
	var pk PublicKey
	l := int(gvcRange("l", 0, uint64(size+1)))
	err := sig.UnmarshalBinary(sb[:l])
	gvcAssert((err == nil) == (l == size), "a signature is rejected if it does not have the advertised length")
	m := int(gvcRange("m", 0, uint64(len(pb))))
	err = pk.UnmarshalBinary(pb[:m])
	gvcAssert((err == nil) == (m == 4+2*n), "a public key is rejected if it does not have 4 + 2n bytes")
}

// Verifying what was decoded from arbitrary bytes, whatever the index.
//
//gvc:harness C05
func hC05Verify() {
	p := gvcTreeParams()
	ctx, err := NewContext(p)
	gvcAssume(err == nil)
	index, wots, auth := specSigLayout(&p)
	n := int(p.N)
	sb := gvcBytes("sig", 4+index+n+int(p.D)*(wots+auth))
	pb := gvcBytes("pk", 4+2*n)
	word := gvcBE(specParamsWord(&p), 4)
	copy(sb, word)
	copy(pb, word)
	ok, err2 := Verify(pb, sb, gvcBytes("msg", 3))
	gvcAssert(ok == (err2 == nil), "Verify returns either true or an error")
	_ = ctx
}

//gvc:harness C05
func hC05Text() {
	var pk PublicKey
	if gvcFork("text", 2) == 0 {
		gvcAssert(pk.UnmarshalText(gvcBytes("text", 60)) != nil, "a text that is not base 64 is not a public key")
		return
	}
	p := [3]Params{{SHA2, 32, 4, 2, 16, RFC}, {SHAKE, 64, 10, 1, 4, RFC}, {SHAKE256, 24, 6, 3, 256, NIST}}[gvcChoose("params", 3)]
	l := gvcChoose("len", 4+2*64+2)
	b := gvcBytes("b", l)
	copy(b, gvcBE(specParamsWord(&p), 4))
	err := pk.UnmarshalText([]byte(gvcBase64Std(b)))
	gvcAssert((err == nil) == (l == 4+2*int(p.N)), "a text of the wrong length is not a public key")
}
