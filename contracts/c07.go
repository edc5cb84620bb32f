package xmssmt

// C07: compressed parameters.  C21: contexts and their geometry.

func gvcAnyParams() Params {
	return Params{
		Func:       HashFunc(gvcU8("Func")),
		N:          gvcU32("N"),
		FullHeight: gvcU32("FullHeight"),
		D:          gvcU32("D"),
		WotsW:      gvcU16("WotsW"),
		Prf:        PrfConstruction(gvcU8("Prf")),
	}
}

// The layout documented at Params.MarshalBinary, for parameters that fit.
func specParamsFit(p *Params) bool {
	return p.Func <= 2 && p.Prf <= 1 && p.N >= 8 && p.N <= 128 && p.N%8 == 0 &&
		p.FullHeight <= 63 && p.D <= 63 && (p.WotsW == 4 || p.WotsW == 16 || p.WotsW == 256)
}

func specParamsWord(p *Params) uint64 {
	w := uint64(0)
	if p.WotsW == 16 {
		w = 1
	} else if p.WotsW == 256 {
		w = 2
	}
	return 0xea000000 | uint64(p.Prf)<<20 | uint64(p.N/8-1)<<16 | uint64(p.Func)<<14 | w<<12 |
		uint64(p.FullHeight)<<6 | uint64(p.D)
}

//gvc:harness C07
func hC07Encode() {
	p := gvcAnyParams()
	q := p
	buf := gvcBytes("buf", 7)
	gvcWatch(buf)
	old := string(buf)
	err := p.WriteInto(buf[1:6])
	gvcAssert(p == q, "WriteInto does not change the parameters")
	if err != nil {
		gvcReach("encoding fails")
		gvcAssert(!specParamsFit(&p), "WriteInto fails only for parameters that do not fit")
	} else {
		gvcReach("encoding succeeds")
		gvcAssert(specParamsFit(&p), "WriteInto rejects parameters that do not fit the encoding")
		gvcAssert(string(buf[1:5]) == gvcBE(specParamsWord(&p), 4), "WriteInto writes the documented layout")
		gvcAssert(buf[0] == old[0] && string(buf[5:]) == old[5:], "WriteInto writes four bytes only")
		var r Params
		err = r.UnmarshalBinary(buf[1:5])
		gvcAssert(err == nil && r == p, "UnmarshalBinary inverts WriteInto")
	}
}

//gvc:harness C07
func hC07Marshal() {
	p := gvcAnyParams()
	b, err := p.MarshalBinary()
	if err != nil {
		gvcAssert(!specParamsFit(&p), "MarshalBinary fails only for parameters that do not fit")
		return
	}
	gvcAssert(specParamsFit(&p), "MarshalBinary rejects parameters that do not fit the encoding")
	gvcAssert(string(b) == gvcBE(specParamsWord(&p), 4), "MarshalBinary returns the documented layout")
	r := gvcAnyParams()
	err = r.UnmarshalBinary(b)
	gvcAssert(err == nil && r == p, "UnmarshalBinary inverts MarshalBinary, whatever the receiver held")
}

//gvc:harness C07
func hC07Decode() {
	b := gvcBytes("b", 4)
	old := string(b)
	w := gvcU64of(old)
	p := gvcAnyParams()
	err := p.UnmarshalBinary(b)
	bad := w>>24 != 0xea || w>>21&7 != 0 || w>>14&3 == 3 || w>>12&3 == 3
	if err != nil {
		gvcReach("decoding fails")
		n := w >> 16 & 15
		d := w & 63
		fh := w >> 6 & 63
		supported := !bad && (n == 1 || n == 2 || n == 3 || n == 7) && d != 0 && fh%d == 0
		gvcAssert(!supported, "UnmarshalBinary accepts supported parameters")
		return
	}
	gvcReach("decoding succeeds")
	gvcAssert(w>>24 == 0xea, "UnmarshalBinary rejects a wrong magic")
	gvcAssert(w>>21&7 == 0, "UnmarshalBinary rejects a wrong version")
	gvcAssert(w>>14&3 != 3, "UnmarshalBinary rejects a wrong hash code")
	gvcAssert(w>>12&3 != 3, "UnmarshalBinary rejects a wrong Winternitz code")
	gvcAssert(specParamsFit(&p) && specParamsWord(&p) == w, "UnmarshalBinary decodes the documented layout")
	gvcAssert(string(b) == old, "UnmarshalBinary does not write to its input")
	c, err2 := p.MarshalBinary()
	gvcAssert(err2 == nil && string(c) == old, "a decodable string re-encodes to itself")
}

//gvc:harness C07
func hC07Length() {
	n := gvcRange("n", 0, 1<<20)
	b := gvcBytes("b", 1<<20)
	var p Params
	if p.UnmarshalBinary(b[:n]) == nil {
		gvcAssert(n == 4, "UnmarshalBinary rejects strings of another length than 4")
	}
}
