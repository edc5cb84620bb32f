package xmssmt

// C08: positions on the WOTS+ chains.

// RFC 8391, algorithm 1 (base_w) for one digit.
func specDigit(x string, w uint32, lg int, i int) uint32 {
	return uint32(x[i*lg/8]) >> uint(8-lg-(i*lg)%8) & (w - 1)
}

// RFC 8391, section 3.1.5: the digits of the message followed by those of
// its checksum (shifted to the left so that it fills whole bytes).
func specChainLengths(p *Params, msg string) []uint32 {
	w := uint32(p.WotsW)
	lg := int(specLgW(p.WotsW))
	len1 := 8 * int(p.N) / lg
	len2 := int(specLen2(uint32(len1), w))
	r := make([]uint32, len1+len2)
	csum := uint32(0)
	for i := 0; i < len1; i++ {
		r[i] = specDigit(msg, w, lg, i)
		csum += w - 1 - r[i]
	}
	sum := gvcBE(uint64(csum)<<uint((8-len2*lg%8)%8), (len2*lg+7)/8)
	for j := 0; j < len2; j++ {
		r[len1+j] = specDigit(sum, w, lg, j)
	}
	return r
}

func gvcWotsCtx() *Context {
	n, w := gvcNW()
	p := Params{Func: HashFunc(gvcChoose("func", 3)), N: n, FullHeight: 10, D: 1, WotsW: w, Prf: PrfConstruction(gvcChoose("prf", 2))}
	ctx, err := NewContext(p)
	gvcAssume(err == nil)
	return ctx
}

//gvc:harness C08
func hC08ChainLengths() {
	n, w := gvcNW()
	p := Params{Func: SHA2, N: n, FullHeight: 10, D: 1, WotsW: w, Prf: RFC}
	ctx, err := NewContext(p)
	gvcAssume(err == nil)
	msg := gvcBytes("msg", int(n))
	gvcWatch(msg)
	old := string(msg)
	want := specChainLengths(&p, old)
	snap := gvcSnapshot()
	got := ctx.wotsChainLengths(msg)
	gvcUnchanged(snap, "wotsChainLengths writes only its result", got)
	gvcAssert(len(got) == len(want), "there is one position for each of the len chains")
	lg := int(specLgW(w))
	len1 := 8 * int(n) / lg
	len2 := len(want) - len1
	csum := uint32(0)
	for i := range want {
		gvcAssert(uint32(got[i]) < uint32(w), "positions are below w")
	}
	for i := 0; i < len1; i++ {
		gvcAssert(uint32(got[i]) == want[i], "the first positions are the base-w digits of the digest")
		csum += uint32(w) - 1 - uint32(got[i])
	}
	for j := 0; j < len2; j++ {
		gvcAssert(uint32(got[len1+j]) == want[len1+j], "the other positions are the base-w digits of the checksum")
	}
	// The digits determine the digest, and the checksum is complete.
	m := uint32(1)
	for j := 0; j < len2; j++ {
		m *= uint32(w)
	}
	gvcAssert(csum < m, "the checksum has len_2 digits")
	csum = gvcAbstractU32(csum)
	gvcAssume(csum < m)
	sum := gvcBE(uint64(csum)<<uint((8-len2*lg%8)%8), (len2*lg+7)/8)
	val := uint32(0)
	for j := 0; j < len2; j++ {
		val = val<<uint(lg) | specDigit(sum, uint32(w), lg, j)
	}
	gvcAssert(val == csum, "the checksum's digits determine it")
	per := 8 / lg
	for k := 0; k < int(n); k++ {
		b := uint32(0)
		for i := 0; i < per; i++ {
			b = b<<uint(lg) | uint32(got[k*per+i])
		}
		gvcAssert(b == uint32(old[k]), "the digits determine the digest")
	}
}

// Lemma: if the positions of one digest are all at most those of another,
// then the digests are equal.  By induction over the digits: gvcSums stands
// for the sums after i digits a[0] <= b[0], a[1] <= b[1], ...
type gvcSums struct {
	sa, sb uint32 // of w - 1 - digit
	same   bool   // all digits were equal
}

func (s *gvcSums) inv(i, w uint32) bool {
	return s.sb <= s.sa && s.sa <= i*(w-1) && (s.sa != s.sb || s.same)
}

func gvcDigits(w uint32) (a, b uint32) {
	a = uint32(gvcRange("a", 0, uint64(w-1)))
	b = uint32(gvcRange("b", 0, uint64(w-1)))
	gvcAssume(a <= b)
	return
}

//gvc:harness C08
func hC08NonDomination() {
	n, wc := gvcNW()
	w := uint32(wc)
	lg := int(specLgW(wc))
	len1 := 8 * n / uint32(lg)
	len2 := specLen2(len1, w)
	base := gvcSums{0, 0, true}
	gvcAssert(base.inv(0, w), "induction over the digits, base")
	s := gvcSums{gvcU32("sa"), gvcU32("sb"), gvcBool("same")}
	i := uint32(gvcRange("i", 0, uint64(len1-1)))
	if gvcFork("part", 2) == 0 {
		gvcAssume(s.inv(i, w))
		a, b := gvcDigits(w)
		s.sa += w - 1 - a
		s.sb += w - 1 - b
		s.same = s.same && a == b
		gvcAssert(s.inv(i+1, w), "induction over the digits, step: a digest with smaller digits has a larger checksum")
		return
	}
	gvcAssume(s.inv(len1, w))
	// The digits of the checksums, most significant first.
	va, vb := uint32(0), uint32(0)
	for j := uint32(0); j < len2; j++ {
		a, b := gvcDigits(w)
		va = va*w + a
		vb = vb*w + b
	}
	gvcAssume(va == s.sa && vb == s.sb)
	gvcReach("component-wise ordered positions")
	gvcAssert(s.same, "digests with component-wise ordered positions are equal")
}
