package xmssmt

import "github.com/bwesterb/go-xmssmt/internal/f1600x4"

// The WOTS+ layer and the L-tree (C01, C02, C11).

// Parameters for functions to which only n and w matter; the hash function
// and PRF construction are behind contracts.
func gvcNwCtx() *Context {
	n, w := gvcNW()
	f1600x4.Available = false
	p := Params{Func: SHA2, N: n, FullHeight: 10, D: 1, WotsW: w, Prf: RFC}
	ctx, err := NewContext(p)
	gvcAssume(err == nil)
	return ctx
}

func gvcPh(ctx *Context, pubSeed, skSeed []byte) precomputedHashes {
	return ctx.precomputeHashes(pubSeed, skSeed)
}

// What functions on WOTS+ level may overwrite besides their output.
func gvcWotsFrame(ctx *Context, pad scratchPad, snap int, label string, out []byte) {
	gvcUnchanged(snap, label, out, gvcScratch(ctx, pad), pad.fX4Buf(), pad.hash.h, pad.hash.shake, pad.hash.shakeX4)
}

func gvcWotsHavoc(ctx *Context, pad scratchPad) {
	gvcHavoc(gvcScratch(ctx, pad))
	gvcHavoc(pad.fX4Buf())
	gvcX4State(pad)
}

func gvcWotsDisjoint(ctx *Context, pad scratchPad, b []byte) bool {
	return gvcDisjoint(b, gvcScratch(ctx, pad)) && gvcDisjoint(b, pad.fX4Buf())
}

//gvc:contract (*Context).genWotsSk
func cGenWotsSk(ctx *Context, pad scratchPad, ph precomputedHashes, addr address, out []byte) {
	l := int(ctx.wotsLen * ctx.p.N)
	gvcRequire(len(out) >= l, "genWotsSk: out has len * n bytes")
	gvcRequire(gvcWotsDisjoint(ctx, pad, out), "genWotsSk: out is outside the scratch space")
	sk := ""
	for i := uint32(0); i < ctx.wotsLen; i++ {
		sk += specWotsSk(&ctx.p, string(ph.skSeed), string(ph.pubSeed), addr, i)
	}
	gvcWotsHavoc(ctx, pad)
	copy(out[:l], sk)
}

//gvc:harness C01,C11
func hC01GenWotsSk() {
	ctx := gvcNwCtx()
	n := int(ctx.p.N)
	pad := gvcPad(ctx)
	ph := gvcPh(ctx, gvcBytes("pubSeed", n), gvcBytes("skSeed", n))
	addr := gvcAddr("addr")
	l := int(ctx.wotsLen) * n
	buf := gvcBytes("buf", l+2)
	gvcWatch(buf)
	out := buf[1 : l+1]
	snap := gvcSnapshot()
	ctx.genWotsSk(pad, ph, addr, out)
	for i := uint32(0); i < ctx.wotsLen; i++ {
		gvcAssert(string(out[int(i)*n:int(i+1)*n]) == specWotsSk(&ctx.p, string(ph.skSeed), string(ph.pubSeed), addr, i),
			"genWotsSk derives the secret key of chain i from the seeds and the address of the chain")
	}
	gvcWotsFrame(ctx, pad, snap, "genWotsSk writes only out and scratch space", out)
}

//gvc:contract (*Context).wotsGenChainInto
func cWotsGenChainInto(ctx *Context, pad scratchPad, in []byte, start, steps uint16, ph precomputedHashes, addr address, out []byte) {
	n := int(ctx.p.N)
	gvcRequire(len(in) == n && len(out) == n, "wotsGenChainInto: in and out have n bytes")
	gvcRequire(gvcWotsDisjoint(ctx, pad, out) && gvcWotsDisjoint(ctx, pad, in), "wotsGenChainInto: in and out are outside the scratch space")
	gvcRequire(uint32(start)+uint32(steps) < uint32(ctx.p.WotsW), "wotsGenChainInto: the chain ends before position w")
	r := gvcChain(&ctx.p, string(in), uint32(start), uint32(steps), string(ph.pubSeed), addr)
	gvcWotsHavoc(ctx, pad)
	copy(out, r)
}

// The number of steps is enumerated, the start is arbitrary.
//
//gvc:harness C01,C02,C11
func hC01WotsGenChain() {
	ctx := gvcNwCtx()
	n := int(ctx.p.N)
	w := int(ctx.p.WotsW)
	pad := gvcPad(ctx)
	ph := gvcPh(ctx, gvcBytes("pubSeed", n), nil)
	addr := gvcAddr("addr")
	steps := gvcChoose("steps", w)
	start := uint16(gvcRange("start", 0, uint64(w-1-steps)))
	buf := gvcBytes("buf", 2*n+2)
	gvcWatch(buf)
	in := buf[1 : n+1]
	out := buf[n+1 : 2*n+1]
	if gvcFork("alias", 2) == 1 {
		in = out
	}
	want := specChain(&ctx.p, string(in), uint32(start), uint32(steps), string(ph.pubSeed), addr)
	snap := gvcSnapshot()
	ctx.wotsGenChainInto(pad, in, start, uint16(steps), ph, addr, out)
	gvcAssert(string(out) == want, "wotsGenChainInto is the chaining function")
	gvcWotsFrame(ctx, pad, snap, "wotsGenChainInto writes only out and scratch space", out)
}

// Lemma: chain(chain(x, 0, a), a, b) = chain(x, 0, a + b), by induction over b
// from the definition chain(x, i, k + 1) = F(chain(x, i, k), ADRS with hash
// address i + k).
//
//gvc:harness C01,C11
func hC01ChainsCompose() {
	n, w := gvcNW()
	p := Params{Func: SHA2, N: n, FullHeight: 10, D: 1, WotsW: w, Prf: RFC}
	x := string(gvcBytes("x", int(n)))
	pubSeed := string(gvcBytes("pubSeed", int(n)))
	addr := gvcAddr("addr")
	f := func(y string, i uint32) string {
		a := addr
		a[6] = i
		return gvcF(&p, y, pubSeed, a)
	}
	ch := func(y string, i, k uint32) string { return gvcChain(&p, y, i, k, pubSeed, addr) }
	a := uint32(gvcRange("a", 0, uint64(w-1)))
	y := ch(x, 0, a)
	// definition
	gvcAssume(ch(y, a, 0) == y)
	gvcAssert(ch(y, a, 0) == ch(x, 0, a+0), "chains compose, base")
	b := uint32(gvcRange("b", 0, uint64(w-1)))
	gvcAssume(a+b+1 < uint32(w))
	// definition
	gvcAssume(ch(y, a, b+1) == f(ch(y, a, b), a+b))
	gvcAssume(ch(x, 0, a+b+1) == f(ch(x, 0, a+b), a+b))
	// induction hypothesis
	gvcAssume(ch(y, a, b) == ch(x, 0, a+b))
	gvcAssert(ch(y, a, b+1) == ch(x, 0, a+(b+1)), "chains compose, step")
}

//gvc:contract (*Context).wotsPkGenInto
func cWotsPkGenInto(ctx *Context, pad scratchPad, ph precomputedHashes, addr address, out []byte) {
	l := int(ctx.wotsLen * ctx.p.N)
	gvcRequire(len(out) >= l, "wotsPkGenInto: out has len * n bytes")
	gvcRequire(gvcWotsDisjoint(ctx, pad, out), "wotsPkGenInto: out is outside the scratch space")
	r := gvcWotsPk(&ctx.p, string(ph.skSeed), string(ph.pubSeed), addr)
	gvcWotsHavoc(ctx, pad)
	copy(out[:l], r)
}

//gvc:harness C01,C11
func hC01WotsPkGen() {
	ctx := gvcNwCtx()
	n := int(ctx.p.N)
	pad := gvcPad(ctx)
	ph := gvcPh(ctx, gvcBytes("pubSeed", n), gvcBytes("skSeed", n))
	addr := gvcAddr("addr")
	l := int(ctx.wotsLen) * n
	buf := gvcBytes("buf", l+2)
	gvcWatch(buf)
	out := buf[1 : l+1]
	if gvcFork("alias", 2) == 1 {
		out = pad.wotsBuf()
	}
	want := specWotsPk(&ctx.p, string(ph.skSeed), string(ph.pubSeed), addr)
	snap := gvcSnapshot()
	ctx.wotsPkGenInto(pad, ph, addr, out)
	gvcAssert(string(out) == want, "wotsPkGenInto returns the WOTS+ public key")
	gvcWotsFrame(ctx, pad, snap, "wotsPkGenInto writes only out and scratch space", out)
	gvcAssert(string(ctx.wotsPkGen(pad, ph, addr)) == gvcWotsPk(&ctx.p, string(ph.skSeed), string(ph.pubSeed), addr), "wotsPkGen returns the WOTS+ public key")
}

//gvc:contract (*Context).wotsChainLengths
func cWotsChainLengths(ctx *Context, msg []byte) []uint8 {
	gvcRequire(len(msg) == int(ctx.p.N), "wotsChainLengths: the message has n bytes")
	r := make([]uint8, ctx.wotsLen)
	for i, l := range gvcChainLengths(&ctx.p, string(msg)) {
		r[i] = uint8(l)
	}
	return r
}

//gvc:contract (*Context).wotsSignInto
func cWotsSignInto(ctx *Context, pad scratchPad, msg []byte, ph precomputedHashes, addr address, wotsSig []byte) {
	l := int(ctx.wotsLen * ctx.p.N)
	gvcRequire(len(msg) == int(ctx.p.N) && len(wotsSig) >= l, "wotsSignInto: the message has n bytes, the signature len * n")
	gvcRequire(gvcWotsDisjoint(ctx, pad, wotsSig), "wotsSignInto: the signature is outside the scratch space")
	r := gvcWotsSign(&ctx.p, string(msg), string(ph.skSeed), string(ph.pubSeed), addr)
	gvcWotsHavoc(ctx, pad)
	copy(wotsSig[:l], r)
}

//gvc:harness C01
func hC01WotsSign() {
	ctx := gvcNwCtx()
	n := int(ctx.p.N)
	pad := gvcPad(ctx)
	ph := gvcPh(ctx, gvcBytes("pubSeed", n), gvcBytes("skSeed", n))
	addr := gvcAddr("addr")
	msg := gvcBytes("msg", n)
	l := int(ctx.wotsLen) * n
	buf := gvcBytes("buf", l+2)
	gvcWatch(buf)
	out := buf[1 : l+1]
	want := specWotsSign(&ctx.p, string(msg), string(ph.skSeed), string(ph.pubSeed), addr)
	snap := gvcSnapshot()
	ctx.wotsSignInto(pad, msg, ph, addr, out)
	gvcAssert(string(out) == want, "wotsSignInto returns the WOTS+ signature")
	gvcWotsFrame(ctx, pad, snap, "wotsSignInto writes only the signature and scratch space", out)
}

//gvc:contract (*Context).wotsPkFromSigInto
func cWotsPkFromSigInto(ctx *Context, pad scratchPad, sig, msg []byte, ph precomputedHashes, addr address, pk []byte) {
	l := int(ctx.wotsLen * ctx.p.N)
	gvcRequire(len(msg) == int(ctx.p.N) && len(sig) == l && len(pk) >= l, "wotsPkFromSigInto: the message has n bytes, signature and public key len * n")
	gvcRequire(gvcWotsDisjoint(ctx, pad, pk) && gvcWotsDisjoint(ctx, pad, sig) && gvcDisjoint(sig, pk[:l]), "wotsPkFromSigInto: signature and public key are outside the scratch space and disjoint")
	r := gvcWotsPkFromSig(&ctx.p, string(sig), string(msg), string(ph.pubSeed), addr)
	gvcWotsHavoc(ctx, pad)
	copy(pk[:l], r)
}

//gvc:harness C01,C02
func hC02WotsPkFromSig() {
	ctx := gvcNwCtx()
	n := int(ctx.p.N)
	pad := gvcPad(ctx)
	ph := gvcPh(ctx, gvcBytes("pubSeed", n), nil)
	addr := gvcAddr("addr")
	msg := gvcBytes("msg", n)
	l := int(ctx.wotsLen) * n
	sig := gvcBytes("sig", l)
	gvcWatch(sig)
	gvcWatch(msg)
	out := pad.wotsBuf()
	want := specWotsPkFromSig(&ctx.p, string(sig), string(msg), string(ph.pubSeed), addr)
	snap := gvcSnapshot()
	ctx.wotsPkFromSigInto(pad, sig, msg, ph, addr, out)
	gvcAssert(string(out[:l]) == want, "wotsPkFromSigInto returns the WOTS+ public key of the signature")
	gvcWotsFrame(ctx, pad, snap, "wotsPkFromSigInto writes only the public key and scratch space", out)
	gvcAssert(string(ctx.wotsPkFromSig(pad, sig, msg, ph, addr)) == gvcWotsPkFromSig(&ctx.p, string(sig), string(msg), string(ph.pubSeed), addr), "wotsPkFromSig returns the WOTS+ public key of the signature")
}

// Lemma: the public key computed from an honest signature is the public key,
// chain by chain.
//
//gvc:harness C01
func hC01WotsCorrect() {
	n, w := gvcNW()
	p := Params{Func: SHA2, N: n, FullHeight: 10, D: 1, WotsW: w, Prf: RFC}
	msg := string(gvcBytes("msg", int(n)))
	pubSeed := string(gvcBytes("pubSeed", int(n)))
	skSeed := string(gvcBytes("skSeed", int(n)))
	addr := gvcAddr("addr")
	l := gvcChainLengths(&p, msg)
	i := gvcChoose("i", len(l))
	gvcAssert(l[i] <= uint32(w)-1, "positions are below w")
	a := addr
	a[5] = uint32(i)
	sk := specWotsSk(&p, skSeed, pubSeed, a, uint32(i))
	// hC01ChainsCompose with x = sk, a = l[i], b = w - 1 - l[i]
	gvcAssume(gvcChain(&p, gvcChain(&p, sk, 0, l[i], pubSeed, a), l[i], uint32(w)-1-l[i], pubSeed, a) == gvcChain(&p, sk, 0, l[i]+(uint32(w)-1-l[i]), pubSeed, a))
	sig := gvcChain(&p, sk, 0, l[i], pubSeed, a)
	pk := gvcChain(&p, sig, l[i], uint32(w)-1-l[i], pubSeed, a)
	gvcAssert(pk == gvcChain(&p, sk, 0, uint32(w)-1, pubSeed, a), "the public key of an honest signature is the signer's public key")
}

//gvc:contract (*Context).lTreeInto
func cLTreeInto(ctx *Context, pad scratchPad, wotsPk []byte, ph precomputedHashes, addr address, out []byte) {
	n := int(ctx.p.N)
	l := int(ctx.wotsLen) * n
	gvcRequire(len(wotsPk) >= l && len(out) >= n, "lTreeInto: the public key has len * n bytes, out n bytes")
	gvcRequire(gvcWotsDisjoint(ctx, pad, wotsPk) && gvcWotsDisjoint(ctx, pad, out) && gvcDisjoint(wotsPk, out), "lTreeInto: public key and out are outside the scratch space and disjoint")
	r := gvcLTree(&ctx.p, string(wotsPk[:l]), string(ph.pubSeed), addr)
	gvcWotsHavoc(ctx, pad)
	gvcHavoc(wotsPk)
	copy(out[:n], r)
}

//gvc:harness C01,C02,C11
func hC11LTree() { gvcLTreeIs(gvcNwCtx()) }

func gvcLTreeIs(ctx *Context) {
	n := int(ctx.p.N)
	pad := gvcPad(ctx)
	ph := gvcPh(ctx, gvcBytes("pubSeed", n), nil)
	addr := gvcAddr("addr")
	l := int(ctx.wotsLen) * n
	pk := pad.wotsBuf()
	gvcHavoc(pk)
	buf := gvcBytes("buf", n+2)
	gvcWatch(buf)
	out := buf[1 : n+1]
	want := specLTree(&ctx.p, string(pk[:l]), string(ph.pubSeed), addr)
	snap := gvcSnapshot()
	ctx.lTreeInto(pad, pk, ph, addr, out)
	gvcAssert(string(out) == want, "lTreeInto is the L-tree of the public key")
	gvcUnchanged(snap, "lTreeInto writes only out, the public key and scratch space", out, pk, gvcScratch(ctx, pad), pad.fX4Buf(), pad.hash.h, pad.hash.shake, pad.hash.shakeX4)
}

//gvc:contract (*Context).genLeafInto
func cGenLeafInto(ctx *Context, pad scratchPad, ph precomputedHashes, lTreeAddr, otsAddr address, out []byte) {
	n := int(ctx.p.N)
	gvcRequire(len(out) == n, "genLeafInto: out has n bytes")
	gvcRequire(gvcWotsDisjoint(ctx, pad, out) && gvcDisjoint(pad.wotsBuf(), out), "genLeafInto: out is outside the scratch space")
	pk := gvcWotsPk(&ctx.p, string(ph.skSeed), string(ph.pubSeed), otsAddr)
	r := gvcLTree(&ctx.p, pk, string(ph.pubSeed), lTreeAddr)
	gvcWotsHavoc(ctx, pad)
	gvcHavoc(pad.wotsBuf())
	copy(out, r)
}

//gvc:harness C01,C11
func hC11GenLeaf() { gvcGenLeafIs(gvcNwCtx()) }

func gvcGenLeafIs(ctx *Context) {
	n := int(ctx.p.N)
	pad := gvcPad(ctx)
	ph := gvcPh(ctx, gvcBytes("pubSeed", n), gvcBytes("skSeed", n))
	ots, lt := gvcAddr("ots"), gvcAddr("lt")
	buf := gvcBytes("buf", n+2)
	gvcWatch(buf)
	out := buf[1 : n+1]
	pk := gvcWotsPk(&ctx.p, string(ph.skSeed), string(ph.pubSeed), ots)
	want := gvcLTree(&ctx.p, pk, string(ph.pubSeed), lt)
	snap := gvcSnapshot()
	ctx.genLeafInto(pad, ph, lt, ots, out)
	gvcAssert(string(out) == want, "genLeafInto returns the L-tree of the WOTS+ public key")
	gvcUnchanged(snap, "genLeafInto writes only out and scratch space", out, pad.wotsBuf(), gvcScratch(ctx, pad), pad.fX4Buf(), pad.hash.h, pad.hash.shake, pad.hash.shakeX4)
}
