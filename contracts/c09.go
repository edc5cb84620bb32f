package xmssmt

import "io"

// C09: hash functions and PRFs.

// The parameter sets as far as hashing is concerned.
func gvcHashCtx() *Context {
	c := gvcChoose("params", 24)
	p := Params{
		Func:       HashFunc(c % 3),
		N:          [4]uint32{16, 24, 32, 64}[c/3%4],
		WotsW:      16,
		FullHeight: 10,
		D:          1,
		Prf:        PrfConstruction(c / 12),
	}
	ctx, err := NewContext(p)
	gvcAssume(err == nil)
	return ctx
}

func gvcAddr(name string) (a address) {
	for i := 0; i < 8; i++ {
		a[i] = gvcU32(name)
	}
	return
}

// scratchpad with arbitrary content
func gvcPad(ctx *Context) scratchPad {
	pad := ctx.newScratchPad()
	gvcHavoc(pad.buf)
	gvcWatch(pad.buf)
	return pad
}

// what hash functions may overwrite besides their output
func gvcScratch(ctx *Context, pad scratchPad) []byte {
	return pad.buf[:10*int(ctx.p.N)+64]
}

func gvcHashFrame(ctx *Context, pad scratchPad, snap int, label string, out []byte) {
	gvcUnchanged(snap, label, out, gvcScratch(ctx, pad), pad.hash.h, pad.hash.shake)
}

//gvc:contract (*Context).fInto
func cFInto(ctx *Context, pad scratchPad, in []byte, ph precomputedHashes, addr address, out []byte) {
	n := int(ctx.p.N)
	s := gvcScratch(ctx, pad)
	gvcRequire(len(in) >= n && len(out) >= n, "fInto: in and out have n bytes")
	gvcRequire(gvcDisjoint(in, s) && gvcDisjoint(out, s), "fInto: in and out are outside the scratch space")
	r := gvcF(&ctx.p, string(in[:n]), string(ph.pubSeed), addr)
	gvcHavoc(s)
	copy(out[:n], r)
}

//gvc:contract (*Context).hInto
func cHInto(ctx *Context, pad scratchPad, left, right []byte, ph precomputedHashes, addr address, out []byte) {
	n := int(ctx.p.N)
	s := gvcScratch(ctx, pad)
	gvcRequire(len(left) >= n && len(right) >= n && len(out) >= n, "hInto: left, right and out have n bytes")
	gvcRequire(gvcDisjoint(left, s) && gvcDisjoint(right, s) && gvcDisjoint(out, s), "hInto: left, right and out are outside the scratch space")
	r := gvcH(&ctx.p, string(left[:n]), string(right[:n]), string(ph.pubSeed), addr)
	gvcHavoc(s)
	copy(out[:n], r)
}

//gvc:harness C09
func hC09FInto() {
	ctx := gvcHashCtx()
	n := int(ctx.p.N)
	pad := gvcPad(ctx)
	pubSeed := gvcBytes("pubSeed", n)
	ph := ctx.precomputeHashes(pubSeed, nil)
	addr := gvcAddr("addr")
	buf := gvcBytes("buf", 4*n)
	gvcWatch(buf)
	out := buf[n : 2*n]
	in := buf[2*n : 3*n]
	if gvcFork("alias", 2) == 1 {
		in = out
	}
	want := specF(&ctx.p, string(in), string(pubSeed), addr)
	snap := gvcSnapshot()
	ctx.fInto(pad, in, ph, addr, out)
	gvcAssert(string(out) == want, "fInto returns F(SEED, in, ADRS)")
	gvcHashFrame(ctx, pad, snap, "fInto writes only out and scratch space", out)
}

//gvc:harness C09
func hC09HInto() {
	ctx := gvcHashCtx()
	n := int(ctx.p.N)
	pad := gvcPad(ctx)
	pubSeed := gvcBytes("pubSeed", n)
	ph := ctx.precomputeHashes(pubSeed, nil)
	addr := gvcAddr("addr")
	buf := gvcBytes("buf", 5*n)
	gvcWatch(buf)
	left := buf[n : 2*n]
	right := buf[2*n : 3*n]
	out := buf[3*n : 4*n]
	switch gvcFork("alias", 3) {
	case 1:
		out = left
	case 2:
		out = right
	}
	want := specH(&ctx.p, string(left), string(right), string(pubSeed), addr)
	snap := gvcSnapshot()
	ctx.hInto(pad, left, right, ph, addr, out)
	gvcAssert(string(out) == want, "hInto returns RAND_HASH(left, right, SEED, ADRS)")
	gvcHashFrame(ctx, pad, snap, "hInto writes only out and scratch space", out)
}

//gvc:contract (*Context).prfUint64Into
func cPrfUint64Into(ctx *Context, pad scratchPad, i uint64, key, out []byte) {
	n := int(ctx.p.N)
	s := gvcScratch(ctx, pad)
	gvcRequire(len(key) == n && len(out) >= n, "prfUint64Into: key and out have n bytes")
	gvcRequire(gvcDisjoint(key, s) && gvcDisjoint(out, s), "prfUint64Into: key and out are outside the scratch space")
	r := gvcPrf(&ctx.p, string(key), gvcBE(i, 32))
	gvcHavoc(s)
	copy(out[:n], r)
}

//gvc:harness C09
func hC09PrfUint64Into() {
	ctx := gvcHashCtx()
	n := int(ctx.p.N)
	pad := gvcPad(ctx)
	key := gvcBytes("key", n)
	buf := gvcBytes("buf", 3*n)
	gvcWatch(buf)
	out := buf[n : 2*n]
	i := gvcU64("i")
	if gvcFork("alias", 2) == 1 {
		key = out
	}
	want := specPrf(&ctx.p, string(key), gvcBE(i, 32))
	snap := gvcSnapshot()
	ctx.prfUint64Into(pad, i, key, out)
	gvcAssert(string(out) == want, "prfUint64Into returns PRF(key, toByte(i, 32))")
	gvcHashFrame(ctx, pad, snap, "prfUint64Into writes only out and scratch space", out)
	gvcAssert(string(ctx.prfUint64(pad, i, buf[2*n:])) == gvcPrf(&ctx.p, string(buf[2*n:]), gvcBE(i, 32)), "prfUint64 returns PRF(key, toByte(i, 32))")
}

//gvc:contract (*Context).prfAddrInto
func cPrfAddrInto(ctx *Context, pad scratchPad, addr address, key, out []byte) {
	n := int(ctx.p.N)
	s := gvcScratch(ctx, pad)
	gvcRequire(len(key) == n && len(out) >= n, "prfAddrInto: key and out have n bytes")
	gvcRequire(gvcDisjoint(key, s) && gvcDisjoint(out, s), "prfAddrInto: key and out are outside the scratch space")
	r := gvcPrf(&ctx.p, string(key), specAddr(addr))
	gvcHavoc(s)
	copy(out[:n], r)
}

//gvc:harness C09
func hC09PrfAddrInto() {
	ctx := gvcHashCtx()
	n := int(ctx.p.N)
	pad := gvcPad(ctx)
	key := gvcBytes("key", n)
	buf := gvcBytes("buf", 3*n)
	gvcWatch(buf)
	out := buf[n : 2*n]
	addr := gvcAddr("addr")
	if gvcFork("alias", 2) == 1 {
		key = out
	}
	want := specPrf(&ctx.p, string(key), specAddr(addr))
	snap := gvcSnapshot()
	ctx.prfAddrInto(pad, addr, key, out)
	gvcAssert(string(out) == want, "prfAddrInto returns PRF(key, ADRS)")
	gvcHashFrame(ctx, pad, snap, "prfAddrInto writes only out and scratch space", out)
	gvcAssert(string(ctx.prfAddr(pad, addr, buf[2*n:])) == gvcPrf(&ctx.p, string(buf[2*n:]), specAddr(addr)), "prfAddr returns PRF(key, ADRS)")
}

//gvc:contract (*Context).prfKeyGenInto
func cPrfKeyGenInto(ctx *Context, pad scratchPad, ph precomputedHashes, addr address, out []byte) {
	n := int(ctx.p.N)
	s := gvcScratch(ctx, pad)
	gvcRequire(len(ph.skSeed) == n && len(ph.pubSeed) == n && len(out) >= n, "prfKeyGenInto: seeds and out have n bytes")
	gvcRequire(gvcDisjoint(out, s), "prfKeyGenInto: out is outside the scratch space")
	r := gvcPrfKeyGen(&ctx.p, string(ph.skSeed), string(ph.pubSeed), addr)
	gvcHavoc(s)
	copy(out[:n], r)
}

//gvc:harness C09
func hC09PrfKeyGenInto() {
	ctx := gvcHashCtx()
	n := int(ctx.p.N)
	pad := gvcPad(ctx)
	skSeed := gvcBytes("skSeed", n)
	pubSeed := gvcBytes("pubSeed", n)
	ph := ctx.precomputeHashes(pubSeed, skSeed)
	addr := gvcAddr("addr")
	buf := gvcBytes("buf", 3*n)
	gvcWatch(buf)
	out := buf[n : 2*n]
	if gvcFork("alias", 2) == 1 {
		out = pad.wotsSkSeedBuf()
	}
	snap := gvcSnapshot()
	ctx.prfKeyGenInto(pad, ph, addr, out)
	gvcAssert(string(out) == specPrfKeyGen(&ctx.p, string(skSeed), string(pubSeed), addr), "prfKeyGenInto returns PRF_keygen(SK_SEED, PUB_SEED, ADRS)")
	gvcHashFrame(ctx, pad, snap, "prfKeyGenInto writes only out and scratch space", out)
}

// The precomputed PRFs, and that using them does not change them.
//
//gvc:harness C09
func hC09Precomputed() {
	ctx := gvcHashCtx()
	n := int(ctx.p.N)
	pad := gvcPad(ctx)
	skSeed := gvcBytes("skSeed", n)
	pubSeed := gvcBytes("pubSeed", n)
	ph := ctx.precomputeHashes(pubSeed, skSeed)
	addr := gvcAddr("addr")
	buf := gvcBytes("buf", 3*n)
	gvcWatch(buf)
	out := buf[n : 2*n]
	gvcAssert(string(ph.pubSeed) == string(pubSeed) && string(ph.skSeed) == string(skSeed), "precomputeHashes keeps the seeds")
	snap := gvcSnapshot()
	ph.prfAddrPubSeedInto(pad, addr, out)
	gvcAssert(string(out) == specPrf(&ctx.p, string(pubSeed), specAddr(addr)), "prfAddrPubSeedInto returns PRF(SEED, ADRS)")
	gvcHashFrame(ctx, pad, snap, "prfAddrPubSeedInto writes only out and scratch space", out)
	snap = gvcSnapshot()
	ph.prfAddrSkSeedInto(pad, addr, out)
	gvcAssert(string(out) == specPrf(&ctx.p, string(skSeed), specAddr(addr)), "prfAddrSkSeedInto returns PRF(SK_SEED, ADRS)")
	gvcHashFrame(ctx, pad, snap, "prfAddrSkSeedInto writes only out and scratch space", out)
	addr2 := gvcAddr("addr")
	ph.prfAddrPubSeedInto(pad, addr2, out)
	gvcAssert(string(out) == specPrf(&ctx.p, string(pubSeed), specAddr(addr2)), "prfAddrPubSeedInto returns PRF(SEED, ADRS) a second time")
	ph2 := ctx.precomputeHashes(pubSeed, nil)
	ph2.prfAddrPubSeedInto(pad, addr, out)
	gvcAssert(string(out) == specPrf(&ctx.p, string(pubSeed), specAddr(addr)), "prfAddrPubSeedInto without secret seed returns PRF(SEED, ADRS)")
}

//gvc:contract (*Context).hashMessageInto
func cHashMessageInto(ctx *Context, pad scratchPad, msg io.Reader, R, root []byte, idx uint64, out []byte) error {
	n := int(ctx.p.N)
	gvcRequire(len(R) == n && len(root) == n && len(out) == n, "hashMessageInto: R, root and out have n bytes")
	m := &gvcHash{}
	r, o := string(R), string(root)
	if _, err := gvcIoCopy(m, msg); err != nil {
		gvcHavoc(gvcScratch(ctx, pad))
		return err
	}
	gvcHavoc(gvcScratch(ctx, pad))
	copy(out, gvcHashMsg(&ctx.p, r, o, idx, m.buf))
	return nil
}

//gvc:harness C09
func hC09HashMessageInto() {
	ctx := gvcHashCtx()
	n := int(ctx.p.N)
	pad := gvcPad(ctx)
	R := gvcBytes("R", n)
	root := gvcBytes("root", n)
	idx := gvcU64("idx")
	s := gvcString("msg")
	msg := &gvcReader{s: s, err: gvcReadError()}
	buf := gvcBytes("buf", 3*n)
	gvcWatch(buf)
	out := buf[n : 2*n]
	snap := gvcSnapshot()
	fail := msg.err != nil
	err := ctx.hashMessageInto(pad, msg, R, root, idx, out)
	if fail {
		gvcAssert(err != nil, "hashMessageInto reports that the message cannot be read")
	} else {
		gvcAssert(err == nil, "hashMessageInto succeeds on a readable message")
		gvcAssert(string(out) == specHashMsg(&ctx.p, string(R), string(root), idx, s), "hashMessageInto returns H_msg(R, root, idx, M)")
	}
	gvcUnchanged(snap, "hashMessageInto writes only out and scratch space", out, gvcScratch(ctx, pad), pad.hash.h, pad.hash.shake, msg)
	out2, err2 := ctx.hashMessage(pad, &gvcReader{s: s}, R, root, idx)
	gvcAssert(err2 == nil && string(out2) == gvcHashMsg(&ctx.p, string(R), string(root), idx, s), "hashMessage returns H_msg(R, root, idx, M)")
}

//gvc:harness C09
func hC09Wrappers() {
	ctx := gvcHashCtx()
	n := int(ctx.p.N)
	pubSeed := gvcBytes("pubSeed", n)
	left := gvcBytes("left", n)
	right := gvcBytes("right", n)
	addr := gvcAddr("addr")
	gvcAssert(string(ctx.f(left, pubSeed, addr)) == gvcF(&ctx.p, string(left), string(pubSeed), addr), "f returns F(SEED, in, ADRS)")
	gvcAssert(string(ctx.h(left, right, pubSeed, addr)) == gvcH(&ctx.p, string(left), string(right), string(pubSeed), addr), "h returns RAND_HASH(left, right, SEED, ADRS)")
}

//gvc:harness C09
func hC09EncodeUint64() {
	n := gvcChoose("n", 66)
	x := gvcU64("x")
	buf := gvcBytes("buf", n+2)
	gvcWatch(buf)
	snap := gvcSnapshot()
	encodeUint64Into(x, buf[1:n+1])
	gvcAssert(string(buf[1:n+1]) == gvcBE(x, n), "encodeUint64Into is toByte(x, n)")
	gvcUnchanged(snap, "encodeUint64Into writes only out", buf[1:n+1])
	gvcAssert(string(encodeUint64(x, n)) == gvcBE(x, n), "encodeUint64 is toByte(x, n)")
	b := gvcBytes("b", n)
	if n <= 8 {
		gvcAssert(decodeUint64(b) == gvcU64of(string(b)), "decodeUint64 inverts toByte")
	}
}
