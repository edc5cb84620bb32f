package xmssmt

import (
	"encoding/binary"
	"math/bits"
	"unsafe"

	"github.com/bwesterb/go-xmssmt/internal/f1600x4"
)

// C10: the fourway SHAKE implementation.

// gvcLane is lane j of the interleaved states w: 25 words, little-endian.
func gvcLane(w []uint64, j, from, to int) string {
	b := make([]byte, 8*(to-from))
	for i := from; i < to; i++ {
		binary.LittleEndian.PutUint64(b[8*(i-from):], w[4*i+j])
	}
	return string(b)
}

// If the lane is SHAKE128's state after absorbing a message of at most
// 20 words, the number of words.
func gvcLaneShake128(w []uint64, j int) (int, bool) {
	for i := 20; i < 25; i++ {
		v, ok := gvcConst(w[4*i+j])
		if !ok || i == 20 && v != 0x80<<56 || i > 20 && v != 0 {
			return 0, false
		}
	}
	for m := 19; m >= 0; m-- {
		v, ok := gvcConst(w[4*m+j])
		if ok && v == 0x1f {
			return m, true
		}
		if !ok || v != 0 {
			return 0, false
		}
	}
	return 0, false
}

// The assembly: four permutations.  A permutation of the padded message is
// what SHAKE128 starts its output with (FIPS 202, section 4); others are
// abstract.  hC10Permute compares the assembly with FIPS 202.
//
//gvc:model github.com/bwesterb/go-xmssmt/internal/f1600x4.f1600x4
func gvcF1600x4(state *uint64, rc *[24]uint64) {
	gvcRequire(uintptr(unsafe.Pointer(state))&31 == 0, "the fourway state is aligned to 32 bytes")
	if gvcAsmReal {
		gvcAsm("internal/f1600x4/f1600x4_amd64.s", "f1600x4", state, rc)
		return
	}
	w := gvcWords(state, 100)
	for j := 0; j < 4; j++ {
		out := ""
		words := 25
		if m, ok := gvcLaneShake128(w, j); ok {
			out = gvcApply("shake128", 168, gvcLane(w, j, 0, m))
			words = 21
		} else {
			out = gvcApply("keccakf", 200, gvcLane(w, j, 0, 25))
		}
		b := []byte(out)
		for i := 0; i < 25; i++ {
			if i < words {
				w[4*i+j] = binary.LittleEndian.Uint64(b[8*i:])
			} else {
				w[4*i+j] = gvcHavocU64()
			}
		}
	}
}

// Whether this processor has the fourway implementation.
var gvcX4Real = f1600x4.Available

func gvcX4On() {
	gvcAssume(gvcSymbolic() || gvcX4Real)
	f1600x4.Available = true
}

// In hC10Permute, the assembly itself is executed.
var gvcAsmReal bool

// FIPS 202, section 3.2.5: the round constants, by the shift register of
// algorithm 5.
func specRC(round int) uint64 {
	rc := uint64(0)
	for j := uint(0); j <= 6; j++ {
		r := uint(1)
		for t := uint(0); t < (j+7*uint(round))%255; t++ {
			r <<= 1
			if r&0x100 != 0 {
				r ^= 0x171
			}
		}
		rc |= uint64(r&1) << (uint(1)<<j - 1)
	}
	return rc
}

// FIPS 202, section 3.2: one round of Keccak-f[1600].  Lane (x, y) is a[x+5*y].
func specKeccakRound(a [25]uint64, rc uint64) (out [25]uint64) {
	var c, d [5]uint64
	for x := 0; x < 5; x++ { // theta
		c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
	}
	for x := 0; x < 5; x++ {
		d[x] = c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
	}
	for i := range a {
		a[i] ^= d[i%5]
	}
	b := a // rho
	for x, y, t := 1, 0, 0; t < 24; t++ {
		b[x+5*y] = bits.RotateLeft64(a[x+5*y], (t+1)*(t+2)/2)
		x, y = y, (2*x+3*y)%5
	}
	for y := 0; y < 5; y++ { // pi
		for x := 0; x < 5; x++ {
			a[x+5*y] = b[(x+3*y)%5+5*x]
		}
	}
	for y := 0; y < 5; y++ { // chi
		for x := 0; x < 5; x++ {
			out[x+5*y] = a[x+5*y] ^ (^a[(x+1)%5+5*y] & a[(x+2)%5+5*y])
		}
	}
	out[0] ^= rc // iota
	return
}

// The assembly computes Keccak-f[1600] on each of the four states: its text is
// executed on arbitrary states.
//
//gvc:harness C10
func hC10Permute() {
	gvcX4On()
	gvcAsmReal = true
	s := new(f1600x4.State)
	w := s.Initialize()
	gvcAssert(len(w) == 100, "the four states have 100 words")
	b := gvcBytes("states", 800)
	var want [4][25]uint64
	for i := range w {
		w[i] = gvcCut(binary.LittleEndian.Uint64(b[8*i:]))
		want[i%4][i/4] = w[i]
	}
	for r := 0; r < 24; r++ {
		rc := specRC(r)
		for j := range want {
			want[j] = specKeccakRound(want[j], rc)
			for i := range want[j] {
				want[j][i] = gvcCut(want[j][i])
			}
		}
	}
	s.Permute()
	for i := range w {
		gvcAssert(w[i] == want[i%4][i/4], "Permute is Keccak-f[1600] on each of the four states")
	}
	s.Zero()
	for i := range w {
		gvcAssert(w[i] == 0, "Zero clears the states")
	}
}

// A context which uses the fourway implementation, if there is one.
func gvcX4Ctx() *Context {
	gvcX4On()
	ctx := gvcHashCtx()
	gvcAssume(ctx.x4Available)
	return ctx
}

// gvcX4State forgets the content of the fourway state.
func gvcX4State(pad scratchPad) {
	for i := range pad.hash.shakeX4A {
		pad.hash.shakeX4A[i] = gvcHavocU64()
	}
}

//gvc:contract (*Context).prfAddrX4Into
func cPrfAddrX4Into(ctx *Context, pad scratchPad, addr [4]address, key []byte, out [4][]byte) {
	n := int(ctx.p.N)
	gvcRequire(ctx.x4Available && pad.hash.shakeX4 != nil, "prfAddrX4Into: the context uses the fourway implementation")
	gvcRequire(len(key) == n, "prfAddrX4Into: the key has n bytes")
	k := string(key)
	gvcX4State(pad)
	for j := 0; j < 4; j++ {
		if out[j] != nil {
			gvcRequire(len(out[j]) >= n, "prfAddrX4Into: out has n bytes")
			copy(out[j][:n], gvcPrf(&ctx.p, k, specAddr(addr[j])))
		}
	}
}

//gvc:harness C10
func hC10PrfAddrX4Into() {
	ctx := gvcX4Ctx()
	n := int(ctx.p.N)
	pad := gvcPad(ctx)
	gvcX4State(pad)
	key := gvcBytes("key", n)
	gvcWatch(key)
	mask := gvcChoose("lanes", 16)
	buf := gvcBytes("buf", 4*n+8)
	gvcWatch(buf)
	var addr [4]address
	var out [4][]byte
	var want [4]string
	for j := 0; j < 4; j++ {
		addr[j] = gvcAddr("addr")
		if mask>>uint(j)&1 == 1 {
			out[j] = buf[j*(n+2) : j*(n+2)+n]
			want[j] = specPrf(&ctx.p, string(key), specAddr(addr[j]))
		}
	}
	snap := gvcSnapshot()
	ctx.prfAddrX4Into(pad, addr, key, out)
	for j := 0; j < 4; j++ {
		if out[j] != nil {
			gvcAssert(string(out[j]) == want[j], "prfAddrX4Into sets out[j] to PRF(key, addr[j])")
		}
	}
	gvcUnchanged(snap, "prfAddrX4Into writes only out", out[0], out[1], out[2], out[3], pad.hash.shakeX4)
}

//gvc:contract (*Context).fX4Into
func cFX4Into(ctx *Context, pad scratchPad, in [4][]byte, key []byte, addr [4]address, out [4][]byte) {
	n := int(ctx.p.N)
	gvcRequire(ctx.x4Available && pad.hash.shakeX4 != nil, "fX4Into: the context uses the fourway implementation")
	gvcRequire(len(key) == n, "fX4Into: the key has n bytes")
	var r [4]string
	for j := 0; j < 4; j++ {
		if in[j] != nil {
			gvcRequire(len(in[j]) >= n && len(out[j]) >= n, "fX4Into: in and out have n bytes")
			gvcRequire(gvcDisjoint(in[j], pad.fX4Buf()) && gvcDisjoint(out[j], pad.fX4Buf()), "fX4Into: in and out are outside the scratch space")
			r[j] = gvcF(&ctx.p, string(in[j][:n]), string(key), addr[j])
		}
	}
	gvcHavoc(pad.fX4Buf())
	gvcX4State(pad)
	for j := 0; j < 4; j++ {
		if in[j] != nil {
			copy(out[j][:n], r[j])
		}
	}
}

//gvc:harness C10
func hC10FX4Into() {
	ctx := gvcX4Ctx()
	n := int(ctx.p.N)
	pad := gvcPad(ctx)
	gvcX4State(pad)
	key := gvcBytes("key", n)
	gvcWatch(key)
	mask := gvcChoose("lanes", 16)
	buf := gvcBytes("buf", 8*n+8)
	gvcWatch(buf)
	alias := gvcChoose("alias", 2) == 1
	var addr [4]address
	var in, out [4][]byte
	var want [4]string
	for j := 0; j < 4; j++ {
		addr[j] = gvcAddr("addr")
		out[j] = buf[j*(n+2) : j*(n+2)+n]
		if mask>>uint(j)&1 == 1 {
			in[j] = out[j]
			if !alias {
				in[j] = buf[4*(n+2)+j*n : 4*(n+2)+j*n+n]
			}
			k := gvcPrf(&ctx.p, string(key), specAKM(addr[j], 0))
			bm := gvcPrf(&ctx.p, string(key), specAKM(addr[j], 1))
			want[j] = specHash(&ctx.p, gvcBE(0, specPrefixLen(&ctx.p))+k+gvcXor(string(in[j]), bm))
		}
	}
	snap := gvcSnapshot()
	ctx.fX4Into(pad, in, key, addr, out)
	var wr [4][]byte
	for j := 0; j < 4; j++ {
		if in[j] != nil {
			wr[j] = out[j]
			gvcAssert(string(out[j]) == want[j], "fX4Into sets out[j] to F(key, addr[j], in[j])")
		}
	}
	gvcUnchanged(snap, "fX4Into writes only the lanes in use and scratch space", wr[0], wr[1], wr[2], wr[3], pad.fX4Buf(), pad.hash.shakeX4)
}

// The fourway implementation is used only if the processor supports it.
//
//gvc:harness C10
func hC10Available() {
	f1600x4.Available = false
	ctx := gvcHashCtx()
	gvcAssert(!ctx.x4Available, "the fourway implementation is used only where it is available")
}

func gvcX4WotsCtx() *Context {
	gvcX4On()
	n := [2]uint32{16, 32}[gvcChoose("n", 2)]
	w := [3]uint16{4, 16, 256}[gvcChoose("w", 3)]
	ctx, err := NewContext(Params{Func: SHAKE, N: n, FullHeight: 10, D: 1, WotsW: w, Prf: RFC})
	gvcAssume(err == nil)
	gvcReach("context")
	return ctx
}

func gvcX4Frame(ctx *Context, pad scratchPad, snap int, label string, out []byte) {
	gvcUnchanged(snap, label, out, gvcScratch(ctx, pad), pad.fX4Buf(), pad.hash.h, pad.hash.shake, pad.hash.shakeX4)
}

//gvc:contract (*Context).wotsGenChainsX4Into
func cWotsGenChainsX4Into(ctx *Context, pad scratchPad, in []byte, start []uint16, steps []uint16, ph precomputedHashes, addr address, out []byte) {
	n := int(ctx.p.N)
	l := int(ctx.wotsLen)
	gvcRequire(ctx.x4Available && pad.hash.shakeX4 != nil, "wotsGenChainsX4Into: the context uses the fourway implementation")
	gvcRequire(len(start) >= l && len(steps) >= l, "wotsGenChainsX4Into: a start and a number of steps for every chain")
	gvcRequire(len(in) == l*n && len(out) >= l*n, "wotsGenChainsX4Into: in and out have len * n bytes")
	gvcRequire(gvcWotsDisjoint(ctx, pad, out) && gvcWotsDisjoint(ctx, pad, in), "wotsGenChainsX4Into: in and out are outside the scratch space")
	r := ""
	for i := 0; i < l; i++ {
		gvcRequire(uint32(start[i])+uint32(steps[i]) < uint32(ctx.p.WotsW), "wotsGenChainsX4Into: the chains end before position w")
		addr[5] = uint32(i)
		r += gvcChain(&ctx.p, string(in[i*n:(i+1)*n]), uint32(start[i]), uint32(steps[i]), string(ph.pubSeed), addr)
	}
	gvcWotsHavoc(ctx, pad)
	copy(out[:l*n], r)
}

// Numbers of steps below w for l chains.
func gvcStepVector(kind, l, w int) []uint16 {
	r := make([]uint16, l)
	x := uint32(kind)
	for i := range r {
		x = x*1664525 + 1013904223
		switch kind {
		case 0:
			r[i] = 0
		case 1:
			r[i] = uint16(w - 1)
		case 2:
			r[i] = uint16(i % w)
		case 3:
			r[i] = uint16((l - 1 - i) % w)
		case 4:
			// one chain that takes more steps than the others
			r[i] = 1
			if i == l/2 {
				r[i] = uint16(w - 1)
			}
		case 5:
			// only a remainder of the chains has steps to take
			if i == l-1 {
				r[i] = 1
			}
		case 6:
			r[i] = uint16((i * 7 / 5) & (w - 1))
		default:
			r[i] = uint16(x>>16) % uint16(w)
		}
	}
	return r
}

// The grouping of chains, for enumerated numbers of steps.
//
//gvc:harness C10 bounded=14_vectors_of_numbers_of_steps_per_parameter_set_(thorough:_100);_arbitrary_content
func hC10GenChains() {
	ctx := gvcX4WotsCtx()
	n := int(ctx.p.N)
	l := int(ctx.wotsLen)
	w := int(ctx.p.WotsW)
	pad := gvcPad(ctx)
	kinds := 14
	if w == 256 {
		kinds = 8
	}
	if gvcThorough() {
		kinds = 100
	}
	steps := gvcStepVector(gvcChoose("steps", kinds), l, w)
	gvcGenChains(ctx, pad, n, l, w, steps)
}

func gvcGenChains(ctx *Context, pad scratchPad, n, l, w int, steps []uint16) {
	ph := gvcPh(ctx, gvcBytes("pubSeed", n), nil)
	addr := gvcAddr("addr")
	start := make([]uint16, l)
	up := gvcChoose("start", 2) == 1
	for i := range start {
		if up {
			start[i] = uint16(w-1) - steps[i]
		}
	}
	buf := gvcBytes("buf", 2*l*n+2)
	gvcWatch(buf)
	in := buf[1 : l*n+1]
	out := buf[l*n+1 : 2*l*n+1]
	if !up {
		in = out
	}
	want := ""
	for i := 0; i < l; i++ {
		a := addr
		a[5] = uint32(i)
		want += specChain(&ctx.p, string(in[i*n:(i+1)*n]), uint32(start[i]), uint32(steps[i]), string(ph.pubSeed), a)
	}
	snap := gvcSnapshot()
	ctx.wotsGenChainsX4Into(pad, in, start, steps, ph, addr, out)
	gvcAssert(string(out) == want, "wotsGenChainsX4Into iterates every chain by itself")
	gvcX4Frame(ctx, pad, snap, "wotsGenChainsX4Into writes only out and scratch space", out)
}

// The same for a few chains and every vector of numbers of steps up to
// three.  The number of chains is not one of a parameter set.
//
//gvc:harness C10 bounded=1_to_6_chains_of_at_most_3_steps
func hC10GenChainsAll() {
	ctx := gvcX4WotsCtx()
	gvcAssume(ctx.p.N == 16 && ctx.p.WotsW == 4)
	pad := gvcPad(ctx)
	l := 1 + gvcChoose("chains", 6)
	ctx.wotsLen = uint32(l)
	max := 4
	if l > 4 {
		max = 2
	}
	steps := make([]uint16, l)
	vectors := 1
	for i := 0; i < l; i++ {
		vectors *= max
	}
	v := gvcChoose("steps", vectors)
	for i := range steps {
		steps[i] = uint16(v % max)
		v /= max
	}
	gvcGenChains(ctx, pad, 16, l, 4, steps)
}

//gvc:harness C10
func hC10WotsPkGen() {
	ctx := gvcX4WotsCtx()
	n := int(ctx.p.N)
	pad := gvcPad(ctx)
	ph := gvcPh(ctx, gvcBytes("pubSeed", n), gvcBytes("skSeed", n))
	addr := gvcAddr("addr")
	l := int(ctx.wotsLen) * n
	buf := gvcBytes("buf", l+2)
	gvcWatch(buf)
	out := buf[1 : l+1]
	want := ""
	for i := uint32(0); i < ctx.wotsLen; i++ {
		a := addr
		a[5] = i
		want += specChain(&ctx.p, specWotsSk(&ctx.p, string(ph.skSeed), string(ph.pubSeed), a, i), 0, uint32(ctx.p.WotsW)-1, string(ph.pubSeed), a)
	}
	snap := gvcSnapshot()
	ctx.wotsPkGenInto(pad, ph, addr, out)
	gvcAssert(string(out) == want, "wotsPkGenInto returns the WOTS+ public key, fourway")
	gvcX4Frame(ctx, pad, snap, "wotsPkGenInto writes only out and scratch space, fourway", out)
}

//gvc:harness C10
func hC10WotsSign() {
	ctx := gvcX4WotsCtx()
	n := int(ctx.p.N)
	pad := gvcPad(ctx)
	ph := gvcPh(ctx, gvcBytes("pubSeed", n), gvcBytes("skSeed", n))
	addr := gvcAddr("addr")
	msg := gvcBytes("msg", n)
	l := int(ctx.wotsLen) * n
	buf := gvcBytes("buf", l+2)
	gvcWatch(buf)
	out := buf[1 : l+1]
	want := specWotsSign(&ctx.p, string(msg), string(ph.skSeed), string(ph.pubSeed), addr)
	snap := gvcSnapshot()
	ctx.wotsSignInto(pad, msg, ph, addr, out)
	gvcAssert(string(out) == want, "wotsSignInto returns the WOTS+ signature, fourway")
	gvcX4Frame(ctx, pad, snap, "wotsSignInto writes only the signature and scratch space, fourway", out)
}

//gvc:harness C10
func hC10WotsPkFromSig() {
	ctx := gvcX4WotsCtx()
	n := int(ctx.p.N)
	pad := gvcPad(ctx)
	ph := gvcPh(ctx, gvcBytes("pubSeed", n), nil)
	addr := gvcAddr("addr")
	msg := gvcBytes("msg", n)
	l := int(ctx.wotsLen) * n
	sig := gvcBytes("sig", l)
	gvcWatch(sig)
	gvcWatch(msg)
	out := pad.wotsBuf()
	want := specWotsPkFromSig(&ctx.p, string(sig), string(msg), string(ph.pubSeed), addr)
	snap := gvcSnapshot()
	ctx.wotsPkFromSigInto(pad, sig, msg, ph, addr, out)
	gvcAssert(string(out[:l]) == want, "wotsPkFromSigInto returns the WOTS+ public key of the signature, fourway")
	gvcX4Frame(ctx, pad, snap, "wotsPkFromSigInto writes only the public key and scratch space, fourway", out)
}

// What is built on top of it, in the contexts that use it.

//gvc:harness C10
func hC10LTree() { gvcLTreeIs(gvcX4WotsCtx()) }

//gvc:harness C10
func hC10GenLeaf() { gvcGenLeafIs(gvcX4WotsCtx()) }

//gvc:harness C10 bounded="trees of height at most 5, at most 2 threads, which run one after the other here"
func hC10SubTree() {
	gvcX4On()
	h := uint32(gvcChoose("height", 6))
	ctx, err := NewContext(Params{Func: SHAKE, N: 32, FullHeight: 2 * h, D: 2, WotsW: 16, Prf: RFC})
	gvcAssume(err == nil)
	ctx.Threads = 1 + gvcChoose("threads", 2)
	gvcSubTreeIs(ctx, h)
}
