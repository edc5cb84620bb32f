package xmssmt

// C11: subtrees.

// runtime.NumCPU may return any positive number; what matters is only how many
// goroutines are started.
//
//gvc:model runtime.NumCPU
func gvcNumCPU() int { return 1 + gvcChoose("NumCPU", 3) }

func gvcTreeCtx(h uint32) *Context {
	p := Params{Func: SHA2, N: 32, FullHeight: 2 * h, D: 2, WotsW: 16, Prf: RFC}
	ctx, err := NewContext(p)
	gvcAssume(err == nil)
	return ctx
}

// Tree hash, RFC 8391 section 4.1.6: the node above left and right.
func specNode(p *Params, left, right, pubSeed string, layer uint32, tree uint64, height, i uint32) string {
	a := specSubTreeAddr(layer, tree, 2)
	a[5], a[6] = height-1, i
	return gvcH(p, left, right, pubSeed, a)
}

//gvc:harness C11,C01 bounded="trees of height at most 7 (thorough: 10), at most 3 threads, which run one after the other here"
func hC11SubTree() {
	max := 8
	if gvcThorough() {
		max = 11
	}
	h := uint32(gvcChoose("height", max))
	ctx := gvcTreeCtx(h)
	ctx.Threads = gvcChoose("threads", 4)
	gvcSubTreeIs(ctx, h)
}

func gvcSubTreeIs(ctx *Context, h uint32) {
	n := int(ctx.p.N)
	pad := gvcPad(ctx)
	ph := gvcPh(ctx, gvcBytes("pubSeed", n), gvcBytes("skSeed", n))
	sta := SubTreeAddress{Layer: gvcU32("layer"), Tree: gvcU64("tree")}
	buf := gvcBytes("buf", ((1<<(h+1))-1)*n+2)
	gvcWatch(buf)
	mt := merkleTreeFromBuf(buf[1:len(buf)-1], h+1, ctx.p.N)
	snap := gvcSnapshot()
	ctx.genSubTreeInto(pad, ph.skSeed, ph, sta, mt)
	gvcUnchanged(snap, "genSubTreeInto writes only the tree and scratch space", buf[1:len(buf)-1], pad.wotsBuf(), gvcScratch(ctx, pad), pad.fX4Buf(), pad.hash.h, pad.hash.shake, pad.hash.shakeX4)
	gvcTreeIs(ctx, mt, string(ph.skSeed), string(ph.pubSeed), sta)
}

// Every order in which the goroutines get the locks they use.
//
//gvc:harness C11,C18 schedules bounded="trees of height 5 and 6 (thorough: 7), 2 or 3 goroutines"
func hC11Schedules() {
	h := uint32(5 + gvcChoose("height", 2))
	if gvcThorough() && gvcChoose("higher", 2) == 1 {
		h = 7
	}
	ctx := gvcTreeCtx(h)
	t := gvcChoose("threads", 3)
	if t == 0 && h != 6 {
		gvcStop()
	}
	ctx.Threads = [3]int{0, 2, 3}[t]
	n := int(ctx.p.N)
	pad := gvcPad(ctx)
	ph := gvcPh(ctx, gvcBytes("pubSeed", n), gvcBytes("skSeed", n))
	sta := SubTreeAddress{Layer: gvcU32("layer"), Tree: gvcU64("tree")}
	mt := newMerkleTree(h+1, ctx.p.N)
	ctx.genSubTreeInto(pad, ph.skSeed, ph, sta, mt)
	gvcTreeIs(ctx, mt, string(ph.skSeed), string(ph.pubSeed), sta)
}

func gvcTreeIs(ctx *Context, mt merkleTree, skSeed, pubSeed string, sta SubTreeAddress) {
	var i, k uint32
	for i = 0; i < 1<<ctx.treeHeight; i++ {
		gvcAssert(string(mt.Node(0, i)) == specLeaf(&ctx.p, skSeed, pubSeed, sta.Layer, sta.Tree, i), "every leaf is the compressed one-time public key of its index")
	}
	for k = 1; k <= ctx.treeHeight; k++ {
		for i = 0; i < 1<<(ctx.treeHeight-k); i++ {
			gvcAssert(string(mt.Node(k, i)) == specNode(&ctx.p, string(mt.Node(k-1, 2*i)), string(mt.Node(k-1, 2*i+1)), pubSeed, sta.Layer, sta.Tree, k, i), "every inner node is the tree hash of its children")
		}
	}
	gvcAssert(string(mt.Root()) == string(mt.Node(ctx.treeHeight, 0)), "the root is the topmost node")
}

// Subtrees of every height, generated by one thread, by loop invariants.  The
// claim is about one node, which is arbitrary.
type gvcTreeWitness struct {
	skSeed, pubSeed string
	sta             SubTreeAddress
	k, i            uint32
}

var gvcWit gvcTreeWitness

func gvcNodeStr(ctx *Context, mt *merkleTree, k, i uint32) string {
	x := mt.Node(k, i)
	b := make([]byte, int(ctx.p.N))
	copy(b, x[:int(ctx.p.N)])
	return string(b)
}

func gvcWitnessIs(ctx *Context, mt *merkleTree) bool {
	w := &gvcWit
	x := gvcNodeStr(ctx, mt, w.k, w.i)
	if w.k == 0 {
		return x == specLeaf(&ctx.p, w.skSeed, w.pubSeed, w.sta.Layer, w.sta.Tree, w.i)
	}
	return x == specNode(&ctx.p, gvcNodeStr(ctx, mt, w.k-1, 2*w.i), gvcNodeStr(ctx, mt, w.k-1, 2*w.i+1), w.pubSeed, w.sta.Layer, w.sta.Tree, w.k, w.i)
}

//gvc:loop (*Context).genSubTreeInto 0
func gvcLeafLoop(ctx *Context, pad scratchPad, mt *merkleTree, idx *uint32, lTreeAddr, otsAddr *address) {
	gvcLoopVar(idx, &lTreeAddr[4], &otsAddr[4], mt.buf, pad.wotsBuf(), gvcScratch(ctx, pad), pad.fX4Buf())
	gvcInv(*idx <= 1<<ctx.treeHeight, "leafs of the subtree only")
	if gvcWit.k != 0 || gvcWit.i >= *idx {
		return
	}
	if gvcWit.i+1 == *idx { // a case of its own: the node just written
		gvcInv(gvcWitnessIs(ctx, mt), "the leafs up to here are right")
		return
	}
	gvcInv(gvcWitnessIs(ctx, mt), "the leafs up to here are right")
}

//gvc:loop (*Context).genSubTreeInto 2
func gvcLevelLoop(ctx *Context, pad scratchPad, mt *merkleTree, height, idx *uint32, nodeAddr *address) {
	gvcLoopVar(height, idx, &nodeAddr[5], &nodeAddr[6], mt.buf, gvcScratch(ctx, pad))
	gvcInv(1 <= *height && *height <= ctx.treeHeight+1, "levels of the subtree only")
	if gvcWit.k == ctx.treeHeight {
		gvcSplit("level", *height, 1, int(ctx.treeHeight)+1)
	}
	if gvcWit.k < *height {
		gvcInv(gvcWitnessIs(ctx, mt), "the levels up to here are right")
	}
}

//gvc:loop (*Context).genSubTreeInto 3
func gvcNodeLoop(ctx *Context, pad scratchPad, mt *merkleTree, height uint32, idx *uint32, nodeAddr *address) {
	gvcLoopVar(idx, &nodeAddr[6], mt.buf, gvcScratch(ctx, pad))
	gvcInv(*idx <= 1<<(ctx.treeHeight-height), "nodes of the level only")
	// every return is a case of its own
	if gvcWit.k > height {
		return
	}
	if gvcWit.k == height {
		if gvcWit.i >= *idx {
			return
		}
		if gvcWit.i+1 == *idx { // the node just written
			gvcInv(gvcWitnessIs(ctx, mt), "the nodes up to here are right")
			return
		}
	}
	gvcInv(gvcWitnessIs(ctx, mt), "the nodes up to here are right")
}

//gvc:harness C11 loops
func hC11AllHeights() {
	h := [2]uint32{10, 20}[gvcChoose("height", 2)]
	if gvcThorough() {
		h = uint32(1 + gvcChoose("any height", 20))
	}
	if !gvcSymbolic() && h > 10 {
		h = 10
	}
	ctx := gvcTreeCtx(h)
	ctx.Threads = 1
	n := int(ctx.p.N)
	pad := gvcPad(ctx)
	ph := gvcPh(ctx, gvcBytes("pubSeed", n), gvcBytes("skSeed", n))
	sta := SubTreeAddress{Layer: gvcU32("layer"), Tree: gvcU64("tree")}
	mt := merkleTreeFromBuf(gvcBytes("buf", ((1<<(h+1))-1)*n), h+1, ctx.p.N)
	k, i := uint32(gvcChoose("witness level", int(h)+1)), gvcU32("witness")
	if !gvcSymbolic() {
		i %= 1 << (h - k)
	}
	gvcAssume(i < 1<<(h-k))
	gvcWit = gvcTreeWitness{string(ph.skSeed), string(ph.pubSeed), sta, k, i}
	ctx.genSubTreeInto(pad, ph.skSeed, ph, sta, mt)
	if k == 0 {
		gvcAssert(gvcWitnessIs(ctx, &mt), "every leaf is the compressed one-time public key of its index")
	} else {
		gvcAssert(gvcWitnessIs(ctx, &mt), "every inner node is the tree hash of its children")
	}
}

func gvcTreeHeight() uint32 {
	if gvcThorough() {
		return uint32(gvcChoose("height", 22))
	}
	return [7]uint32{0, 1, 2, 4, 5, 10, 20}[gvcChoose("height", 7)]
}

// The storage of the nodes.
//
//gvc:harness C11
func hC11Nodes() {
	n := [4]uint32{16, 24, 32, 64}[gvcChoose("n", 4)]
	h := gvcTreeHeight()
	a := uint32(gvcChoose("level", int(h)+1))
	size := int(((1 << (h + 1)) - 1) * n)
	buf := gvcBytes("buf", size+2)
	mt := merkleTreeFromBuf(buf[1:size+1:size+1], h+1, n)
	i := gvcU32("i")
	gvcAssume(i < 1<<(h-a))
	x := mt.Node(a, i)
	gvcAssert(len(x) == int(n), "a node has n bytes")
	gvcAssert(gvcDisjoint(x, buf[:1]) && gvcDisjoint(x, buf[size+1:]), "nodes lie in the buffer")
	j := gvcU32("j")
	gvcAssume(j < 1<<(h-a) && j != i)
	gvcAssert(gvcDisjoint(x, mt.Node(a, j)), "different nodes of a level do not overlap")
	if a < h {
		k := gvcU32("k")
		b := a + 1 + uint32(gvcChoose("other level", int(h-a)))
		gvcAssume(k < 1<<(h-b))
		gvcAssert(gvcDisjoint(x, mt.Node(b, k)), "nodes of different levels do not overlap")
	}
}

//gvc:harness C11,C01
func hC11AuthPath() {
	n := [4]uint32{16, 24, 32, 64}[gvcChoose("n", 4)]
	h := gvcTreeHeight()
	mt := merkleTreeFromBuf(gvcBytes("buf", int(((1<<(h+1))-1)*n)), h+1, n)
	leaf := gvcU32("leaf")
	gvcAssume(leaf < 1<<h)
	snap := gvcSnapshot()
	path := mt.AuthPath(leaf)
	gvcAssert(len(path) == int(h*n), "the authentication path has h nodes")
	gvcUnchanged(snap, "AuthPath writes nothing")
	if h > 0 {
		k := uint32(gvcChoose("level", int(h)))
		want := make([]byte, n)
		copy(want, mt.Node(k, (leaf>>k)^1))
		gvcAssert(string(path[k*n:(k+1)*n]) == string(want), "the authentication path lists the siblings on the way to the root")
	}
}
