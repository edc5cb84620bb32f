package xmssmt

// C13, C18: the protocol by which goroutines share cached subtrees.
//
// For each subtree the maps of the key say: nothing (absent); some goroutine,
// its owner, is filling it (filling); found in the cache, not to be trusted
// (unchecked); filled (good).  Only the owner changes a subtree it fills, and
// its state.  getSubTree is verified against any behaviour of other goroutines
// that keeps to the same rules: they take their steps whenever the lock is not
// held (gvcOthers).

import (
	"encoding/binary"
	"hash"
)

//gvc:monitor PrivateKey.mux gvcSharedLock gvcSharedUnlock

type gvcXx struct{ buf string }

func (h *gvcXx) Write(p []byte) (int, error) {
	h.buf = h.buf + string(p)
	return len(p), nil
}
func (h *gvcXx) Sum64() uint64       { return gvcApplyU64("xxhash", h.buf) }
func (h *gvcXx) Sum(b []byte) []byte { return append(b, gvcApply("xxhash", 8, h.buf)...) }
func (h *gvcXx) Reset()              { h.buf = "" }
func (h *gvcXx) Size() int           { return 8 }
func (h *gvcXx) BlockSize() int      { return 32 }

//gvc:model github.com/cespare/xxhash.New
func gvcXxNew() hash.Hash64 { return &gvcXx{} }

//gvc:model github.com/cespare/xxhash.Sum64
func gvcXxSum64(b []byte) uint64 { return gvcApplyU64("xxhash", string(b)) }

// The checksum of a subtree covers the key, the position and the content.
func specChecksum(pubSeed string, a SubTreeAddress, content string) uint64 {
	return gvcApplyU64("xxhash", pubSeed+gvcBE(uint64(a.Layer), 4)+gvcBE(a.Tree, 8)+content)
}

// The nodes of a subtree, in storage order.  (What they are: hC11SubTree.)
func gvcTree(p *Params, skSeed, pubSeed string, a SubTreeAddress) string {
	return gvcApply("subtree", p.BareSubTreeSize(), skSeed, pubSeed, gvcBE(uint64(a.Layer), 4), gvcBE(a.Tree, 8))
}

//gvc:contract (*Context).genSubTreeInto
func cGenSubTreeInto(ctx *Context, pad scratchPad, skSeed []byte, ph precomputedHashes, sta SubTreeAddress, mt merkleTree) {
	size := ctx.p.BareSubTreeSize()
	gvcRequire(mt.height == ctx.treeHeight+1 && mt.n == ctx.p.N && len(mt.buf) == size, "genSubTreeInto: the tree has the height and node size of the parameters")
	gvcRequire(gvcWotsDisjoint(ctx, pad, mt.buf) && gvcDisjoint(pad.wotsBuf(), mt.buf), "genSubTreeInto: the tree is outside the scratch space")
	gvcRequire(string(skSeed) == string(ph.skSeed), "genSubTreeInto: the hashes are precomputed for the secret seed")
	r := gvcTree(&ctx.p, string(ph.skSeed), string(ph.pubSeed), sta)
	gvcWotsHavoc(ctx, pad)
	gvcHavoc(pad.wotsBuf())
	copy(mt.buf, r)
}

const (
	gvcAbsent = iota
	gvcFilling
	gvcUnchecked
	gvcGood
)

// gvcShared: a container, and the subtrees in it that are looked at: one and
// its parent.
type gvcShared struct {
	*gvcCtr
	in    bool // the goroutines are running
	began bool
	a     [2]SubTreeAddress
	bufs  [2][]byte
	has   [2]bool
	state [2]int
	owned [2]bool   // we are filling it
	seen  [2]string // content when we last had the lock
	gen   [2]bool   // we filled it
	bcast int
	waits int
}

func (c *gvcShared) GetSubTree(a SubTreeAddress) ([]byte, bool, Error) {
	if err := c.op("GetSubTree"); err != nil {
		return nil, false, err
	}
	for i := range c.a {
		if c.a[i] == a {
			h := c.has[i]
			c.has[i] = true
			return c.bufs[i], h, nil
		}
	}
	gvcAssert(false, "the subtree asked for is fetched from the container")
	return nil, false, nil
}

func (c *gvcShared) HasSubTree(a SubTreeAddress) bool {
	c.op("HasSubTree")
	for i := range c.a {
		if c.a[i] == a {
			return c.has[i]
		}
	}
	return false
}

func (c *gvcShared) DropSubTree(a SubTreeAddress) Error {
	gvcAssert(false, "getSubTree drops nothing")
	return nil
}

func gvcStateOf(sk *PrivateKey, a SubTreeAddress) int {
	r, ok := sk.subTreeReady[a]
	if !ok {
		return gvcAbsent
	}
	if !r {
		return gvcFilling
	}
	if !sk.subTreeChecked[a] {
		return gvcUnchecked
	}
	return gvcGood
}

func (c *gvcShared) set(i, state int) {
	sk := c.sk
	c.state[i] = state
	if state == gvcAbsent {
		delete(sk.subTreeReady, c.a[i])
		delete(sk.subTreeChecked, c.a[i])
		return
	}
	sk.subTreeReady[c.a[i]] = state != gvcFilling
	sk.subTreeChecked[c.a[i]] = state == gvcGood || state == gvcFilling && gvcBool("checked while filling")
	c.has[i] = true
}

// sound: the content may be used: its checksum, for its position, matches.
func (c *gvcShared) sound(i int) bool {
	n := len(c.bufs[i]) - 8
	return binary.BigEndian.Uint64(c.bufs[i][n:]) == specChecksum(string(c.sk.pubSeed), c.a[i], string(c.bufs[i][:n]))
}

// exact: the content is what RFC 8391 prescribes.
func (c *gvcShared) exact(i int) bool {
	p := &c.params
	b := c.bufs[i]
	skSeed, pubSeed := string(c.sk.skSeed), string(c.sk.pubSeed)
	if string(b[:p.BareSubTreeSize()]) != gvcTree(p, skSeed, pubSeed, c.a[i]) {
		return false
	}
	if c.a[i].Layer == p.D-1 {
		return true
	}
	h := p.FullHeight / p.D
	ots := specSubTreeAddr(c.a[i].Layer+1, c.a[i].Tree>>h, 0)
	ots[4] = uint32(c.a[i].Tree & (1<<h - 1))
	root := string(b[p.BareSubTreeSize()-int(p.N) : p.BareSubTreeSize()])
	return string(b[p.BareSubTreeSize():len(b)-8]) == gvcWotsSign(p, root, skSeed, pubSeed, ots)
}

// others: what other goroutines do while we do not hold the lock.
func (c *gvcShared) others() {
	for i := range c.a {
		if c.owned[i] || c.state[i] == gvcGood {
			continue
		}
		s := c.state[i]
		switch gvcChoose("others", 4) {
		case 0:
			// this step is not taken
		case 1:
			if s == gvcUnchecked {
				gvcAssume(c.sound(i))
			} else {
				gvcHavoc(c.bufs[i])
				gvcAssume(c.sound(i))
			}
			s = gvcGood
		case 2:
			if s == gvcFilling {
				gvcStop()
			}
			s = gvcFilling
		case 3:
			if s == gvcAbsent {
				gvcStop()
			}
			s = gvcAbsent
		}
		if s == gvcFilling || s == gvcAbsent {
			gvcHavoc(c.bufs[i])
		}
		c.set(i, s)
	}
}

func (c *gvcShared) look() {
	for i := range c.a {
		c.state[i] = gvcStateOf(c.sk, c.a[i])
		c.seen[i] = string(c.bufs[i])
	}
	c.bcast = gvcBroadcasts(c.sk.cond)
}

func gvcSharedLock(sk *PrivateKey) {
	c, ok := sk.ctr.(*gvcShared)
	if !ok || !c.in {
		return
	}
	if c.began {
		c.others()
	}
	c.began = true // the first time, the state is arbitrary anyway
	c.look()
}

// What we did since we took the lock (or since the beginning, without it).
func gvcSharedUnlock(sk *PrivateKey) {
	c, ok := sk.ctr.(*gvcShared)
	if !ok || !c.in {
		return
	}
	for i := range c.a {
		s := gvcStateOf(sk, c.a[i])
		if !c.owned[i] {
			gvcAssert(string(c.bufs[i]) == c.seen[i], "only the goroutine that fills a subtree changes it")
		}
		switch {
		case c.owned[i]:
			if s != gvcFilling {
				gvcAssert(gvcBroadcasts(sk.cond) > c.bcast, "those who wait for a subtree are woken up when it was filled or given up")
				c.owned[i] = false
			}
			gvcAssert(s != gvcUnchecked, "a subtree that was filled needs no further check")
			if s == gvcGood {
				gvcAssert(c.exact(i), "a subtree generated is correct")
				gvcAssert(c.sound(i), "a subtree generated carries its checksum")
				c.gen[i] = true
			}
		case s == c.state[i]:
		case s == gvcFilling:
			gvcAssert(c.state[i] != gvcGood, "a subtree that is in use is not filled again")
			c.owned[i] = true
		case s == gvcGood:
			gvcAssert(c.state[i] == gvcUnchecked && c.sound(i), "a subtree is trusted only if its checksum matches")
		default:
			gvcAssert(false, "a goroutine changes only the state of subtrees it fills")
		}
		gvcAssert(s == gvcAbsent || c.has[i], "a subtree that is registered is in the container")
		c.state[i] = s
	}
	if gvcWaiting() {
		i := 0
		gvcAssert(c.state[i] == gvcFilling && !c.owned[i], "a goroutine waits only for a subtree that another one is filling")
		c.waits++
		if c.waits > 2 {
			gvcStop()
		}
	}
	c.seenAll()
}

func (c *gvcShared) seenAll() {
	for i := range c.a {
		c.seen[i] = string(c.bufs[i])
	}
}

// request: the contract of getSubTree for another subtree.
func (c *gvcShared) request(a SubTreeAddress) (mt *merkleTree, wotsSig []byte, err Error) {
	for i := range c.a {
		gvcRequire(!c.owned[i] || a.Layer > c.a[i].Layer, "a goroutine that fills a subtree asks only for subtrees of higher layers")
	}
	gvcRequire(a.Layer < c.params.D, "the subtree asked for exists")
	for i := range c.a {
		gvcAssert(c.owned[i] || string(c.bufs[i]) == c.seen[i], "only the goroutine that fills a subtree changes it")
	}
	c.began = true
	c.look()
	fail := c.faults && gvcChoose("getSubTree fails", 2) == 1
	bare := c.params.BareSubTreeSize()
	b := gvcBytes("other subtree", c.params.CachedSubTreeSize())
	c.others()
	for i := range c.a {
		if c.a[i] == a {
			b = c.bufs[i]
			if !fail && c.state[i] != gvcGood {
				if c.state[i] != gvcUnchecked || gvcChoose("checksum matches", 2) == 0 {
					gvcHavoc(b)
				}
				gvcAssume(c.sound(i))
				c.set(i, gvcGood)
			}
		}
	}
	c.seenAll()
	if fail {
		c.failed = true
		return nil, nil, errorf("container failure")
	}
	t := merkleTreeFromBuf(b[:bare], c.sk.ctx.treeHeight+1, c.params.N)
	return &t, b[bare : bare+int(c.sk.ctx.wotsSigBytes)], nil
}

//gvc:harness C13,C18,C22 noexec bounded="at most 2 waits per call (the state after a wait is any state the protocol allows, as at the beginning)"
func hC13GetSubTree() {
	d := uint32(1 + gvcChoose("layers", 3))
	p := Params{Func: SHA2, N: 32, WotsW: 16, FullHeight: 2 * d, D: d, Prf: RFC}
	sk, ctr := gvcKey(p)
	c := &gvcShared{gvcCtr: ctr}
	sk.ctr = c
	layer := uint32(gvcChoose("layer", int(d)))
	c.a[0] = SubTreeAddress{Layer: layer, Tree: gvcU64("tree")}
	c.a[1] = SubTreeAddress{Layer: layer + 1, Tree: c.a[0].Tree >> 2}
	ctr.sk = sk
	for i := range c.a {
		c.bufs[i] = gvcBytes("cached", p.CachedSubTreeSize())
		gvcWatch(c.bufs[i])
		c.has[i] = gvcChoose("in the container", 2) == 1
		s := gvcAbsent
		if c.has[i] && !(layer == d-1 && i == 1) {
			s = gvcChoose("state", 4)
		}
		c.set(i, s)
		if s == gvcGood {
			gvcAssume(c.sound(i))
		}
	}
	c.look()
	gvcShare(sk)
	c.faults, ctr.faults = true, true
	c.in = true
	pad := gvcPad(sk.ctx)
	mt, w, err := sk.getSubTree(pad, c.a[0])
	gvcAssert(!gvcHeld(&sk.mux), "the lock is released")
	gvcAssert(!c.owned[0] && !c.owned[1], "no subtree is left half-filled")
	c.in = false
	gvcAssert(!c.owned[1] && string(c.bufs[1]) == c.seen[1], "only the goroutine that fills a subtree changes it")
	gvcAssert(string(c.bufs[0]) == c.seen[0], "only the goroutine that fills a subtree changes it")
	gvcAssert((err != nil) == c.failed, "a subtree is found or generated unless the container fails")
	if err != nil {
		return
	}
	gvcAssert(c.state[0] == gvcGood && c.sound(0), "what is used is generated, or its checksum matched")
	gvcAssert(!c.gen[0] || c.exact(0), "a subtree generated is correct")
	gvcAssert(&mt.Node(0, 0)[0] == &c.bufs[0][0] && string(mt.Root()) == string(c.bufs[0][p.BareSubTreeSize()-32:p.BareSubTreeSize()]), "what is returned is the subtree in the cache")
	gvcAssert(len(w) == int(sk.ctx.wotsSigBytes) && &w[0] == &c.bufs[0][p.BareSubTreeSize()], "what is returned is the signature in the cache")
}
