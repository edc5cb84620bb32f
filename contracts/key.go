package xmssmt

// A private key and its container, as far as the properties about sequence
// numbers, retirement and failures are concerned.

//gvc:guarded PrivateKey.seqNo mux
//gvc:guarded PrivateKey.borrowed mux
//gvc:guarded PrivateKey.leastSeqNoInUse mux
//gvc:guarded PrivateKey.retiredSeqNos mux
//gvc:guarded PrivateKey.subTreeReady mux
//gvc:guarded PrivateKey.subTreeChecked mux
//gvc:guarded PrivateKey.precomputeNextSubTree mux

// gvcShare: from here on other goroutines may use x: the fields listed above
// may only be accessed with the lock held.
func gvcShare(x interface{}) {}

// gvcBroadcasts: how often waiters were woken up.
func gvcBroadcasts(c interface{}) int { return 0 }

// gvcWaiting: the lock is being released to wait.
func gvcWaiting() bool { return false }

// gvcCtr is the contract of PrivateKeyContainer: any container that keeps what
// it is told, and whose operations may fail.
type gvcCtr struct {
	sk     *PrivateKey // owner, once shared
	params Params
	priv   []byte

	mem     uint64 // sequence number the container works with
	disk    uint64 // sequence number recorded durably
	lost    uint32 // reservation recorded durably
	memLost uint32 // reservation the container works with
	torn    bool   // a write of a single number failed: it might be recorded

	initialized, cacheInitialized, closed bool

	faults bool // operations may fail
	failed bool // one did
	writes int  // number of writes of the sequence number
	closes int

	floor    uint64 // every sequence number used so far is below floor
	released uint64 // numbers below were handed to signatures

	stas      []SubTreeAddress
	bufs      [][]byte
	dropped   []SubTreeAddress
	depth     int
	failDepth int
	signing   uint64 // number of the signature being made

	got     []gvcSubTree     // subtrees handed to signing
	retired []SignatureSeqNo // sequence numbers whose signature is finished
}

type gvcSubTree struct {
	sta     SubTreeAddress
	buf     []byte // in the cache
	wotsBuf []byte
	auth    string // the authentication path for the signature being made
	wotsSig string
}

func (c *gvcCtr) op(name string) Error {
	if c.sk != nil {
		gvcAssert(gvcHeld(&c.sk.mux), "the container is used only with the lock of the key held")
	}
	gvcAssert(!c.closed, "the container is not used after it was closed")
	if c.faults && gvcFork(name+" fails", 2) == 1 {
		c.failed = true
		return errorf("container failure")
	}
	return nil
}

// record writes the sequence number: it may fail before or after having
// taken effect.
func (c *gvcCtr) record(name string, seqNo uint64, lost uint32) Error {
	if c.sk != nil {
		gvcAssert(gvcHeld(&c.sk.mux), "the container is used only with the lock of the key held")
	}
	gvcAssert(!c.closed, "the container is not used after it was closed")
	c.writes++
	r := 0
	if c.faults {
		r = gvcFork(name+" fails", 4)
	}
	if r >= 2 || r == 0 {
		c.disk, c.lost = seqNo, lost
		gvcAssert(c.disk >= c.floor, "the sequence number recorded exceeds that of every signature made")
	}
	if r == 3 || r == 0 {
		c.mem, c.memLost = seqNo, lost
	}
	if r > 0 {
		c.failed = true
		return errorf("container failure")
	}
	return nil
}

func (c *gvcCtr) ResetCache() Error {
	if err := c.op("ResetCache"); err != nil {
		return err
	}
	c.cacheInitialized = true
	c.stas, c.bufs = nil, nil
	return nil
}

func (c *gvcCtr) GetSubTree(a SubTreeAddress) ([]byte, bool, Error) {
	if err := c.op("GetSubTree"); err != nil {
		return nil, false, err
	}
	for i := range c.stas {
		if c.stas[i] == a {
			return c.bufs[i], true, nil
		}
	}
	b := gvcBytes("subtree", c.params.CachedSubTreeSize())
	c.stas = append(c.stas, a)
	c.bufs = append(c.bufs, b)
	return b, false, nil
}

func (c *gvcCtr) HasSubTree(a SubTreeAddress) bool {
	c.op("HasSubTree")
	for i := range c.stas {
		if c.stas[i] == a {
			return true
		}
	}
	return false
}

func (c *gvcCtr) DropSubTree(a SubTreeAddress) Error {
	c.dropped = append(c.dropped, a)
	if err := c.op("DropSubTree"); err != nil {
		return err
	}
	for i := range c.stas {
		if c.stas[i] == a {
			var stas []SubTreeAddress
			var bufs [][]byte
			for j := range c.stas {
				if i != j {
					stas = append(stas, c.stas[j])
					bufs = append(bufs, c.bufs[j])
				}
			}
			c.stas, c.bufs = stas, bufs
			return nil
		}
	}
	return nil
}

func (c *gvcCtr) ListSubTrees() ([]SubTreeAddress, Error) {
	if err := c.op("ListSubTrees"); err != nil {
		return nil, err
	}
	return append([]SubTreeAddress(nil), c.stas...), nil
}

func (c *gvcCtr) Reset(privateKey []byte, params Params) Error {
	if err := c.op("Reset"); err != nil {
		return err
	}
	c.priv = privateKey
	c.params = params
	c.mem, c.disk, c.lost, c.memLost = 0, 0, 0, 0
	c.initialized, c.cacheInitialized = true, true
	c.stas, c.bufs = nil, nil
	return nil
}

func (c *gvcCtr) BorrowSeqNos(amount uint32) (SignatureSeqNo, Error) {
	old := c.mem
	if err := c.record("BorrowSeqNos", c.mem+uint64(amount), c.memLost+amount); err != nil {
		return 0, err
	}
	return SignatureSeqNo(old), nil
}

func (c *gvcCtr) SetSeqNo(seqNo SignatureSeqNo) Error {
	if err := c.record("SetSeqNo", uint64(seqNo), 0); err != nil {
		if uint64(seqNo) == c.floor+1 {
			c.torn = true
		}
		return err
	}
	c.torn = false
	return nil
}

func (c *gvcCtr) GetSeqNo() (SignatureSeqNo, uint32, Error) {
	if err := c.op("GetSeqNo"); err != nil {
		return 0, 0, err
	}
	return SignatureSeqNo(c.disk), c.lost, nil
}

func (c *gvcCtr) GetPrivateKey() ([]byte, Error) {
	if err := c.op("GetPrivateKey"); err != nil {
		return nil, err
	}
	return c.priv, nil
}

func (c *gvcCtr) Initialized() *Params {
	if !c.initialized {
		return nil
	}
	return &c.params
}

func (c *gvcCtr) CacheInitialized() bool { return c.cacheInitialized }

func (c *gvcCtr) Close() Error {
	c.closes++
	err := c.op("Close")
	c.closed = true
	return err
}

// What the key and the container agree on between operations.
func gvcSeqInv(sk *PrivateKey, c *gvcCtr) bool {
	s, b := uint64(sk.seqNo), uint64(sk.borrowed)
	return s >= c.floor && c.mem >= s+b && c.disk >= s+b
}

// Reservations: what may be lost is recorded.
func gvcLostInv(sk *PrivateKey, c *gvcCtr) bool {
	torn := uint64(0)
	if c.torn {
		torn = 1
	}
	s := uint64(sk.seqNo)
	return c.disk <= s+uint64(c.lost)+torn && c.mem <= s+uint64(c.memLost)+torn
}

// Heights and layers for which the key layer is verified.
func gvcKeyParams() Params {
	s := [8][2]uint32{{4, 2}, {2, 1}, {6, 3}, {0, 1}, {10, 1}, {20, 4}, {60, 6}, {63, 3}}
	k := gvcChoose("height/layers", 8)
	if !gvcSymbolic() && s[k][0]/s[k][1] > 2 {
		gvcStop()
	}
	return Params{Func: SHA2, N: 32, WotsW: 16, FullHeight: s[k][0], D: s[k][1], Prf: RFC}
}

// gvcKey is a private key in an arbitrary state.
func gvcKey(p Params) (*PrivateKey, *gvcCtr) {
	ctx, err := NewContext(p)
	gvcAssume(err == nil)
	n := int(p.N)
	ctr := &gvcCtr{params: p, initialized: true, cacheInitialized: true}
	skSeed, skPrf, pubSeed := gvcBytes("skSeed", n), gvcBytes("skPrf", n), gvcBytes("pubSeed", n)
	ctr.priv = []byte(string(skSeed) + string(skPrf) + string(pubSeed))
	sk, err := ctx.newPrivateKey(ctx.newScratchPad(), pubSeed, skSeed, skPrf, 0, ctr)
	gvcAssume(err == nil)
	return sk, ctr
}

// gvcAnyKey: any sequence number, reservation and container state the
// invariant allows.
func gvcAnyKey(p Params, lost bool) (*PrivateKey, *gvcCtr) {
	sk, ctr := gvcKey(p)
	s := gvcRange("seqNo", 0, 1<<62)
	sk.seqNo = SignatureSeqNo(s)
	sk.leastSeqNoInUse = sk.seqNo
	ctr.floor = s
	ctr.torn = lost && gvcChoose("torn", 2) == 1
	gvcAnySeq(sk, ctr, lost)
	sk.precomputeNextSubTree = gvcBool("precompute")
	ctr.sk = sk
	gvcShare(sk)
	return sk, ctr
}

// Everything that other goroutines may do to the key while this one does not
// hold the lock: take sequence numbers.
func gvcInterfere(sk *PrivateKey) {
	c, ok := sk.ctr.(*gvcCtr)
	if !ok || c.sk == nil {
		return
	}
	s := uint64(sk.seqNo) + gvcRange("sequence numbers taken by others", 0, 1<<40)
	sk.seqNo = SignatureSeqNo(s)
	c.floor = s
	gvcAnySeq(sk, c, false)
}

// gvcAnySeq: any reservation and container state that satisfies gvcSeqInv (and
// gvcLostInv if lost).
func gvcAnySeq(sk *PrivateKey, c *gvcCtr, lost bool) {
	b := gvcRange("borrowed", 0, 1<<32-1)
	sk.borrowed = uint32(b)
	s := uint64(sk.seqNo)
	if lost {
		t := uint64(0)
		if c.torn {
			t = 1
		}
		x, y := gvcRange("recorded beyond reservation", 0, 1<<32-1+t), gvcRange("container beyond reservation", 0, 1<<32-1+t)
		gvcAssume(b+x <= 1<<32-1+t && b+y <= 1<<32-1+t)
		c.disk, c.mem = s+b+x, s+b+y
		l, m := gvcRange("lost", 0, 1<<32-1), gvcRange("container.lost", 0, 1<<32-1)
		gvcAssume(b+x <= l+t && b+y <= m+t)
		c.lost, c.memLost = uint32(l), uint32(m)
		return
	}
	c.disk = s + b + gvcRange("recorded beyond reservation", 0, 1<<40)
	c.mem = s + b + gvcRange("container beyond reservation", 0, 1<<40)
	c.lost, c.memLost = gvcU32("lost"), gvcU32("container.lost")
}

//gvc:contract (*PrivateKey).getSubTree
func cGetSubTree(sk *PrivateKey, pad scratchPad, sta SubTreeAddress) (mt *merkleTree, wotsSig []byte, err Error) {
	gvcRequire(!gvcHeld(&sk.mux), "getSubTree is called without holding the lock")
	if sh, ok := sk.ctr.(*gvcShared); ok && sh.in {
		gvcHavoc(pad.buf)
		return sh.request(sta)
	}
	c, ok := sk.ctr.(*gvcCtr)
	if ok {
		c.depth++
		gvcInterfere(sk)
		if c.faults && gvcFork("getSubTree fails", 2) == 1 {
			c.failed = true
			c.failDepth = c.depth
			return nil, nil, errorf("container failure")
		}
	}
	gvcHavoc(pad.buf)
	b := gvcBytes("tree"+string('0'+rune(sta.Layer)), sk.ctx.p.BareSubTreeSize())
	t := merkleTreeFromBuf(b, sk.ctx.treeHeight+1, sk.ctx.p.N)
	w := gvcBytes("wots"+string('0'+rune(sta.Layer)), int(sk.ctx.wotsSigBytes))
	if ok {
		h := sk.ctx.treeHeight
		leaf := uint32(c.signing >> (sta.Layer * h) & (1<<h - 1))
		c.got = append(c.got, gvcSubTree{sta, b, w, specAuthPath(&sk.ctx.p, b, leaf), string(w)})
	}
	return &t, w, nil
}

//gvc:contract (*PrivateKey).retireSeqNo
func cRetireSeqNo(sk *PrivateKey, seqNo SignatureSeqNo) {
	gvcRequire(!gvcHeld(&sk.mux), "retireSeqNo is called without holding the lock")
	c, ok := sk.ctr.(*gvcCtr)
	if ok {
		c.retired = append(c.retired, seqNo)
		// From now on, the container may use the space for other subtrees.
		for _, g := range c.got {
			gvcHavoc(g.buf)
			gvcHavoc(g.wotsBuf)
		}
		gvcInterfere(sk)
	}
}

// Every error that the library makes can be looked into and printed, whether
// or not it wraps another one.
//
//gvc:harness C22
func hC22ErrorText() {
	inner := error(nil)
	if gvcBool("wraps") {
		inner = &gvcErr{"cause"}
	}
	a := errorf("message %d", gvcRange("n", 0, 9))
	b := wrapErrorf(inner, "message")
	c := wrapErrorf(b, "message")
	for _, err := range []Error{a, b, c} {
		err.Error()
		gvcAssert(!err.Locked(), "an error does not say that the key is locked unless it was set so")
	}
	gvcAssert(a.Inner() == nil && b.Inner() == inner && c.Inner() == error(b), "an error gives the one it wraps")
}
