package xmssmt

// C04, C17: the key file.

func gvcFSParams() Params {
	return Params{Func: SHA2, N: 16, WotsW: 256, FullHeight: 4, D: 2, Prf: RFC}
}

// gvcFSKey: a container that holds a key, the next sequence number s0 and a
// reservation of b0.
func gvcFSKey(p Params) (fs *gvcFS, ctr PrivateKeyContainer, priv string, s0, b0 uint64) {
	fs = gvcNewFS()
	ctr, err := OpenFSPrivateKeyContainer("/d/key")
	gvcAssert(err == nil && ctr != nil && ctr.Initialized() == nil && !ctr.CacheInitialized(), "a path without a file is opened as a container without key")
	buf := gvcBytes("private key", p.PrivateKeySize())
	priv = string(buf)
	err = ctr.Reset(buf, p)
	gvcAssert(err == nil, "a key is stored")
	u := gvcU64("seqNo")
	b := gvcU32("borrowed")
	s0, b0 = u+uint64(b), uint64(b)
	gvcAssert(ctr.SetSeqNo(SignatureSeqNo(u)) == nil, "a sequence number is recorded")
	r, err := ctr.BorrowSeqNos(b)
	gvcAssert(err == nil && uint64(r) == u, "BorrowSeqNos returns the first number reserved")
	return
}

// gvcHolds: the container holds this key and these numbers.
func gvcHolds(ctr PrivateKeyContainer, p Params, priv string, s uint64, b uint32) bool {
	q := ctr.Initialized()
	if q == nil || *q != p {
		return false
	}
	k, err := ctr.GetPrivateKey()
	if err != nil || string(k) != priv {
		return false
	}
	r, l, err := ctr.GetSeqNo()
	return err == nil && uint64(r) == s && l == b
}

// gvcAfterCrash: a container opened after a crash at which the key file has
// the given content.
func gvcAfterCrash(content string) (PrivateKeyContainer, Error) {
	fs := gvcNewFS()
	fs.link(fs.keyPath, &gvcInode{data: []byte(content), synced: true})
	return OpenFSPrivateKeyContainer("/d/key")
}

//gvc:harness C04,C03,C20,C22 noexec
func hC04Write() {
	p := gvcFSParams()
	fs, ctr, priv, s0, b0 := gvcFSKey(p)
	gvcAssert(gvcHolds(ctr, p, priv, s0, uint32(b0)), "the container holds what was recorded")
	fs.watch()
	gvcAssert(!fs.torn && !fs.absent && len(fs.exposed) == 1, "what was recorded is on disk")
	fs.faults = true
	files := fs.openFiles()
	s1, b1 := uint64(0), uint32(0)
	var err Error
	if gvcChoose("operation", 2) == 0 {
		s1 = gvcU64("new seqNo")
		err = ctr.SetSeqNo(SignatureSeqNo(s1))
	} else {
		a := gvcU32("amount")
		s1, b1 = s0+uint64(a), uint32(b0)+a
		var r SignatureSeqNo
		r, err = ctr.BorrowSeqNos(a)
		gvcAssert(err != nil || uint64(r) == s0, "BorrowSeqNos returns the first number reserved")
	}
	fs.faults = false
	gvcAssert((err != nil) == fs.failed, "recording fails if and only if one of the steps does")
	gvcAssert(!fs.torn && !fs.absent, "at any time, the key file is complete")
	gvcAssert(fs.openFiles() == files, "no file is left open")
	if err == nil {
		gvcAssert(gvcHolds(ctr, p, priv, s1, b1), "the container holds what was recorded")
	} else {
		gvcAssert(gvcHolds(ctr, p, priv, s0, uint32(b0)), "the numbers are as before if recording fails")
	}
	exposed := fs.exposed
	fs.watch()
	gvcAssert(err != nil || len(fs.exposed) == 1, "what was recorded is on disk")
	now := fs.exposed
	for _, content := range exposed {
		c2, err2 := gvcAfterCrash(content)
		gvcAssert(err2 == nil, "the key can be loaded after a crash")
		if err2 == nil {
			gvcAssert(gvcHolds(c2, p, priv, s0, uint32(b0)) || gvcHolds(c2, p, priv, s1, b1), "after a crash, the key file holds the previous or the new record")
		}
	}
	if err == nil && len(now) == 1 {
		c2, err2 := gvcAfterCrash(now[0])
		gvcAssert(err2 == nil && gvcHolds(c2, p, priv, s1, b1), "what was recorded is on disk")
	}
}

// Storing a key: creating the file, or replacing another key.
//
//gvc:harness C04,C15,C22 noexec
func hC04Reset() {
	p := gvcFSParams()
	var fs *gvcFS
	var ctr PrivateKeyContainer
	var priv string
	var s0, b0 uint64
	had := gvcChoose("key exists", 2) == 1
	if had {
		fs, ctr, priv, s0, b0 = gvcFSKey(p)
	} else {
		fs = gvcNewFS()
		var err Error
		ctr, err = OpenFSPrivateKeyContainer("/d/key")
		gvcAssume(err == nil)
	}
	fs.watch()
	fs.faults = true
	p2 := Params{Func: SHAKE, N: 24, WotsW: 16, FullHeight: 6, D: 3, Prf: NIST}
	buf := gvcBytes("new private key", p2.PrivateKeySize())
	priv2 := string(buf)
	err := ctr.Reset(buf, p2)
	fs.faults = false
	gvcAssert((err != nil) == fs.failed, "storing a key fails if and only if one of the steps does")
	gvcAssert(!fs.torn && (had == !fs.absent || !had), "at any time, the key file is complete")
	exposed := fs.exposed
	fs.watch()
	now, absent := fs.exposed, fs.absent
	if err == nil {
		gvcAssert(gvcHolds(ctr, p2, priv2, 0, 0) && ctr.CacheInitialized(), "the container holds the key stored")
		gvcAssert(len(now) == 1 && !absent, "a key that was stored is on disk")
	} else if q := ctr.Initialized(); q != nil {
		old := had && gvcHolds(ctr, p, priv, s0, uint32(b0))
		gvcAssert(old || gvcHolds(ctr, p2, priv2, 0, 0), "after a failure, the container holds the old key or the new one")
		if !old {
			gvcAssert(len(now) == 1 && !absent, "the container holds a new key only if it is on disk")
			c2, err2 := gvcAfterCrash(now[0])
			gvcAssert(err2 == nil && gvcHolds(c2, p2, priv2, 0, 0), "the container holds a new key only if it is on disk")
		}
	}
	for _, content := range exposed {
		c2, err2 := gvcAfterCrash(content)
		gvcAssert(err2 == nil, "the key can be loaded after a crash")
		if err2 == nil {
			gvcAssert(had && gvcHolds(c2, p, priv, s0, uint32(b0)) || gvcHolds(c2, p2, priv2, 0, 0), "after a crash, the key file holds the previous or the new record")
		}
	}
	if err == nil && len(now) == 1 {
		c2, err2 := gvcAfterCrash(now[0])
		gvcAssert(err2 == nil && gvcHolds(c2, p2, priv2, 0, 0), "a key that was stored is on disk")
	}
}

// Opening: any failure, and the lock.
//
//gvc:harness C17,C15,C22 noexec
func hC17Open() {
	p := gvcFSParams()
	had := gvcChoose("key exists", 2) == 1
	var fs *gvcFS
	var priv string
	var s0, b0 uint64
	if had {
		var ctr PrivateKeyContainer
		fs, ctr, priv, s0, b0 = gvcFSKey(p)
		gvcAssert(fs.locks == 1, "the lock is held until the container is closed")
		gvcAssert(ctr.Close() == nil, "the container is closed")
		gvcAssert(fs.locks == 0 && fs.openFiles() == 0 && fs.mapped == 0, "closing releases the lock")
	} else {
		fs = gvcNewFS()
	}
	fs.lockErr = gvcFork("lock", 4)
	fs.faults = true
	fs.failed = false
	path := "/d/key"
	if gvcFork("relative", 2) == 1 {
		path = "key"
	}
	ctr, err := OpenFSPrivateKeyContainer(path)
	if fs.lockErr != 0 {
		gvcAssert(err != nil && ctr == nil, "no container is returned without the lock")
		gvcAssert(err == nil || err.Locked() == (fs.lockErr == 1) || fs.failed, "the error says whether another process holds the lock")
		gvcAssert(fs.locks == 0 && fs.openFiles() == 0, "nothing is held after a failure to open")
		return
	}
	if err != nil {
		gvcAssert(ctr == nil && fs.failed, "opening fails only if a step does")
		gvcAssert(!err.Locked(), "the error says whether another process holds the lock")
		gvcAssert(fs.openFiles() == 0, "nothing is held after a failure to open")
		return
	}
	gvcAssert(fs.locks == 1, "the lock is held until the container is closed")
	if had {
		gvcAssert(gvcHolds(ctr, p, priv, s0, uint32(b0)), "the container holds what was recorded")
		gvcAssert(ctr.CacheInitialized() || fs.failed, "the cache is found again")
	} else {
		gvcAssert(ctr.Initialized() == nil, "a path without a file is opened as a container without key")
	}
	fs.failed = false
	err = ctr.Close()
	gvcAssert((err != nil) == fs.failed, "closing fails if and only if a step does")
	gvcAssert(fs.openFiles() == 0 && fs.mapped == 0, "closing releases all files")
	gvcAssert(fs.locks == 0 || fs.failed, "closing releases the lock")
	gvcAssert(ctr.SetSeqNo(1) != nil, "a closed container records nothing")
	_, err = ctr.BorrowSeqNos(1)
	gvcAssert(err != nil, "a closed container records nothing")
	gvcAssert(ctr.Reset(make([]byte, p.PrivateKeySize()), p) != nil, "a closed container records nothing")
	_, _, err = ctr.GetSubTree(SubTreeAddress{})
	gvcAssert(err != nil && ctr.ResetCache() != nil, "a closed container records nothing")
}

// Opening a file with any content.
//
//gvc:harness C15,C05 noexec
func hC15OpenAny() {
	hdr := 8 + 1 + 4*3 + 2 + 1 + 8 + 4
	n := [4]uint32{16, 24, 32, 64}[gvcChoose("n", 4)]
	l := [6]int{0, 3, hdr - 1, hdr + int(3*n) - 1, hdr + int(3*n), hdr + int(3*n) + 2}[gvcChoose("length", 6)]
	b := gvcBytes("content", l)
	s := string(b)
	var p Params
	ok := l >= hdr+int(3*n)
	var seqNo uint64
	var borrowed uint32
	if l >= hdr {
		gvcAssume(uint32(gvcU64of(s[9:13])) == n)
		p.Func, p.N, p.FullHeight, p.D = HashFunc(s[8]), n, uint32(gvcU64of(s[13:17])), uint32(gvcU64of(s[17:21]))
		p.WotsW, p.Prf = uint16(gvcU64of(s[21:23])), PrfConstruction(s[23])
		gvcAssume(p.D <= 70 && p.FullHeight <= 70)
		d, h := [4]uint32{1, 2, 7, 64}[gvcChoose("d", 4)], [4]uint32{0, 14, 15, 64}[gvcChoose("h", 4)]
		gvcAssume(p.D == d && p.FullHeight == h)
		p.D, p.FullHeight = d, h
		ok = ok && s[:8] == "\x40\x89\x43\x0a\x5c\xed\x68\x44" && specSupported(&p)
		seqNo, borrowed = gvcU64of(s[24:32]), uint32(gvcU64of(s[32:36]))
	}
	fs := gvcNewFS()
	fs.link(fs.keyPath, &gvcInode{data: b, synced: true})
	ctr, err := OpenFSPrivateKeyContainer("/d/key")
	gvcAssert((err == nil) == ok, "a key file is opened if and only if it is complete and has the magic and supported parameters")
	if err != nil {
		gvcAssert(ctr == nil && fs.locks == 0, "no container is returned for a malformed file")
		return
	}
	gvcAssert(gvcHolds(ctr, p, s[hdr:hdr+int(3*n)], seqNo, borrowed), "the container holds what is in the file")
}
