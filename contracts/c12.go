package xmssmt

// C12: the cache of the filesystem container.

import "encoding/binary"

type gvcLive struct {
	a       SubTreeAddress
	buf     []byte
	content string
	at      int // number of maps removed when buf was handed out
}

type gvcCacheState struct {
	fs   *gvcFS
	ctr  PrivateKeyContainer
	p    Params
	live []gvcLive

	known []SubTreeAddress // every address used so far; they differ
	page  int              // page size once opened again
}

func (s *gvcCacheState) index(a SubTreeAddress) int {
	for i := range s.live {
		if s.live[i].a == a {
			return i
		}
	}
	return -1
}

// get asks for a subtree and fills it with new content.
func (s *gvcCacheState) get(a SubTreeAddress) {
	i := s.index(a)
	buf, exists, err := s.ctr.GetSubTree(a)
	gvcAssert(err == nil, "a cached subtree is found or allocated")
	if err != nil {
		gvcStop()
	}
	s.got(i, a, buf, exists)
}

// got: the container returned buf for a.
func (s *gvcCacheState) got(i int, a SubTreeAddress, buf []byte, exists bool) {
	gvcAssert(exists == (i >= 0), "a subtree is reported present from its allocation until it is dropped")
	gvcAssert(len(buf) == s.p.CachedSubTreeSize(), "the buffer of a subtree has the right size")
	if i >= 0 {
		gvcAssert(string(buf) == s.live[i].content, "a cached subtree keeps its content")
	}
	for j := range s.live {
		if j != i && s.live[j].buf != nil {
			gvcAssert(gvcDisjoint(buf, s.live[j].buf), "the buffers of different subtrees are disjoint")
		}
	}
	c := gvcBytes("content", len(buf))
	copy(buf, c)
	if i < 0 {
		s.live = append(s.live, gvcLive{})
		i = len(s.live) - 1
	}
	s.live[i] = gvcLive{a, buf, string(c), len(s.fs.unmapped)}
}

func (s *gvcCacheState) forget(i int) {
	var l []gvcLive
	for j := range s.live {
		if j != i {
			l = append(l, s.live[j])
		}
	}
	s.live = l
}

func (s *gvcCacheState) drop(a SubTreeAddress) {
	i := s.index(a)
	gvcAssert(s.ctr.DropSubTree(a) == nil, "a subtree is dropped")
	if i >= 0 {
		s.forget(i)
	}
}

func (s *gvcCacheState) reopen() {
	gvcAssert(s.ctr.Close() == nil, "the container is closed")
	s.fs.page = s.page
	ctr, err := OpenFSPrivateKeyContainer("/d/key")
	gvcAssert(err == nil, "the container can be opened again")
	if err != nil {
		gvcStop()
	}
	gvcAssert(ctr.CacheInitialized(), "the cache is found again")
	s.ctr = ctr
	for i := range s.live {
		s.live[i].buf = nil
	}
}

// check: everything the container says about its cache.
func (s *gvcCacheState) check() {
	l, err := s.ctr.ListSubTrees()
	gvcAssert(err == nil && len(l) == len(s.live), "the subtrees listed are those present")
	for i := range l {
		gvcAssert(s.index(l[i]) >= 0, "the subtrees listed are those present")
	}
	for i := range s.live {
		gvcAssert(s.ctr.HasSubTree(s.live[i].a), "a subtree is reported present from its allocation until it is dropped")
		if s.live[i].buf != nil {
			gvcAssert(string(s.live[i].buf) == s.live[i].content, "a cached subtree keeps its content")
			for _, u := range s.fs.unmapped[s.live[i].at:] {
				gvcAssert(gvcDisjoint(u, s.live[i].buf), "the buffer of a subtree stays mapped until it is dropped")
			}
		}
	}
	for _, a := range s.known {
		gvcAssert(s.ctr.HasSubTree(a) == (s.index(a) >= 0), "a subtree is reported present from its allocation until it is dropped")
	}
}

// gvcCache: a cache to which up to k subtrees were added, of which any were
// dropped, that may have been opened again since.
func gvcCache(p Params, k int) *gvcCacheState {
	n := gvcChoose("subtrees", k+1)
	sizes := 0
	if n == 1 || gvcThorough() {
		sizes = gvcChoose("page sizes", 3)
	}
	fs := gvcNewFS()
	fs.page = [3]int{4096, 4096, 65536}[sizes]
	fs.fileCap = (n + 4) * ((p.CachedSubTreeSize() + 13 + fs.page) / fs.page * fs.page)
	ctr, err := OpenFSPrivateKeyContainer("/d/key")
	gvcAssume(err == nil)
	gvcAssume(ctr.Reset(gvcBytes("private key", p.PrivateKeySize()), p) == nil)
	s := &gvcCacheState{fs: fs, ctr: ctr, p: p}
	for i := 0; i < n; i++ {
		s.get(s.address(i))
	}
	for i := 0; i < n; i++ {
		if gvcChoose("dropped", 2) == 1 {
			s.drop(s.known[i])
		}
	}
	s.page = [3]int{4096, 16384, 4096}[sizes]
	if gvcChoose("opened again", 2) == 1 {
		s.reopen()
	}
	return s
}

// address: the i-th of the addresses used so far, or a new one.
func (s *gvcCacheState) address(i int) SubTreeAddress {
	if i < len(s.known) {
		return s.known[i]
	}
	a := SubTreeAddress{Layer: gvcU32("layer"), Tree: gvcU64("tree")}
	for _, b := range s.known {
		gvcAssume(a != b)
	}
	s.known = append(s.known, a)
	return a
}

func (s *gvcCacheState) pick() SubTreeAddress {
	return s.address(gvcChoose("address", len(s.known)+1))
}

//gvc:harness C12,C13 noexec inline bounded="at most 3 (thorough: 4) subtrees added to the cache before the operation, followed by up to two more operations"
func hC12Ops() {
	p := gvcFSParams()
	k := 3
	if gvcThorough() {
		k = 4
	}
	s := gvcCache(p, k)
	switch gvcChoose("operation", 4) {
	case 0:
		s.get(s.pick())
		s.check()
	case 1:
		s.drop(s.pick())
		s.check()
		s.get(s.pick())
	case 2:
		s.reopen()
		s.check()
		s.get(s.pick())
	case 3:
		gvcAssert(s.ctr.ResetCache() == nil, "the cache is reset")
		s.live = nil
		s.check()
		s.get(s.pick())
	}
	s.check()
	s.reopen()
	s.check()
	all := append([]gvcLive(nil), s.live...)
	for i := range all {
		s.get(all[i].a)
	}
	s.check()
}

// An operation fails somewhere: the subtrees it was not about are as before,
// and nothing is handed out twice afterwards.
//
//gvc:harness C12,C13,C22 noexec inline bounded="at most 2 (thorough: 3) subtrees added to the cache before the operation, followed by two more operations; one step of the operation fails"
func hC12Faults() {
	p := gvcFSParams()
	k := 2
	if gvcThorough() {
		k = 3
	}
	s := gvcCache(p, k)
	a := s.pick()
	i := s.index(a)
	s.fs.watch()
	s.fs.faults, s.fs.ops = true, 0
	s.fs.failAt, s.fs.failMode = 1+gvcChoose("failing step", 6), 1+gvcChoose("how it fails", 2)
	if gvcChoose("operation", 2) == 0 {
		buf, exists, err := s.ctr.GetSubTree(a)
		s.fs.faults = false
		if err != nil {
			gvcAssert(s.fs.failed, "a subtree is found or allocated unless the container fails")
		} else {
			s.got(i, a, buf, exists)
		}
	} else {
		err := s.ctr.DropSubTree(a)
		s.fs.faults = false
		gvcAssert((err != nil) == s.fs.failed, "a failure to drop a subtree is reported")
		if i >= 0 && !s.ctr.HasSubTree(a) {
			s.forget(i)
		}
	}
	gvcAssert(s.fs.ops <= 6, "model: every step was made to fail")
	if !s.fs.failed {
		gvcStop()
	}
	s.check()
	for round := 0; round < 2; round++ {
		b := s.pick()
		j := s.index(b)
		buf, exists, err := s.ctr.GetSubTree(b)
		if err == nil {
			s.got(j, b, buf, exists)
		}
		s.check()
	}
	s.ctr.Close()
	gvcAssert(s.fs.mapped <= s.fs.leaked, "everything is unmapped in the end")
	ctr, err := OpenFSPrivateKeyContainer("/d/key")
	gvcAssert(err == nil, "the container can be opened again")
	if err != nil {
		return
	}
	gvcAssert(ctr.CacheInitialized(), "the cache is found again")
	s.ctr = ctr
	for i := range s.live {
		s.live[i].buf = nil
	}
	s.check()
	all := append([]gvcLive(nil), s.live...)
	for i := range all {
		s.get(all[i].a)
	}
}

// The places of all subtrees in the cache file.
//
//gvc:harness C12
func hC12Offsets() {
	p := gvcKeyParams()
	q := [3][2]uint32{{32, 16}, {64, 256}, {16, 4}}[gvcChoose("n and w", 3)]
	p.N, p.WotsW = q[0], uint16(q[1])
	ctr := &fsContainer{params: p}
	ctr.subTreeAlignment = [5]int{17, 4096, 8192, 16384, 65536}[gvcChoose("alignment", 5)]
	i := gvcU32("i")
	gvcAssume(i < 1<<32-1)
	o := ctr.subTreeOffset(i)
	size := 13 + p.CachedSubTreeSize()
	gvcAssert(o >= 17, "no subtree overlaps the header of the cache file")
	gvcAssert(o%ctr.subTreeAlignment == 0, "subtrees are aligned")
	gvcAssert(ctr.subTreeOffset(i+1)-o >= size && ctr.subTreeOffset(i+1) > o, "a subtree ends before the next one starts")
	j := gvcU32("j")
	gvcAssume(i < j)
	gvcAssert(ctr.subTreeOffset(j)-o >= size, "subtrees do not overlap")
}

// Opening a cache file with any content: what is found of it is usable, and a
// complete one is found again.
//
//gvc:harness C12,C13,C15 noexec inline bounded="at most 2 subtrees in the cache file, 7 alignments, lengths around the ends of the places of the subtrees"
func hC13OpenCacheAny() {
	p := gvcFSParams()
	fs := gvcNewFS()
	ctr, err := OpenFSPrivateKeyContainer("/d/key")
	gvcAssume(err == nil)
	gvcAssume(ctr.Reset(gvcBytes("private key", p.PrivateKeySize()), p) == nil)
	gvcAssume(ctr.Close() == nil)

	al := [7]uint32{0, 5, 16, 17, 4096, 65536, 1<<32 - 1}[gvcChoose("alignment", 7)]
	allocated := [5]uint32{0, 1, 2, 3, 1<<32 - 1}[gvcChoose("allocated", 5)]
	count := 3 // the rest is missing
	if allocated <= 2 {
		count = int(allocated)
	}
	eff := int(al)
	v0 := gvcChoose("old format", 2) == 1
	if eff == 0 || v0 {
		eff = 4096
	}
	size := p.CachedSubTreeSize()
	padded := (13 + size + eff - 1) / eff * eff
	end := 0
	l := 0
	valid := true
	if eff > 65536 || eff < 17 {
		l = 17
		valid = eff > 65536 && count == 0
	} else {
		end = eff + count*padded
		if count == 3 {
			end = eff + 2*padded
			valid = false
		}
		switch gvcChoose("length", 7) {
		case 0:
			l = end
		case 1:
			l = end + 5
		case 2:
			l = end - 1
			valid = false
		case 3:
			l = end - padded + 13
			valid = false
		case 4:
			l = end - padded + 12
			valid = false
		case 5:
			l = 16
			valid = false
		case 6:
			l = 0
			valid = false
		}
		if count == 0 {
			valid = l >= 17
		}
		if l < 0 {
			gvcStop()
		}
	}
	b := gvcBytes("content", l)
	if l >= 17 {
		magic := "\x5a\x11\xd7\xcf\x4a\x1f\x63\x14\x01"
		if v0 {
			magic = "\xe7\x79\x57\x60\x7e\xf7\x94\x46\x00"
		}
		if gvcChoose("damaged", 2) == 1 {
			gvcAssume(string(b[:8])+string(b[12:13]) != magic)
			other := "\xe7\x79\x57\x60\x7e\xf7\x94\x46\x00"
			if v0 {
				other = "\x5a\x11\xd7\xcf\x4a\x1f\x63\x14\x01"
			}
			gvcAssume(string(b[:8])+string(b[12:13]) != other)
			valid = false
		} else {
			copy(b, magic[:8])
			b[12] = magic[8]
		}
		binary.BigEndian.PutUint32(b[13:], al)
		binary.BigEndian.PutUint32(b[8:], allocated)
	}
	var addrs []SubTreeAddress
	for i := 0; i < count && i < 2; i++ {
		at := eff + i*padded
		a := SubTreeAddress{Layer: gvcU32("layer"), Tree: gvcU64("tree")}
		addrs = append(addrs, a)
		if i > 0 {
			gvcAssume(a != addrs[0])
		}
		if at+13 <= l {
			b[at] = [3]byte{0, 1, 128}[gvcChoose("present", 3)]
			binary.BigEndian.PutUint32(b[at+1:], a.Layer)
			binary.BigEndian.PutUint64(b[at+5:], a.Tree)
		}
	}
	fs.fileCap = l + 4*padded + 8192*2
	if fs.fileCap > 1<<21 {
		fs.fileCap = 1 << 21
	}
	ino := &gvcInode{data: make([]byte, l, fs.fileCap), synced: true}
	copy(ino.data, b)
	fs.link("/d/key.cache", ino)
	ctr, err = OpenFSPrivateKeyContainer("/d/key")
	gvcAssert(err == nil, "a key is opened whatever its cache contains")
	if err != nil {
		return
	}
	if valid {
		gvcAssert(ctr.CacheInitialized(), "a complete cache is found again")
	}
	if !ctr.CacheInitialized() {
		gvcAssert(ctr.ResetCache() == nil && ctr.CacheInitialized(), "a damaged cache can be made anew")
		gvcCacheUse(ctr, size, nil, -1)
		return
	}
	gvcAssert(valid, "what is not a cache file is not used")
	if eff > 65536 {
		gvcStop() // the model of files is too small for these
	}
	var places [][]byte
	n := 0
	for i, a := range addrs {
		at := eff + i*padded
		if b[at] == 0 {
			continue
		}
		n++
		gvcAssert(ctr.HasSubTree(a), "the subtrees in a cache file are found again")
		buf, exists, err := ctr.GetSubTree(a)
		gvcAssert(err == nil && exists && len(buf) == size, "the subtrees in a cache file are found again")
		if err != nil {
			return
		}
		gvcAssert(string(buf) == string(b[at+13:at+13+size]), "the subtrees in a cache file keep their content")
		places = append(places, buf)
	}
	gvcCacheUse(ctr, size, places, n)
}

// gvcCacheUse: two more subtrees are added to a cache of n (unless negative)
// subtrees.
func gvcCacheUse(ctr PrivateKeyContainer, size int, places [][]byte, n int) {
	l, err := ctr.ListSubTrees()
	gvcAssert(err == nil && (n < 0 || len(l) == n), "the subtrees listed are those present")
	for i := 0; i < 2; i++ {
		a := SubTreeAddress{Layer: gvcU32("layer"), Tree: gvcU64("tree")}
		gvcAssume(!ctr.HasSubTree(a))
		buf, exists, err := ctr.GetSubTree(a)
		gvcAssert(err == nil && !exists && len(buf) == size, "a cached subtree is found or allocated")
		if err != nil {
			return
		}
		for _, q := range places {
			gvcAssert(gvcDisjoint(buf, q), "the buffers of different subtrees are disjoint")
		}
		places = append(places, buf)
	}
	gvcAssert(ctr.Close() == nil && gvcDisk.mapped == 0, "everything is unmapped in the end")
}
